"""P26: the gauge library."""
from vlib import gau


def check(ctx):
    for size, n, k in ctx.pick([('23', 2, 5), ('222', 3, 2)],
                               [('23', 2, 12), ('222', 3, 6), ('322', 2, 6), ('2122', 3, 3), ('43', 3, 6)]):
        ctx.model('GaugeMC', 'SPECIFICATION MCSpec\nCONSTANTS\n  Digits = %s\n  Colours = %d\n  Seeds = %d\nINVARIANTS GroupInv GaugeInv StapleInv\n'
                  'CHECK_DEADLOCK FALSE\n' % (size, n, k), 'size %s, SU(%d), %d seeds' % (size, n, k + 1))
    W = ctx.pick(['v2','v3','v4'], ['v2', 'v3', 'v4', 'a3'])
    exes = ctx.build([(v, 'gau') for v in W])
    rng = ctx.rng
    sc = [gau.scenario(rng, rng.choice(W), ctx.pick(35, 60)) for i in range(ctx.pick(80, 1500))]
    ctx.conform(sc, 'GaugeTrace', exes)
    ctx.assumptions = ['links are monomial matrices of SU(2), SU(3) with entries 1, i, -1, -i']

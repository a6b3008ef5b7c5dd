"""P27: extended precision numbers."""
from vlib import ext, tlc

CFG = 'SPECIFICATION Spec\nCONSTANTS P = %d\n Gap = %d\n Max = 1\n Depth = %d\n Fault = "%s"\nINVARIANTS Faithful Signs\nCHECK_DEADLOCK FALSE\n'


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'o3'])
    exes = ctx.build([(v, 'ext') for v in W])
    for p, gap, n in ctx.pick([(7, 6, 5)], [(7, 6, 6), (8, 6, 6), (9, 8, 5)]):
        ctx.model('ExtendedMC', CFG % (p, gap, n, 'none'), 'the algorithm with %d bit numbers, %d operations' % (p, n))
    if ctx.thorough:
        for f in ('one', 'order', 'first'):
            if not tlc.run('ExtendedMC', CFG % (7, 6, 5, f), workers=8).violated:
                raise tlc.TLCError('the deliberately broken algorithm %s is not found to be broken' % f)
    rng = ctx.rng
    sc = [ext.scenario(rng, rng.choice(W), rng.choice([30, 60, 120])) for i in range(ctx.pick(160, 3000))]
    ctx.conform(sc, 'ExtendedTrace', exes)
    ctx.assumptions = ['numbers are sums of at most 2^22 units of three scales, 2^50 apart; integers as operands are below 2^53']

"""P03: the lattice layout."""
from vlib import lay, fmgen
from vlib.layouts import LAYOUTS

INV = 'INVARIANTS NoStuck AllRanks NoEmptyRank OwnerInRange Even\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n'


def models(ctx):
    for nd, ms, mr in ctx.pick([(1, 16, 14), (2, 8, 12), (3, 5, 12)], [(1, 40, 32), (2, 16, 32), (3, 9, 24), (4, 5, 16)]):
        ctx.model('LayoutSetup', 'CONSTANTS ND = %d MaxSize = %d MaxRanks = %d Fault = ""\nSPECIFICATION Spec\n%s' % (nd, ms, mr, INV),
                  'all sizes up to %d^%d, up to %d ranks' % (ms, nd, mr), workers=4, timeout=800)


def check(ctx):
    rng = ctx.rng
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3'])
    exes = ctx.build([(v, 'lay') for v in W])
    models(ctx)
    sc = []
    for v in W:
        nd = int(v[1])
        L = [(np, s) for np in LAYOUTS[v[:2]] for s in LAYOUTS[v[:2]][np]]
        for np, s in rng.sample(L, min(len(L), ctx.pick(16, 150))):
            sc.append(lay.Scenario(v, np, rng.choice(lay.TYPES), s, lay.geometry(rng, nd), tag='layout'))
        for _ in range(ctx.pick(4, 80)):       # any size at all: set up consistently, or refused
            s = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20] if nd < 3 else [2, 3, 4, 5, 6, 7, 8]) for _ in range(nd)]
            if fmgen.prod(s) <= 400:
                sc.append(lay.Scenario(v, rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]), rng.choice(lay.TYPES), s,
                                       lay.geometry(rng, nd), tag='any layout'))
    ctx.conform([s for s in sc if s.variant[0] != 'a'], 'LayoutTrace', exes, lay.const('v'))
    ctx.conform([s for s in sc if s.variant[0] == 'a'], 'LayoutTrace', exes, lay.const('a'))
    # the same on the levels made by blocking
    W = [v for v in W if v[0] != 'a']
    sc = []
    for _ in range(ctx.pick(40, 600)):
        v = rng.choice(W)
        np, s = fmgen.pick(rng, v, None, 200)
        g = lay.Gen(rng, s)
        for _ in range(rng.randrange(1, 4)):
            g.block(3)
        sc.append(lay.Scenario(v, np, rng.choice(lay.TYPES), s, g.recs + lay.geometry(rng, int(v[1])), tag='blocked'))
    ctx.conform(sc, 'LayoutTrace', exes, lay.const('v'))
    if ctx.elapsed() < 800:
        ctx.cov['refused'] = sum(1 for n in ctx.notes if n.startswith('refused'))

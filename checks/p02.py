"""P02: boundary conditions."""
from vlib.fmcheck import *


def sweep(rng, typ, size, lim=1 << 20):
    """every direction, both signs, changed before and after the halo was fetched"""
    nd = len(size)
    dirs = [d for k in range(1, nd + 1) for d in (k, -k)]
    recs = [op('cset', 0, 'A', 3, 5), op('cset', 2, 'A', 1, 7)]
    combos = [(b,) for b in range(2 ** nd)]
    rng.shuffle(combos)
    for (m,) in combos:
        for k in range(nd):
            if rng.random() < 0.5:
                recs.append(op('gat', 0, rng.choice(dirs), rng.choice('EOA')))
            recs.append(op('bc', 0, rng.choice([1, -1]) * (k + 1), (m >> k) & 1))
        recs.append(op('getbc', 0))
        for d in rng.sample(dirs, len(dirs)):
            P = rng.choice('EOA')
            recs.append(op('cp', 1, 'A', 0, d) if P == 'A' else op('cp', 1, P, 0, d))
            recs.append(op('dump', 1)) if P == 'A' else recs.extend([op('cp', 1, 'EO'[P == 'E'], 0, d), op('dump', 1)])
        k = rng.random()
        if k < 0.3:
            recs += [op('star', 1, 'A', 0), op('dump', 1)]
        elif k < 0.5:
            recs += [op('cset', 0, rng.choice('EOA'), 2, rng.randrange(50)), op('fix', 1, 'A', 0), op('dump', 1)]
        elif k < 0.6:
            recs += [op('move', 3, 0), op('getbc', 3), op('cp', 1, 'A', 3, 1), op('dump', 1), op('move', 0, 3)]
        elif k < 0.7:
            recs += [op('copy', 0, 2), op('getbc', 0), op('cset', 0, 'A', 3, 5)]
        elif k < 0.85:
            recs += [op('gethalo', 0)]
        recs.append(op('dump', 0))
    return recs


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4', 'a2', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n', 'a3n'])
    exes = ctx.build([(v, 'fm') for v in W])
    sc = []
    from vlib.layouts import LAYOUTS
    for v in W:
        L = [(np, s) for np in LAYOUTS[v[:2]] for s in LAYOUTS[v[:2]][np]]
        for np, s in ctx.rng.sample(L, min(len(L), ctx.pick(5, 40))):
            for t in (ctx.rng.sample(TYPES, 2) if v[0] != 'a' else ctx.rng.sample(TYPES, 3)):
                sc.append(Scenario(v, np, t, s, sweep(ctx.rng, t, s), tag='bc sweep',
                                   env=ctx.rng.choice([{}, dict(HX_LAZY='1')])))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    random_programs(ctx, exes, W, ['bc', 'bc', 'bc', 'mix'], ctx.pick(170, 3000), 60, lazy=0.4)

"""P09: element and bulk access."""
from vlib.fmcheck import *


def sweep(rng, size, nd, vol):
    """every site by itself, boxes, slices, lists with repetitions and in any order"""
    recs = [op('cset', 0, 'A', 1, 0), op('cset', 1, 'A', 2, 3)]
    # all sites in one call, permuted, with other values
    perm = list(range(vol))
    rng.shuffle(perm)
    r = op('setels', 0)
    r.update(ss=perm, vs=[rng.randrange(-999, 999) for _ in perm])
    recs += [r, op('dump', 0), op('getloc', 0)]
    for b in (0, 1):
        r = op('getels', 0, b)
        r.update(ss=rng.sample(perm, vol) + rng.sample(perm, min(vol, 7)))
        recs.append(r)
    r = op('getels', 0, 1)
    r.update(ss=[])
    recs.append(r)
    r = op('setels', 0)
    r.update(ss=[], vs=[])
    recs += [r, op('dump', 0)]
    for _ in range(12):
        lo, hi = [], []
        for m in size:
            a, c = rng.choice([(0, m - 1), tuple(sorted((rng.randrange(m), rng.randrange(m)))), (m - 1, m - 1)])
            lo.append(a)
            hi.append(c)
        recs.append(op('getsub', rng.choice([0, 1]), rng.choice([0, 1]), lo, hi))
    for k in range(nd):
        for x in {0, size[k] - 1, rng.randrange(size[k])}:
            c = [-1] * nd
            c[k] = x
            recs.append(op('getslice', 1, rng.choice([0, 1]), c))
    for s in rng.sample(perm, min(vol, 30)):
        recs.append(op(rng.choice(['setel', 'setelb', 'addel', 'subel']), 1, s, rng.randrange(1, 99)))
        if rng.random() < 0.5:
            recs.append(op(rng.choice(['getel', 'getelb']), 1, s))
        elif rng.random() < 0.5:
            recs.append(op('cp', 2, 'A', 1, rng.choice([1, -1]) * rng.randrange(1, nd + 1)))
            recs.append(op('dump', 2))
    recs += [op('dump', 1), op('getloc', 1), op('gethalo', 1), op('setloc', 1, 3, 1), op('dump', 1), op('gethalo', 1)]
    return recs


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4', 'a2', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3'])
    exes = ctx.build([(v, 'fm') for v in W])
    sc = []
    from vlib.layouts import LAYOUTS
    for v in W:
        L = [(np, s) for np in LAYOUTS[v[:2]] for s in LAYOUTS[v[:2]][np]]
        for np, s in ctx.rng.sample(L, min(len(L), ctx.pick(6, 50))):
            vol = 1
            for m in s:
                vol *= m
            sc.append(Scenario(v, np, ctx.rng.choice(TYPES), s, sweep(ctx.rng, s, len(s), vol), tag='access sweep',
                               env=ctx.rng.choice([{}, dict(HX_LAZY='1')])))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    random_programs(ctx, exes, W, ['elem', 'elem', 'elem', 'mix'], ctx.pick(170, 3000), 60, lazy=0.4)

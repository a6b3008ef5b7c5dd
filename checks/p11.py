"""P11: shifts and offset reads."""
from vlib.fmcheck import *


def sweep(rng, size, nd, many):
    recs = [op('cset', 0, 'A', 3, 5), op('cset', 1, 'A', 1, 7)]
    rngs = [list(range(-n - 1, n + 2)) for n in size]
    vs = [[0] * nd]
    for k in range(nd):
        for x in rng.sample(rngs[k], min(4, len(rngs[k]))):
            v = [0] * nd
            v[k] = x
            vs.append(v)
    for _ in range(many):
        vs.append([rng.choice(q) for q in rngs])
    rng.shuffle(vs)
    for i, v in enumerate(vs):
        if i % 5 == 0:
            recs.append(op('bc', 0, rng.randrange(1, nd + 1), rng.choice([0, 1])))
        P = rng.choice('EOAA')
        if i and rng.random() < 0.3:
            w = list(v)
            w[rng.randrange(nd)] += rng.choice([1, -1])
            z = rng.choice([list(vs[i - 1]), [a + rng.choice([0, 1, -1]) for a in w]])
            recs += [op('cset', 2, 'A', 1, 0), op('off3', 2, P, 0, v, w, z), op('dump', 2)]
        k = rng.choice(['shift', 'shiftp', 'off', 'off', 'off2'])
        if k == 'shift':
            recs.append(op('shift', 2, 0, v))
        elif k == 'off2':
            recs.append(op('cset', 2, 'A', 1, 0))
            recs.append(op('off2', 2, P, 0, v, rng.choice([1, -1]) * rng.randrange(1, nd + 1)))
        else:
            recs.append(op('cset', 2, 'A', 1, 0))
            recs.append(op(k, 2, P, 0, v))
        recs.append(op('dump', 2))
        if rng.random() < 0.2:
            recs.append(op('dump', 0))
        if rng.random() < 0.2:
            recs.append(op('setel', 0, 1, i))
    recs.append(op('dump', 0))
    return recs


def check(ctx):
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n'])
    exes = ctx.build([(v, 'fm') for v in W])
    sc = []
    from vlib.layouts import LAYOUTS
    for v in W:
        L = [(np, s) for np in LAYOUTS[v[:2]] for s in LAYOUTS[v[:2]][np]]
        for np, s in ctx.rng.sample(L, min(len(L), ctx.pick(5, 40))):
            sc.append(Scenario(v, np, ctx.rng.choice(TYPES), s, sweep(ctx.rng, s, len(s), ctx.pick(15, 60)),
                               tag='shift sweep', env=ctx.rng.choice([{}, dict(HX_LAZY='1')])))
    # very many different displacements in one program
    sc.append(Scenario('v2', 2, 'int', (4, 6), sweep(ctx.rng, (14, 16), 2, 160), tag='many shifts'))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    random_programs(ctx, exes, W, ['shift', 'shift', 'shift', 'bc'], ctx.pick(130, 2500), 45, lazy=0.4)

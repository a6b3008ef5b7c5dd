"""P20: random numbers."""
from vlib import rng as R, fmgen


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'o3'])
    exes = ctx.build([(v, 'rng') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(110, 2500)):
        v = rng.choice(W)
        np, size = fmgen.pick(rng, v, None, 70)
        vol = 1
        for s in size:
            vol *= s
        env = {'OMP_NUM_THREADS': rng.choice(['1', '4'])} if v[0] == 'o' else {}
        sc.append(R.Scenario(v, np, '-', size, R.program(rng, vol), env=env))
    n = ctx.pick(25000000, 100000000)
    for t, np in ([('f', 4), ('c', 4), ('v', 4)] * ctx.pick(1, 4)):
        recs = [R.op('seed', rng.choice([7, 11, 13]) + rng.randrange(1000), 0), R.op('mass', t, n)]
        sc.append(R.Scenario('v2', np, '-', (4, 8), recs, tag='mass'))
    recs = [R.op('seed', 99, 0), R.op('mass', 'd', 1000000), R.op('massg', 'g', 1000000), R.op('massg', '2', 1000000),
            R.op('massg', 'f', 1000000)] + [R.op('masss', k, 300000) for k in (2, 3, 4, 5)] + [R.op('orders', 1000)]
    for v, np, size in (('v2', 3, (4, 6)), ('v3', 2, (4, 4, 4)), ('a3', 2, (4, 4, 8))):
        sc.append(R.Scenario(v, np, '-', size, recs, tag='mass'))
    ctx.conform(sc, 'RngTrace', exes, timeout=40)
    ctx.assumptions = ['distribution is only looked at in coarse bins (six standard deviations); the quality of std::mt19937_64 is '
                       'not judged', 'two different 53-bit random numbers are taken to be never equal']

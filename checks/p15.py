"""P15: clusters."""
from vlib import selm, fmgen


def check(ctx):
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'o3'], ['v1', 'v2', 'v3', 'v4', 'o3', 'v3n'])
    exes = ctx.build([(v, 'sel') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(150, 2500)):
        v = rng.choice(W)
        np, size = fmgen.pick(rng, v, None, 130)
        env = {'HX_LAZY': '1'} if rng.random() < 0.2 else {}
        if v[0] == 'o':
            env['OMP_NUM_THREADS'] = rng.choice(['1', '4'])
        sc.append(selm.Scenario(v, np, 'int', size, selm.cluster_program(rng, size, 6), env=env, tag='clusters'))
    ctx.conform(sc, 'SelectTrace', exes, selm.CONST)

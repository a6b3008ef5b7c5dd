"""P22: broadcasts, explicit reductions, sends."""
from vlib import com, fmgen


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'o3'])
    exes = ctx.build([(v, 'com') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(180, 2500)):
        v = rng.choice(W)
        np, size = fmgen.pick(rng, v, rng.choice([None, None] + [n for n in (2, 3, 4, 5, 7, 8) if n in fmgen.LAYOUTS[v[:2]]]), 1000)
        sc.append(com.Scenario(v, np, '-', size, com.program(rng, np, rng.choice([60, 150]))))
    ctx.conform(sc, 'ComTrace', exes, com.CONST)
    ctx.assumptions = ['element types: int, int64, char, float, double, a struct, Complex, Vector, Matrix; sums and products of '
                       'integer values, exact in every order; MPI itself is trusted']

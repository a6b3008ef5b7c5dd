"""P29: SU2, U1, directions, parities and coordinates."""
from vlib import small


def check(ctx):
    W = ctx.pick(['v2', 'v3'], ['v1', 'v2', 'v3', 'v4', 'o3'])
    exes = ctx.build([(v, 'small') for v in W])
    rng = ctx.rng
    sc = [small.scenario(rng, rng.choice(W), rng.choice([60, 120, 200])) for i in range(ctx.pick(100, 2500))]
    ctx.conform(sc, 'SmallTrace', exes)
    ctx.assumptions = ['components are integers below 2^20, or have an exact value after scaling (exponential and logarithm)']

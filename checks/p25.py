"""P25: the algebra of element types."""
from vlib import alg


def check(ctx):
    W = ctx.pick(['v2', 'a3'], ['v2', 'v3', 'v4', 'a3', 'a4'])
    exes = ctx.build([(v, 'alg') for v in W])
    rng = ctx.rng
    sc = [alg.scenario(rng, rng.choice(W), ctx.pick(90, 150), 2) for i in range(ctx.pick(400, 3000))]
    ctx.conform(sc, 'AlgebraTrace', exes)
    ctx.assumptions = ['operands are small integers; inexact results are compared with a tolerance of 1/100 to 1/10000']

"""P08: min, max and their locations: fields of codes of values ordered as the values."""
from vlib import red


def check(ctx):
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n', 'a3n'])
    exes = ctx.build([(v, 'red') for v in W])
    red.random_programs(ctx, exes, W, 'mm', ctx.pick(200, 3000), 60, types=red.ARITH)

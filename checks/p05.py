"""P05: reductions of plain variables: random histories of reduction loops; every rank's view validated."""
from vlib import red
from vlib.red import op, Scenario


def check(ctx):
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n', 'a3n'])
    exes = ctx.build([(v, 'red') for v in W])
    red.random_programs(ctx, exes, W, 'plain', ctx.pick(220, 3000), 80)

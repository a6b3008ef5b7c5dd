"""P06: Reduction<T>: the protocol over ranks model checked (ReductionRanks), its transitions and all short programs
replayed, random programs."""
from vlib import red


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n'])
    exes = ctx.build([(v, 'red') for v in W])
    red.models(ctx)
    conf = [('v2', 2, (4, 4)), ('v3', 3, (2, 4, 6))]
    if ctx.thorough:
        conf += [('a3', 2, (4, 4, 8)), ('v4', 4, (2, 2, 4, 4)), ('o3', 2, (4, 4, 4)), ('v2', 8, (4, 8))]
    red.tours(ctx, exes, conf, 'r')
    red.random_programs(ctx, exes, W, 'r', ctx.pick(150, 2500), 90)

"""P18: command line options and partitions."""
from vlib import cmd

ND = {'v1': 1, 'v2': 2, 'v3': 3, 'v4': 4}


def check(ctx):
    W = ctx.pick(['v2', 'v3'], ['v1', 'v2', 'v3', 'v4'])
    exes = ctx.build([(v, 'cmd') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(200, 3000)):
        v = rng.choice(W)
        sc.append(cmd.plan(rng, v, ND[v], ctx.pick(6, 8)))
    ctx.conform(sc, 'CommandTrace', exes)
    ctx.assumptions = ['the value of a time limit is decided by P21']

"""P16: files of fields and configurations."""
from vlib import io


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a3', 'v4'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'o3'])
    exes = ctx.build([(v, p) for v in W for p in ('io', 'ios')])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(150, 2500)):
        g = io.Gen(rng, W, ctx.pick(70, 130))
        sc.append(g.program(rng.choice([1, 2, 2, 3, 4]), rng.choice([6, 12, 25])))
        sc[-1].prog = rng.choice(['io', 'ios'])
    ctx.conform(sc, 'IoTrace', exes)
    ctx.assumptions = ['files hold the bytes as the machine stores them (little endian); text files: only what the numbers are',
                       'a configuration file that is longer than its header says is not specified']

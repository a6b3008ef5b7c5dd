"""P10: fields behave as values."""
from vlib.fmcheck import *
from vlib.fm import Misuse
from vlib.fmgen import Gen

READS = [lambda g: op('cp', 5, 'A', g, 0), lambda g: op('cp', 5, 'E', g, 1), lambda g: op('copy', 5, g),
         lambda g: op('ctor', 5, g), lambda g: op('plus', 5, g, g), lambda g: op('neg', 5, g),
         lambda g: op('add', 4, 'O', g, 0), lambda g: op('pluseq', 4, g)]


def misuse(rng, v, np, t, size):
    g = Gen(rng, size, t, v, 'value')
    g.program(12)
    g.recs.append(op('set', 4, 'A', 1))
    # a field that is read only after it was cleared, moved away or never assigned
    f = rng.randrange(4)
    k = rng.choice(['del', 'clear', 'move', 'none', 'none'])
    if k == 'move':
        g.recs.append(op('move', (f + 1) % 4, f))
    elif k != 'none':
        g.recs.append(op(k, f))
    g.recs.append(op('dump', 4))
    g.recs.append(rng.choice(READS)(f))
    return Misuse(v, np, t, size, g.recs, tag='misuse')


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3'])
    exes = ctx.build([(v, 'fm') for v in W])
    sc = []
    for k in range(ctx.pick(24, 300)):
        v = ctx.rng.choice(W)
        np, size = fmgen.pick(ctx.rng, v)
        sc.append(misuse(ctx.rng, v, np, ctx.rng.choice(TYPES), size))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    random_programs(ctx, exes, W, ['value', 'value', 'value', 'mix'], ctx.pick(220, 4000), 60, lazy=0.6)

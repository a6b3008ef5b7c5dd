"""P24: multicanonical weights."""
from vlib import muc


def check(ctx):
    exes = ctx.build([('v2', 'muc')])
    rng = ctx.rng
    sc = [muc.scenario(rng, 'v2', rng.choice([10, 25, 50])) for i in range(ctx.pick(150, 3000))]
    ctx.conform(sc, 'MucaTrace', exes)
    ctx.assumptions = ['weights are compared with a tolerance of a few 1/10000, those of the canonical iteration of a few 1/1000']

"""P23: binning of modes and spectral densities."""
from vlib import sd


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4'], ['v1', 'v2', 'v3', 'v4'])
    exes = ctx.build([(v, 'sd') for v in W])
    rng = ctx.rng
    sc = [sd.scenario(rng, rng.choice(W), ctx.pick(72, 120), rng.choice([10, 25, 40]), ctx.pick(20000, 60000))
          for i in range(ctx.pick(120, 1600))]
    ctx.conform(sc, 'SpectralTrace', exes)
    ctx.assumptions = ['powers are compared to about one percent of the power of a mode']

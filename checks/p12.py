"""P12: Fourier transforms and reflections."""
from vlib import fft

CFG = """SPECIFICATION Spec
CONSTANTS
  K = %d
  DEPTH = %d
INVARIANTS Agree Involution RealTransform
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4'], ['v1', 'v2', 'v3', 'v4'])
    exes = ctx.build([(v, 'fft') for v in W])
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(100, 1600)):
        v = rng.choice(W)
        sc.append(fft.scenario(rng, v, ctx.pick(72, 150), rng.choice([3, 8, 15]), ctx.pick(60000, 150000)))
    for k in ctx.pick([1, 2], [1, 2, 3, 4, 5, 6]):
        ctx.model('FourierMC', CFG % (k, ctx.pick(2, 3)), 'transforms on lattice %d of its list' % k)
    ctx.conform(sc, 'FourierTrace', exes)
    ctx.assumptions = ['values are compared with a tolerance far below the smallest difference a wrong sum makes']

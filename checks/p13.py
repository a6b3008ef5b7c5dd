"""P13: lattice levels: blocking and unblocking."""
from vlib import lay, fmgen
from vlib.lay import op


def programs(ctx, exes, W, count, steps):
    rng = ctx.rng
    sc = []
    for i in range(count):
        v = rng.choice(W)
        np, size = fmgen.pick(rng, v, None, 200)
        env = {'HX_LAZY': '1'} if rng.random() < 0.3 else {}
        if v[0] == 'o':
            env['OMP_NUM_THREADS'] = rng.choice(['1', '3'])
        sc.append(lay.Scenario(v, np, rng.choice(lay.TYPES), size, lay.program(rng, size, steps), env=env, tag='levels'))
    ctx.conform(sc, 'LayoutTrace', exes, lay.const('v'))


def check(ctx):
    W = ctx.pick(['v1', 'v2', 'v3', 'v4', 'o3'], ['v1', 'v2', 'v3', 'v4', 'o3', 'v3n'])
    exes = ctx.build([(v, 'lay') for v in W + ['a3']])
    programs(ctx, exes, W, ctx.pick(130, 4000), 60)
    # the vector layout refuses to block
    sc = []
    for np, size in [(1, (4, 4, 8)), (2, (8, 8, 4))]:
        for tail in ([op('block', [2, 2, 2])], [op('block', [1, 1, 2])], [op('unblock')]):
            sc.append(lay.Scenario('a3', np, 'int', size, [op('canblock', [2, 2, 2]), op('size'), op('fset', 0, 'A', 1, 0),
                                                           op('fdump', 0)] + tail, tag='vector'))
    ctx.conform(sc, 'LayoutTrace', exes, lay.const('a'))

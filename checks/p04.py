"""P04: site loops mean what they say: random loop bodies through hilapp and the compiler, against their syntax trees."""
from vlib import loops, fmgen, run


def scenarios(ctx, rng, variants, progs, per, steps, maxvol=100):
    sc = []
    for v in variants:
        for p in progs:
            for i in range(per):
                typ = rng.choice(['int', 'dbl', 'flt'])
                np, size = fmgen.pick(rng, v, None, maxvol)
                env = {'HX_LAZY': '1'} if rng.random() < 0.2 else {}
                if v[0] == 'o':
                    env['OMP_NUM_THREADS'] = rng.choice(['1', '3', '4'])
                sc.append(loops.Scenario(p, v, np, typ, size, loops.program(rng, p, v, typ, size, steps), env=env, tag=p))
    return sc


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'a2', 'a3', 'o3'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n', 'a3n'])
    seeds = ctx.pick([ctx.seed], [ctx.seed * 100 + i for i in range(8)])
    n = ctx.pick(40, 60)
    for s in seeds:
        progs = ['lp-%d-%d' % (s, n)]
        exes = ctx.build([(v, p) for v in W for p in progs])
        ctx.conform(scenarios(ctx, ctx.rng, W, progs, ctx.pick(14, 60), 20), 'LoopTrace', exes, 'CONSTANT NF = 4\n')
        if len(ctx.violations) >= 2:
            break

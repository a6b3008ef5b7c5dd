"""Shared parts of the checks that use the field machine."""
from . import fmgen
from .fm import op, Scenario
from .fmgen import TYPES, CONST


def random_programs(ctx, exes, variants, profs, count, steps=60, lazy=0.5, types=TYPES, nps=None, maxvol=200):
    sc = []
    for _ in range(count):
        v = ctx.rng.choice(variants)
        np, size = fmgen.pick(ctx.rng, v, ctx.rng.choice(nps) if nps else None, maxvol)
        env = {}
        if ctx.rng.random() < lazy:
            env['HX_LAZY'] = '1'
        if v[0] == 'o':
            env['OMP_NUM_THREADS'] = ctx.rng.choice(['1', '3'])
        prof = ctx.rng.choice(profs)
        sc.append(fmgen.scenario(ctx.rng, v, np, ctx.rng.choice(types), size, prof, steps, env=env, tag=prof))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    return sc


def variants(ctx, quick, thorough):
    return ctx.pick(quick, thorough)

"""P01: neighbour reads deliver current values.

 1. HaloGather: the gather protocol, model checked.
 2. HaloTour: all transitions of its bookkeeping, and all short programs, replayed on the real code.
 3. random programs of the field machine under adversarial message timing."""
import re
from vlib import tlc, fmgen
from vlib.fmcheck import *

HG = 'CONSTANTS N = %d\n MaxOps = %d\n Fault = "%s"\nSPECIFICATION Spec\n' \
     'INVARIANT Correct StatusHonest NoDeadlock\nCHECK_DEADLOCK FALSE\n'


def histories(full, n):
    r = tlc.run('HaloTour', 'CONSTANTS MaxOps = %d\n Full = %s\nINIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
                % (n, 'TRUE' if full else 'FALSE'))
    if not r.ok:
        raise tlc.TLCError('HaloTour: ' + r.out[-2000:])
    hs = []
    for l in re.findall(r'<<"TOUR", (.*)>>$', r.out.replace('\n ', ' '), re.M):
        hs.append(re.findall(r'<<"([WSR])", "([EOA])">>', l))
    return hs


def replay_script(rng, hs, nd, dirs):
    """fields 0 (under test) and 1 (what was read); every history starts from a fresh field 0"""
    recs = []
    n = 0
    for h in hs:
        n += 1
        d = rng.choice(dirs)
        recs.append(op('cset', 0, 'A', 3, n))
        for o, q in h:
            n += 1
            if o == 'W':
                if rng.random() < 0.25 and q != 'A':
                    # a single element changes its parity, too
                    recs.append(op('setel', 0, 0 if q == 'E' else 1, n))
                else:
                    recs.append(op('cset', 0, q, rng.choice([1, 2, 3]), 7 * n % 1000))
            elif o == 'S':
                recs.append(op('gat', 0, d, q))
            elif rng.random() < 0.3:
                recs.append(op('gwait', 0, d, q))
                recs.append(op('cp', 1, q, 0, d))
            else:
                recs.append(op('cp', 1, q, 0, d))
        recs.append(op('cp', 1, 'A', 0, d) if rng.random() < 0.5 else op('cp', 1, 'E', 0, d))
        recs.append(op('cp', 1, 'O', 0, d))
        recs.append(op('dump', 1))
    return recs


def check(ctx):
    W = ctx.pick(['v2', 'v3', 'v4', 'a3', 'v3n'], ['v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3', 'v3n', 'a3n'])
    exes = ctx.build([(v, 'fm') for v in W])
    ctx.model('LatticeMC', 'CONSTANTS MaxLen = %d\nMaxDim = 3\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
              % ctx.pick(4, 6), 'geometry facts for all sizes')
    for n, m in ctx.pick([(2, 4), (3, 3)], [(2, 5), (3, 4), (4, 3)]):
        ctx.model('HaloGather', HG % (n, m, 'none'), 'gather protocol, %d ranks, all programs of %d operations' % (n, m))
    if ctx.thorough:
        for f in ('nodrop', 'dropsame', 'keepall', 'nowait'):
            r = tlc.run('HaloGather', HG % (2, 4, f), workers=8)
            if not r.violated:
                raise tlc.TLCError('the deliberately broken protocol %s is not found to be broken' % f)
    tour = histories(False, 6)
    full = histories(True, ctx.pick(2, 3))
    ctx.cov['tour'] = '%d transitions of the gather bookkeeping, %d short programs' % (len(tour), len(full))
    sc = []
    conf = ctx.pick([('v2', 2, (4, 4)), ('v2', 4, (4, 6)), ('v3', 3, (2, 4, 6)), ('a3', 2, (4, 4, 8)), ('v2', 2, (3, 7)),
                     ('v3n', 2, (4, 2, 4))],
                    [('v1', 3, (12,)), ('v2', 2, (4, 4)), ('v2', 4, (4, 6)), ('v2', 5, (3, 7)), ('v3', 3, (2, 4, 6)),
                     ('v3', 8, (4, 4, 4)), ('v4', 2, (4, 2, 4, 2)), ('a2', 4, (8, 8)), ('a3', 2, (4, 4, 8)),
                     ('a3n', 4, (4, 4, 8)), ('a4', 2, (4, 4, 4, 4)), ('v2', 2, (3, 7)), ('v3n', 2, (4, 2, 4)),
                     ('o3', 3, (4, 4, 4))])
    for v, np, size in conf:
        nd = len(size)
        for hs in [tour] + [full[k::4] for k in range(4)]:
            t = ctx.rng.choice(TYPES)
            dirs = [d for k in range(1, nd + 1) for d in (k, -k)]
            hs = list(hs)
            ctx.rng.shuffle(hs)
            if v[0] == 'a' and not ctx.thorough:
                hs = hs[:40]
            odd = any(s % 2 for s in size)
            sc.append(Scenario(v, np, t, size, replay_script(ctx.rng, hs, nd, dirs), env=dict(HX_LAZY='1'), tag='tour'))
    ctx.conform(sc, 'FieldTrace', exes, CONST)
    random_programs(ctx, exes, W, ['halo', 'halo', 'mix', 'bc'], ctx.pick(160, 3000), 70, lazy=0.7)
    ctx.assumptions = ['message timing is varied by a profiling-interface library that delivers as late as MPI permits',
                       'element types are represented by int, double, float, int64, Complex<double>, Vector<3,float>, '
                       'Matrix<2,2,Complex<double>>']

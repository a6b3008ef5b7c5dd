"""P19: the memory pool: its block list model checked against the pool machine, all short programs and random ones
replayed on the real code."""
from vlib import pool, tlc
from vlib.pool import op, Scenario

CFG = 'CONSTANTS MinSize = 2\n Handles = {1,2,3}\n Sizes = {1,2,3,4,5}\n MaxBlocks = 4\n MaxOps = %d\n Fault = "%s"\n' \
      'INIT LInit\nNEXT LNext\nINVARIANT LInv\nVIEW LView\nCHECK_DEADLOCK FALSE\n'


def check(ctx):
    W = ctx.pick(['v2', 'a3'], ['v1', 'v2', 'v3', 'v4', 'a3', 'o3'])
    exes = ctx.build([(v, 'pool') for v in W])
    ctx.model('PoolList', CFG % (ctx.pick(7, 9), 'none'), 'block list against the pool, three handles, five sizes, %d operations' % ctx.pick(7, 9))
    if ctx.thorough:
        r = tlc.run('PoolList', CFG % (7, 'nofirst'), workers=8)
        if not r.violated:
            raise tlc.TLCError('the deliberately broken list is not found to be broken')
    rng = ctx.rng
    sc = []
    size = {'v1': (8,), 'v2': (4, 4), 'v3': (4, 4, 4), 'v4': (2, 2, 2, 2), 'a3': (4, 4, 8), 'o3': (4, 4, 4)}
    progs = list(pool.enumerate_programs([128, 129, 256], 3, ctx.pick(6, 7)))
    ctx.cov['short_programs'] = len(progs)
    rng.shuffle(progs)
    if not ctx.thorough:
        progs = progs[:20000]
    n = 600
    for i in range(0, len(progs), n):
        recs = []
        for p in progs[i:i + n]:
            recs += [op('new', 0)] + p + [op('check')]
        v = W[i // n % len(W)]
        sc.append(Scenario(v, 1, '-', size[v], recs, tag='all'))
    for i in range(ctx.pick(40, 600)):
        v = rng.choice(W)
        recs = []
        for _ in range(rng.choice([1, 3, 8])):
            q, live = pool.random_program(rng, rng.choice([30, 100, 250]))
            recs += q
        z = rng.random()
        if z < 0.15:
            recs.append(op('badfree', -1))
        elif z < 0.3:
            free = [r['h'] for r in recs if r['op'] == 'alloc' and r['h'] not in live]
            # a block still held by the pool: allocate, free, free again
            recs += [op('purge'), op('alloc', 90, 5000), op('free', 90), op('badfree', 90)]
        sc.append(Scenario(v, 1, '-', size[v], recs, tag='random'))
    ctx.conform(sc, 'PoolTrace', exes, pool.CONST)
    ctx.assumptions = ['the pool is used as the library does: every handle frees its block at most once']

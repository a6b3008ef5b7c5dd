"""The machine of the memory pool: harness pool, trace specification PoolTrace."""
from . import machine

SIG = {'new': 's', 'alloc': 'h size', 'free': 'h', 'purge': '', 'stat': '', 'check': '', 'badfree': 'h'}
PM = machine.Machine('pool', SIG, {'alloc', 'free', 'purge', 'stat', 'check', 'badfree'},
                     stops={'badfree': r'Memory free error'})
op = PM.op
CONST = 'CONSTANT MinSize = 128\n'


class Scenario(machine.Scenario):
    M = PM


def enumerate_programs(sizes, handles, n):
    """all programs of n allocations, frees and purges (handles introduced in order, no purge twice)"""
    def rec(prog, live, used, k):
        if k == 0:
            yield prog
            return
        for h in range(min(handles, used + 1)):
            if h not in live:
                for s in sizes:
                    yield from rec(prog + [op('alloc', h, s)], live | {h}, max(used, h + 1), k - 1)
        for h in sorted(live):
            yield from rec(prog + [op('free', h)], live - {h}, used, k - 1)
        if prog and prog[-1]['op'] != 'purge':
            yield from rec(prog + [op('purge')], live, used, k - 1)
    yield from rec([], frozenset(), 0, n)


SZ = [1, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 4096, 70000, 200000]


def random_program(rng, steps):
    recs = [op('new', int(rng.random() < 0.2))]
    live = set()
    nh = rng.choice([2, 3, 5, 12, 40])
    sizes = rng.choice([SZ[:12], [128, 129, 255, 256], [rng.choice(SZ) for _ in range(3)], SZ])
    p = rng.choice([0.4, 0.5, 0.6])
    while len(recs) < steps:
        z = rng.random()
        if z < 0.05:
            recs.append(op('purge'))
        elif z < 0.1:
            recs.append(op('stat'))
        elif z < 0.17:
            recs.append(op('check'))
        elif z < 0.19:
            for h in rng.sample(sorted(live), len(live)):       # all, in some order
                recs.append(op('free', h))
            live.clear()
        elif rng.random() < p and len(live) < nh:
            h = rng.choice([x for x in range(nh) if x not in live])
            recs.append(op('alloc', h, rng.choice(sizes) if rng.random() < 0.9 else rng.randrange(1, 3000)))
            live.add(h)
        elif live:
            h = rng.choice(sorted(live))
            recs.append(op('free', h))
            live.discard(h)
    recs += [op('check'), op('stat')]
    return recs, live

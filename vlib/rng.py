"""The machine of the random numbers: harness rng, trace specification RngTrace."""
from . import machine

SIG = {'seed': 's o', 'is': '', 'u': 'n', 'g': 'n', 'g2': 'n', 'zc': '', 'lu': 'p', 'lc': 'p', 'lv': 'p', 'lg': 'p', 'lgc': 'p',
       'lh': '', 'lf': '', 'lfg': '', 'sh': 'n', 'sha': '', 'sdp': '', 'sd': '', 'sp': '', 'mass': 't n', 'massg': 't n',
       'masss': 'n k', 'orders': 'k'}
OBS = set(SIG) - {'seed'}
NOSEED = r'without initializing the generator'
RM = machine.Machine('rng', SIG, OBS, OBS - {'is', 'orders'}, stops={k: NOSEED for k in ('lu', 'lc', 'lv', 'lg', 'lgc')})
op = RM.op
SEEDS = [1, 2, 3, 5, 17, 12345, 2 ** 31 - 1]


class Scenario(machine.Restarted):
    M = RM

    def start(self):
        return dict(op='start', np=self.np, nd=len(self.size), sz=list(self.size))


def draw(rng, vol):
    z = rng.random()
    if z < 0.3:
        return op(rng.choice(['u', 'g', 'g2', 'g']), rng.choice([1, 1, 2, 3, 5]))
    if z < 0.4:
        return op('zc')
    if z < 0.62:
        return op(rng.choice(['lu', 'lc', 'lv', 'lg', 'lgc']), rng.randrange(3))
    if z < 0.72:
        return op(rng.choice(['lh', 'lf', 'lfg']))
    if z < 0.8:
        return op('sh', rng.choice([1, 2, 3, 8, 20]))
    return op(rng.choice(['sha', 'sdp', 'sd', 'sp']))


def program(rng, vol):
    recs = []
    if rng.random() < 0.3:
        recs.append(op('is'))
    seeds = rng.sample(SEEDS, 2)
    progs = []
    for _ in range(rng.choice([2, 3])):
        if progs and rng.random() < 0.7:
            s, d = rng.choice(progs)
            d = list(d)
            z = rng.random()
            if z < 0.3:
                d = d[:rng.randrange(len(d) + 1)]
            elif z < 0.6:
                d = d + [draw(rng, vol)]
            elif z < 0.75:
                s = [x for x in seeds if x != s][0]
        else:
            s = rng.choice(seeds + [0] * (rng.random() < 0.2))
            d = [draw(rng, vol) for _ in range(rng.choice([1, 2, 4, 8]))]
        progs.append((s, d))
    for k, (s, d) in enumerate(progs):
        if k and rng.random() < 0.4:
            recs.append(dict(op='restart'))
        recs += [op('seed', s, int(s != 0 and rng.random() < 0.15))] + d
        if rng.random() < 0.3:
            recs.append(op('is'))
    if rng.random() < 0.12:
        recs += [dict(op='restart'), op('is'), op(rng.choice(['lu', 'lc', 'lv', 'lg', 'lgc']), rng.randrange(3))]
    return recs

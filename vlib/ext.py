"""The machine of extended precision numbers: harness ext, trace specification ExtendedTrace."""
from . import machine
from .layouts import LAYOUTS

VAL = 'k s v t l'
SIG = {o: VAL for o in ('set', 'add', 'sub', 'radd', 'ladd', 'rsub', 'lsub', 'rcmp', 'lcmp')}
SIG.update({'mul': 'k v t l', 'rmul': 'k v t l', 'lmul': 'k v t l', 'addr': 'k l', 'subr': 'k l', 'copy': 'k l', 'neg': 'k l', 'pos': 'k l',
            'sum': 'k l m', 'dif': 'k l m', 'cmp': 'k l', 'show': 'k', 'dbl': 'k', 'fill': 'f s t seed', 'loop': 'k f P',
            'two': 'k l f h P', 'flt': 'k v P', 'node': 'k s v all', 'nodes': 'k l'})
OBS = {'rcmp', 'lcmp', 'cmp', 'show', 'dbl'}
EX = machine.Machine('ext', SIG, OBS, OBS)
op = EX.op
NR = 6
LIM = 1 << 21


class Scenario(machine.Scenario):
    M = EX

    def start(self):
        return dict(op='start', sz=list(self.size), np=self.np)


def value(rng, unit):
    """scale, number and type"""
    t = rng.choice('dddefiiulmsc' if unit == 0 else 'ddef')
    s = rng.choice([0, 1, 2]) if t in 'def' else rng.choice([1, 2, 2]) if t in 'lm' else 2
    v = rng.choice([0, 1, -1, rng.randrange(-9, 10), rng.randrange(-1000, 1001)])
    if t in 'umc':
        v = abs(v)
    if t == 'c':
        v %= 256
    return s, v, t


def program(rng, np, vol, unit, n):
    """what is asked for must stay within the exact range: b bounds the parts of the registers"""
    b = [0] * NR
    fb = {}
    recs = []

    def room(k, new):
        return new <= LIM

    def put(k, new, *o):
        if new > LIM:
            recs.append(op('set', k, rng.randrange(3), rng.randrange(-9, 10), 'd', 0))
            b[k] = 9
        else:
            recs.append(op(*o))
            b[k] = new
    while len(recs) < n:
        k, l, m = (rng.randrange(NR) for _ in range(3))
        z = rng.random()
        P = rng.choice('AAEO')
        s, v, t = value(rng, unit)
        if z < 0.3:
            o = rng.choice(['set', 'add', 'add', 'sub', 'sub', 'radd', 'ladd', 'rsub', 'lsub'])
            put(k, abs(v) + (b[k] if o in ('add', 'sub') else 0 if o == 'set' else b[l]), o, k, s, v, t, l)
        elif z < 0.4:
            o = rng.choice(['rcmp', 'lcmp'])
            if rng.random() < 0.4:      # the difference is small
                recs.append(op('set', k, s, v, 'd', 0))
                b[k] = abs(v)
                if rng.random() < 0.7:
                    recs.append(op('add', k, rng.randrange(3), rng.choice([0, 1, -1]), 'd', 0))
                    b[k] += 1
            recs.append(op(o, k, s, v, t, 0))
        elif z < 0.5:
            o = rng.choice(['mul', 'rmul', 'lmul'])
            t = rng.choice('iiulm')
            v = rng.choice([0, 1, -1, 2, -2, 3, 5, 6, 7, -7, 8, 11, 12, 15, 16, 17, 31, 100, -127, 255, 1023, rng.randrange(-2000, 2001)])
            if t in 'um':
                v = abs(v)
            put(k, abs(v) * (b[k] if o == 'mul' else b[l]), o, k, v, t, l)
        elif z < 0.62:
            o = rng.choice(['addr', 'subr', 'copy', 'neg', 'pos'])
            put(k, b[l] + (b[k] if o in ('addr', 'subr') else 0), o, k, l)
        elif z < 0.7:
            put(k, b[l] + b[m], rng.choice(['sum', 'dif']), k, l, m)
        elif z < 0.76:
            if rng.random() < 0.5:
                recs.append(op('copy', k, l))
                b[k] = b[l]
                if rng.random() < 0.7:
                    put(k, b[k] + 1, 'add', k, rng.randrange(3), rng.choice([1, -1]), 'd', 0)
            recs.append(op('cmp', k, l))
        elif z < 0.8:
            recs.append(op('dbl', k))
        elif z < 0.9:
            f, h = rng.randrange(3), rng.randrange(3)
            for q in {f, h}:
                if q not in fb or rng.random() < 0.3:
                    recs.append(op('fill', q, rng.randrange(3), rng.randrange(3), rng.randrange(100)))
                    fb[q] = 11 * vol
            if rng.random() < 0.5:
                put(k, b[k] + fb[f], 'loop', k, f, P)
            elif k != l and b[l] + fb[f] + fb[h] <= LIM and b[k] + fb[f] <= LIM:
                recs.append(op('two', k, l, f, h, P))
                b[k] += fb[f]
                b[l] += fb[f] + fb[h]
        elif z < 0.93:
            v = rng.randrange(-50, 51)
            put(k, b[k] + 3 * abs(v) * vol, 'flt', k, v, P)
        elif z < 0.96:
            v = rng.randrange(-50, 51)
            put(k, b[k] * np + abs(v) * np * np, 'node', k, rng.randrange(3), v, rng.choice([0, 1]))
        elif k != l and max(b[k], b[l]) * np <= LIM:
            recs.append(op('nodes', k, l))
            b[k] *= np
            b[l] *= np
        if rng.random() < 0.4:
            recs.append(op('show', k))
    recs += [op('show', k) for k in range(NR)]
    return recs


def scenario(rng, v, n):
    np = rng.choice(list(LAYOUTS[v]))
    size = rng.choice(LAYOUTS[v][np])
    vol = 1
    for x in size:
        vol *= x
    unit = rng.choice([0, 0, -40])
    return Scenario(v, np, str(unit), size, program(rng, np, vol, unit, n))

"""The machine of SU2, U1, directions and coordinates: harness small, trace specification SmallTrace."""
from . import machine
from .layouts import LAYOUTS

SIG = {'qset': 'P k a b c d how', 'qq': 'P k l m how', 'qs': 'P k l s how', 'qnum': 'P k l how', 'qsee': 'P k', 'qmat': 'P k i j',
       'qpro': 'P k l m', 'qprj': 'P k s i j', 'qvec': 'P k x y z v side i', 'qnor': 'P k l s i', 'qrnd': 'P how', 'aset': 'P k a b c how',
       'aa': 'P k l m how', 'as': 'P k l s how', 'anum': 'P k l how', 'asee': 'P k', 'pro': 'P k l s', 'xpd': 'P k l s',
       'con': 'P k l side a b c d', 'exp': 'P how n m x y z', 'log': 'P how j x y z', 'uset': 'P k n how', 'uu': 'P k l m how',
       'unum': 'P k how x y', 'dir': 'd1 d2 i c m', 'par': 'P'}
OBS = {'qnum', 'qsee', 'qmat', 'qvec', 'qnor', 'qrnd', 'anum', 'asee', 'exp', 'log', 'unum', 'dir', 'par'}
SM = machine.Machine('small', SIG, OBS, OBS)
op = SM.op
LIM = 1 << 20
AXES = [(5, 0, 0), (0, 5, 0), (0, 0, 5), (3, 4, 0), (0, -3, 4), (-4, 0, 3), (0, 4, 3), (-5, 0, 0), (3, 0, -4)]


class Scenario(machine.Scenario):
    M = SM

    def start(self):
        return dict(op='start', sz=list(self.size), np=self.np)


def program(rng, dim, n):
    b, ab = [0] * 4, [0] * 3       # bounds of components
    recs = []

    def num():
        return rng.choice([0, 1, -1, rng.randrange(-9, 10), rng.randrange(-9, 10), rng.randrange(-60, 61)])

    def qset(k):
        v = [num() for _ in range(4)]
        recs.append(op('qset', 'A', k, *v, rng.choice([0, 1, 2, 4, 5])))
        b[k] = 60

    def aset(k):
        recs.append(op('aset', 'A', k, num(), num(), num(), rng.choice([0, 1, 3])))
        ab[k] = 60
    for k in range(4):
        qset(k)
    for k in range(3):
        aset(k)
        recs.append(op('uset', 'A', k, rng.randrange(-1, 3), rng.randrange(3)))
    while len(recs) < n:
        P = rng.choice('AAEO')
        k, l, m = (rng.randrange(4) for _ in range(3))
        z = rng.random()
        see = False
        if z < 0.06:
            recs.append(op('qset', P, k, num(), num(), num(), num(), rng.randrange(7)))
            b[k] = max(b[k], 60)
        elif z < 0.25:
            how = rng.randrange(11)
            new = {0: b[l] + b[m], 1: b[l] + b[m], 8: b[k] + b[l], 9: b[k] + b[l], 6: b[l], 7: b[l], 10: b[l]}.get(how, 4 * b[l] * b[m])
            if new > LIM:
                qset(rng.choice([l, m]))
                continue
            recs.append(op('qq', P, k, l, m, how))
            b[k] = max(b[k], new)
            see = True
        elif z < 0.36:
            how = rng.randrange(11)
            s = rng.choice([1, -1, 2, -3, 4, 5, -8, 7])
            src = b[k] if how >= 7 else b[l]
            if src * 8 + 8 > LIM:
                qset(k)
                continue
            recs.append(op('qs', P, k, l, s, how))
            b[k] = max(b[k], src if how in (6, 10) else src * 8 if how in (4, 5, 9) else src + 8)
            see = True
        elif z < 0.45:
            how = rng.randrange(7)
            x = b[k] * max(b[k], b[l]) * 8 if how in (1, 2, 3, 5, 6) else b[k]
            if x > (1 << 22):
                qset(k)
                qset(l)
            recs.append(op('qnum', 'A', k, l, how))
        elif z < 0.5:
            recs.append(op('qmat', 'A', k, rng.randrange(2), rng.randrange(2)))
        elif z < 0.53:
            if 4 * b[l] * b[m] <= LIM:
                recs.append(op('qpro', P, k, l, m))
                b[k] = max(b[k], 4 * b[l] * b[m])
                see = True
        elif z < 0.56:
            i, j = rng.choice([(0, 1), (0, 2), (1, 2), (2, 0), (1, 0)])
            recs.append(op('qprj', P, k, rng.randrange(1, 77), i, j))
            b[k] = max(b[k], 20)
            see = True
        elif z < 0.6:
            if b[k] * 40 <= LIM:
                recs.append(op('qvec', 'A', k, *[rng.randrange(-9, 10) for _ in range(4)], rng.randrange(2), rng.randrange(2)))
        elif z < 0.62:
            recs.append(op('qset', 'A', k, 1, 2, 3, 4, 0))
            b[k] = 60
            recs.append(op('qnor', P, k, rng.randrange(1, 4), rng.choice([1, 2, -3, 7, -1, 100]), rng.randrange(4)))
        elif z < 0.625:
            recs.append(op('qrnd', 'A', rng.randrange(2)))
        elif z < 0.7:
            k, l, m = (rng.randrange(3) for _ in range(3))
            if rng.random() < 0.2:
                recs.append(op('aset', P, k, num(), num(), num(), rng.randrange(5)))
                ab[k] = max(ab[k], 60)
            else:
                how = rng.randrange(6)
                new = {0: ab[l] + ab[m], 1: ab[l] + ab[m], 4: ab[k] + ab[l], 5: ab[k] + ab[l]}.get(how, ab[l])
                if new > LIM:
                    aset(l)
                    continue
                recs.append(op('aa', P, k, l, m, how))
                ab[k] = max(ab[k], new)
            if rng.random() < 0.5:
                recs.append(op('asee', 'A', k))
        elif z < 0.75:
            k, l = rng.randrange(3), rng.randrange(3)
            if max(ab[k], ab[l]) * 8 > LIM:
                aset(k)
                aset(l)
            how = rng.randrange(5)
            recs.append(op('as', P, k, l, rng.choice([1, -1, 2, -3, 5, 8]), how))
            ab[k] = max(ab[k], ab[l], 8 * (ab[l] if how < 2 else ab[k] if how == 3 else 0))
            if rng.random() < 0.5:
                recs.append(op('asee', 'A', k))
        elif z < 0.78:
            k, l = rng.randrange(3), rng.randrange(3)
            if max(ab[k], ab[l]) > 400:
                aset(k)
                aset(l)
            recs.append(op('anum', 'A', k, l, rng.randrange(4) if ab[k] > 60 else rng.randrange(5)))
        elif z < 0.82:
            k = rng.randrange(3)
            s = rng.choice([1, 1, 2, -1, 3])
            if b[l] * 6 <= LIM:
                recs.append(op('pro', P, k, l, s))
                ab[k] = max(ab[k], 6 * b[l])
                recs.append(op('asee', 'A', k))
        elif z < 0.85:
            l = rng.randrange(3)
            if ab[l] * 3 <= LIM:
                recs.append(op('xpd', P, k, l, rng.choice([1, -1, 2, 3])))
                b[k] = max(b[k], 3 * ab[l])
                see = True
        elif z < 0.88:
            k, l = rng.randrange(3), rng.randrange(3)
            u = [0] * 4
            u[rng.randrange(4)] = rng.choice([1, -1])
            recs.append(op('con', P, k, l, rng.randrange(2), *u))
            ab[k] = max(ab[k], ab[l])
            recs.append(op('asee', 'A', k))
        elif z < 0.9:
            recs.append(op('exp', 'A', rng.randrange(5), rng.randrange(-3, 6), rng.choice([1, 2, 3, 7]), *rng.choice(AXES)))
        elif z < 0.92:
            recs.append(op('log', 'A', rng.randrange(2), rng.randrange(1, 12), *rng.choice(AXES)))
        elif z < 0.96:
            k, l, m = (rng.randrange(3) for _ in range(3))
            if rng.random() < 0.3:
                recs.append(op('uset', P, k, rng.randrange(-1, 3), rng.randrange(3)))
            else:
                recs.append(op('uu', P, k, l, m, rng.randrange(7)))
            recs.append(op('unum', 'A', k, rng.randrange(5), rng.randrange(-9, 10), rng.randrange(-9, 10)))
        elif z < 0.97:
            recs.append(op('par', P))
        else:
            dirs = [d for d in range(-dim, dim + 1) if d]
            c = [rng.choice([0, 0, 1, -1, rng.randrange(-12, 13)]) for _ in range(dim)]
            if rng.random() < 0.3:
                c = [0] * dim
                c[rng.randrange(dim)] = rng.choice([1, -1])
            m = list(c) if rng.random() < 0.1 and min(c) > 0 else [rng.randrange(1, 7) for _ in range(dim)]
            recs.append(op('dir', rng.choice(dirs), rng.choice(dirs), rng.randrange(-7, 8), c, m))
        if see and rng.random() < 0.6:
            recs.append(op('qsee', 'A', k))
    recs += [op('qsee', 'A', k) for k in range(4)] + [op('asee', 'A', k) for k in range(3)]
    return recs


def scenario(rng, v, n):
    np = rng.choice([x for x in LAYOUTS[v] if x <= 4])
    size = rng.choice(LAYOUTS[v][np])
    return Scenario(v, np, rng.choice('df'), size, program(rng, len(size), n))

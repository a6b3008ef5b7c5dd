"""The machine of spectral binning: harness sd, trace specification SpectralTrace."""
import math
from fractions import Fraction as F
from . import machine, fmgen

SIG = {'new': 'b n', 'copy': 'b j', 'bins': 'b n', 'kmax': 'b x y', 'width': 'b x y', 'power': 'b p', 'show': 'b', 'counts': 'b',
       'count': 'b i', 'avg': 'b i', 'limits': 'b i', 'modes': 'b', 'set': 'b t k seed', 'bin': 'b t k', 'sqn': 'b t k', 'sd': 'b t k'}
SD = machine.Machine('sd', SIG, {'show', 'counts', 'count', 'avg', 'limits', 'modes', 'bin', 'sqn', 'sd'},
                     {'show', 'counts', 'count', 'avg', 'limits'})
op = SD.op
COST = dict(z=1, c=1, v=2, d=1, f=1, w=3, r=2)
LIM = 2**31 - 1


class Scenario(machine.Scenario):
    M = SD


def pow2(n):
    return n & (n - 1) == 0


class Bin:
    def __init__(self, size, n=0):
        self.size = size
        self.n = n or max([1] + [L // 2 for L in size])
        self.set = n > 0
        self.mx, self.wd, self.pw, self.plain = F(1), F(1, self.n), 2, True
        self.learnt = False

    def copy(self):
        b = Bin(self.size)
        b.__dict__.update(self.__dict__)
        return b

    def fits(self):
        """the specification stays within its integers, and no mode is ambiguous or [the ambiguous ones]"""
        M = math.lcm(*self.size)
        amb = False
        if self.n > 40 or self.mx.numerator > 40 or self.mx.denominator > 200:
            return None
        for c in modes(self.size):
            q = sum((F(2 * x, L))**2 for x, L in zip(c, self.size))
            Q = q * M * M
            if Q * self.mx.denominator**2 > LIM or M * M * self.mx.numerator**2 > LIM:
                return None
            r = q / self.mx**2
            u, v = r.numerator, r.denominator
            n = self.n
            p = {2: 2, 4: 1, 1: 4}[self.pw]
            if u * n**p > LIM or v * n**p > LIM:
                return None
            # r * n^p = i^p for some 1 <= i <= n
            w = r * n**p
            if q != 0 and w.denominator == 1:
                i = round(w.numerator**(1.0 / p))
                if i**p == w.numerator and 1 <= i <= n:
                    nz = [d for d in range(len(c)) if c[d]]
                    exact = self.plain and self.pw != 1 and pow2(self.mx.numerator) and pow2(self.mx.denominator) and \
                        len(nz) == 1 and pow2(self.size[nz[0]])
                    amb = amb or not exact
        return [amb]


def modes(size):
    r = [()]
    for L in size:
        r = [c + (x - L if x > L // 2 else x,) for c in r for x in range(L)]
    return r


def ceil_safe(r, *parts):
    return r.denominator != 1 or all(pow2(p.numerator) and pow2(p.denominator) for p in parts)


def plan(rng, size, steps, budget):
    vol = math.prod(size)
    recs = []
    bs = {k: Bin(size) for k in range(3)}
    have = set()
    left = [budget]

    def change(k):
        """one change of the parameters, kept if the specification can handle it"""
        for _ in range(20):
            b = bs[k].copy()
            b.learnt = False
            z = rng.random()
            if z < 0.15:
                n = rng.choice([0, 0, 1, 2, 3, 5, 8])
                b = Bin(size, n)
                r = op('new', k, n)
            elif z < 0.2:
                j = rng.randrange(3)
                b = bs[j].copy()
                r = op('copy', k, j)
            elif z < 0.4:
                n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 16])
                b.n, b.set = n, True
                b.wd = b.mx / n
                r = op('bins', k, n)
            elif z < 0.65:
                x, y = rng.choice([(1, 1), (1, 2), (2, 1), (1, 4), (3, 4), (5, 4), (rng.randint(1, 9), rng.randint(1, 9)), (7, 11), (14, 13)])
                if b.set:
                    b.mx = F(x, y)
                    b.wd = b.mx / b.n
                    b.plain = True
                else:
                    if not ceil_safe(F(x, y) / b.wd, F(x, y), b.wd):
                        continue
                    b.n = math.ceil(F(x, y) / b.wd)
                    b.mx = b.wd * b.n
                    b.plain = False
                r = op('kmax', k, x, y)
            elif z < 0.85:
                x, y = rng.choice([(1, 2), (1, 4), (1, 8), (1, 3), (2, 7), (3, 10), (rng.randint(1, 3), rng.randint(2, 12))])
                w = F(x, y)
                if not ceil_safe(b.mx / w, b.mx, w):
                    continue
                b.wd, b.set, b.plain = w, False, False
                b.n = math.ceil(b.mx / w)
                b.mx = w * b.n
                r = op('width', k, x, y)
            else:
                p = rng.choice([1, 2, 2, 4])
                b.pw = p
                r = op('power', k, p)
            f = b.fits()
            if f is not None:
                bs[k] = b
                recs.append(r)
                if rng.random() < 0.3:
                    recs.append(op('show', k))
                return
    for _ in range(steps):
        k = rng.randrange(3)
        b = bs[k]
        z = rng.random()
        if z < 0.4:
            change(k)
            continue
        f = b.fits()
        if f is None:
            continue
        if z < 0.45:
            recs.append(op('show', k))
            continue
        if z < 0.5:
            recs.append(op('limits', k, rng.randrange(b.n)))
            continue
        if (f[0] and not b.learnt) or rng.random() < 0.08:
            recs.append(op('modes', k))
            b.learnt = True
        if z < 0.62:
            recs.append(op('counts', k))
        elif z < 0.67:
            recs.append(op('count', k, rng.randint(-1, b.n)))
        elif z < 0.75:
            recs.append(op('avg', k, rng.randint(-1, b.n)))
        else:
            t = rng.choice('zzcvdfwrn')
            s = rng.randrange(2)
            if (t, s) not in have or rng.random() < 0.2:
                recs.append(op('set', k, t, s, rng.randrange(1000)))
                have.add((t, s))
            c = vol * vol * COST.get(t, 99)
            if z < 0.81:
                recs.append(op('bin', k, t, s))
            elif z < 0.87 or t == 'n' or c > left[0]:
                recs.append(op('sqn', k, t, s))
            else:
                left[0] -= c
                recs.append(op('sd', k, t, s))
    for k in range(3):
        f = bs[k].fits()
        if f is not None:
            if f[0] and not bs[k].learnt:
                recs.append(op('modes', k))
            recs.append(op('counts', k))
    return recs


def scenario(rng, variant, maxvol, steps, budget, np=None):
    np, size = fmgen.pick(rng, variant, np, maxvol)
    return Scenario(variant, np, '-', size, plan(rng, size, steps, budget))

"""Random legal programs for the field machine.

Legal: fields are read only where they were given values, a loop that writes a field reads it elsewhere only
from the other parity, element writes go to allocated fields, numbers stay exactly representable."""
from math import prod
from .fm import op, Scenario
from .layouts import LAYOUTS

LIM = dict(int=1 << 28, dbl=1 << 28, i64=1 << 28, cpx=1 << 28, flt=1 << 20, v3f=1 << 20, m2c=1 << 20)
TYPES = ['int', 'dbl', 'flt', 'i64', 'cpx', 'v3f', 'm2c']
NF = 6

# weights of operations; profiles override
BASE = dict(set=2, cset=4, cp=6, self=2, two=3, fix=2, star=2, add=2, cond=2, swp=1, gat=3, gwait=1, asgv=1, copy=1,
            move=1, swap=1, conv=0.4, clear=0.3, ctor=0.5, ctorm=0.5, ctorv=0.3, plus=0.5, neg=0.3, pluseq=0.5, mineq=0.5,
            setel=1, setelb=1, addel=0.7, subel=0.5, setels=0.5, setloc=0.5, bc=0.7, cpbc=0.2, shift=0.5, shiftp=0.5,
            off=0.7, off2=0.5, off3=0.5, mulel=0.5, cmpel=0.3)
OBSW = dict(dump=6, getel=0.7, getelb=0.7, getels=0.5, getsub=0.5, getslice=0.4, getloc=0.3, gethalo=0.3, getbc=0.4,
            init=0.4, eq=0.4, sum=0.4)


def profile(obs=None, **kw):
    w = dict(BASE)
    w.update(kw)
    o = dict(OBSW)
    o.update(obs or {})
    return w, o


PROF = {
    'mix': profile(),
    'halo': profile(setel=2, addel=1, subel=1, mulel=1, self=4, star=4, gat=5, bc=0.2, shift=0.2, shiftp=0.2, off=0.3, off2=0.3,
                    obs=dict(getel=0, getelb=0, getels=0, getsub=0, getslice=0, getloc=0, eq=0, init=0)),
    'bc': profile(bc=5, cpbc=2, move=1.5, swap=1.5, setel=1, copy=1.5, gat=3, star=4, fix=4, off=1.5, shift=1,
                  obs=dict(getbc=3, gethalo=1.5, getel=0, getels=0, getsub=0, getslice=0, eq=0)),
    'elem': profile(setel=5, setelb=5, addel=4, subel=4, mulel=3, cmpel=2, setels=5, setloc=3, self=2, star=3,
                    obs=dict(getel=5, getelb=5, getels=5, getsub=5, getslice=5, getloc=3, gethalo=3)),
    'value': profile(copy=5, conv=3, move=5, swap=4, clear=2, ctor=4, ctorm=4, ctorv=2, plus=3, neg=2, pluseq=2, mineq=2,
                     gat=6, asgv=2, obs=dict(init=3, eq=4)),
    'shift': profile(shift=8, shiftp=8, off=10, off2=8, off3=12, bc=3, cpbc=0.5, obs=dict(getel=0, getels=0, getsub=0,
                                                                               getslice=0)),
}
GATED = {}


class Gen:
    def __init__(self, rng, size, typ, variant='v3', prof='mix', nf=4):
        self.r, self.size, self.typ, self.avx = rng, list(size), typ, variant[0] == 'a'
        self.nd = len(size)
        self.vol = 1
        for s in size:
            self.vol *= s
        self.odd = any(s % 2 for s in size)
        self.noeven = self.vol == 1
        self.lim = LIM[typ]
        self.nf = nf
        self.f = [None] * NF
        self.w, self.o = PROF[prof] if isinstance(prof, str) else prof
        self.recs = []

    # ----------------------------------------------------------------- helpers
    def dirs(self):
        return [d for k in range(1, self.nd + 1) for d in (k, -k)]

    def fld(self):
        return self.r.randrange(self.nf)

    def par(self):
        return self.r.choice('EOAA')

    def alloc(self, f):
        if self.f[f] is None:
            self.f[f] = dict(E=None, O=None)

    def dead(self, f):
        self.f[f] = None

    def mag(self, f, P):
        """largest value on parity P or None if something there is undefined"""
        s = self.f[f]
        if s is None:
            return None
        if P == 'A':
            return None if s['E'] is None or s['O'] is None else max(s['E'], s['O'])
        return s[P]

    def nbpar(self, P):
        return 'A' if self.odd or P == 'A' else ('O' if P == 'E' else 'E')

    def see(self, f, P, d):
        return self.mag(f, P if d == 0 else self.nbpar(P))

    def put(self, f, P, m):
        self.alloc(f)
        for q in 'EO' if P == 'A' else P:
            self.f[f][q] = m

    def small(self):
        return self.r.choice([1, -1, 2, -3, 5, 7, -11, 13, 100, -77, self.r.randrange(-500, 500)])

    def site(self):
        return self.r.randrange(self.vol)

    def spar(self, s):
        c = 0
        for n in self.size:
            c += s % n
            s //= n
        return 'EO'[c % 2]

    def vec(self):
        r = self.r
        k = r.random()
        v = [0] * self.nd
        if k < 0.1:
            return v
        if k < 0.3:
            v[r.randrange(self.nd)] = r.choice([1, -1, 2, -2, 3, -3])
            return v
        if k < 0.8:
            return [r.choice([0, 0, 1, -1, 2, -2]) for _ in v]
        return [r.randrange(-n - 1, n + 2) for n in self.size]

    # ----------------------------------------------------------------- one operation; False if not possible
    def make(self, n):
        r = self.r
        f, g, h, P = self.fld(), self.fld(), self.fld(), self.par()
        d, e = r.choice(self.dirs()), r.choice(self.dirs() + [0])

        def emit(*a, **k):
            rec = op(n, *a)
            rec.update(k)
            self.recs.append(rec)
            return True

        def ok(m):
            return m is not None and m <= self.lim
        one = P != 'A' and not self.odd     # loops may read their own result's other parity

        def other(x):
            return x != f or one
        if n == 'set':
            v = self.small()
            emit(f, P, v)
            self.put(f, P, abs(v))
        elif n == 'cset' or n == 'setloc':
            x, y = r.choice([1, 2, 3, -1, 5]), self.small()
            if n == 'setloc':
                if self.f[f] is None:
                    return False
                P = 'A'
                emit(f, x, y)
            else:
                emit(f, P, x, y)
            self.put(f, P, abs(x) * self.vol + abs(y))
        elif n == 'cp':
            if e == 0 and r.random() < 0.7:
                return False
            m = self.see(g, P, e)
            if not ok(m) or (e != 0 and not other(g)):
                return False
            emit(f, P, g, e)
            self.put(f, P, m)
        elif n == 'self':
            if not one:
                return False
            m = self.see(f, P, d)
            if not ok(m):
                return False
            emit(f, P, d)
            self.put(f, P, m)
        elif n == 'two':
            if not (other(g) and other(h)):
                return False
            a = r.choice(self.dirs())
            s = r.choice([1, -1])
            m1, m2 = self.see(g, P, d), self.see(h, P, a)
            if m1 is None or m2 is None or not ok(m1 + m2):
                return False
            emit(f, P, g, d, h, a, s)
            self.put(f, P, m1 + m2)
        elif n == 'fix':
            m = self.see(g, P, 1)
            if m is None or not ok(2 * m) or not other(g):
                return False
            emit(f, P, g)
            self.put(f, P, 2 * m)
        elif n == 'star':
            m1, m2 = self.see(g, P, 1), self.see(g, P, 0)
            if g == f or m1 is None or m2 is None or not ok(2 * self.nd * (m1 + m2)):
                return False
            emit(f, P, g)
            self.put(f, P, 2 * self.nd * (m1 + m2))
        elif n == 'add':
            m1, m2 = self.mag(f, P), self.see(g, P, e)
            if m1 is None or m2 is None or not ok(m1 + m2) or (e != 0 and not other(g)):
                return False
            emit(f, P, g, e)
            self.put(f, P, m1 + m2)
        elif n == 'cond':
            m1, m2 = self.mag(f, P), self.see(g, P, d)
            if m1 is None or not ok(m2) or not other(g):
                return False
            k = r.choice([2, 3, 4, 5])
            emit(f, P, g, d, k, r.randrange(k))
            self.put(f, P, max(m1, m2))
        elif n == 'swp':
            m1, m2 = self.mag(f, P), self.mag(g, P)
            if f == g or m1 is None or m2 is None:
                return False
            emit(f, P, g)
            self.put(f, P, m2)
            self.put(g, P, m1)
        elif n in ('gat', 'gwait'):
            if self.f[f] is None:
                return False
            emit(f, d, P)
        elif n == 'asgv' or n == 'ctorv':
            v = self.small()
            emit(f, v)
            self.put(f, 'A', abs(v))
        elif n in ('copy', 'ctor'):
            m = self.mag(g, 'A')
            if m is None:
                return False
            s = dict(self.f[g])
            emit(f, g)
            self.f[f] = s
        elif n == 'conv':
            m = self.mag(g, 'A')
            if m is None or m > 1 << 20:
                return False
            emit(f, g)
            self.put(f, 'A', m)
        elif n in ('move', 'ctorm'):
            emit(f, g)
            if f != g:
                self.f[f], self.f[g] = self.f[g], None
        elif n == 'swap':
            if f == g:
                return False
            emit(f, g)
            self.f[f], self.f[g] = self.f[g], self.f[f]
        elif n in ('clear', 'del'):
            emit(f)
            self.dead(f)
        elif n == 'plus':
            m1, m2 = self.mag(g, 'A'), self.mag(h, 'A')
            if m1 is None or m2 is None or not ok(m1 + m2):
                return False
            emit(f, g, h)
            self.put(f, 'A', m1 + m2)
        elif n == 'neg':
            m = self.mag(g, 'A')
            if m is None:
                return False
            emit(f, g)
            self.put(f, 'A', m)
        elif n in ('pluseq', 'mineq'):
            m1, m2 = self.mag(f, 'A'), self.mag(g, 'A')
            if f == g or m1 is None or m2 is None or not ok(m1 + m2):
                return False
            emit(f, g)
            self.put(f, 'A', m1 + m2)
        elif n in ('setel', 'setelb'):
            if self.f[f] is None:
                return False
            s, v = self.site(), self.small()
            p = self.spar(s)
            emit(f, s, v)
            if self.f[f][p] is not None:
                self.f[f][p] = max(self.f[f][p], abs(v))
        elif n in ('addel', 'subel'):
            s, v = self.site(), self.small()
            p = self.spar(s)
            m = self.mag(f, p)
            if m is None or not ok(m + abs(v)):
                return False
            emit(f, s, v)
            self.f[f][p] = m + abs(v)
        elif n == 'mulel' or n == 'cmpel':
            s, k = self.site(), r.choice([2, 3, -1, -2, 4])
            if n == 'cmpel':
                k = abs(k)
            p = self.spar(s)
            m = self.mag(f, p)
            if m is None or not ok(m * abs(k)):
                return False
            emit(f, s, k)
            if n == 'mulel':
                self.f[f][p] = m * abs(k)
        elif n == 'setels':
            if self.f[f] is None:
                return False
            ss = r.sample(range(self.vol), min(self.vol, r.choice([1, 2, 3, 8, 17])))
            vs = [self.small() for _ in ss]
            emit(f, ss=ss, vs=vs)
            for s, v in zip(ss, vs):
                p = self.spar(s)
                if self.f[f][p] is not None:
                    self.f[f][p] = max(self.f[f][p], abs(v))
        elif n == 'bc':
            if self.f[f] is None and r.random() < 0.8:
                return False
            emit(f, r.choice(self.dirs()), r.choice([0, 1, 1]))
            self.alloc(f)
        elif n == 'cpbc':
            if self.f[g] is None or f == g:
                return False
            emit(f, g)
            self.alloc(f)
        elif n == 'shift':
            m = self.mag(g, 'A')
            if m is None:
                return False
            emit(f, g, self.vec())
            self.put(f, 'A', m)
        elif n in ('shiftp', 'off'):
            m = self.mag(g, 'A')
            if m is None or f == g:
                return False
            emit(f, P, g, self.vec())
            self.put(f, P, m)
        elif n == 'off2':
            m = self.mag(g, 'A')
            if m is None or f == g or not ok(2 * m):
                return False
            emit(f, P, g, self.vec(), d)
            self.put(f, P, 2 * m)
        elif n == 'off3':
            m = self.mag(g, 'A')
            if m is None or f == g or not ok(3 * m):
                return False
            u = self.vec()
            w, z = self.vec(), self.vec()
            if r.random() < 0.6:    # related displacements share intermediate shifts
                w = list(u)
                w[r.randrange(self.nd)] += r.choice([1, -1])
            if r.random() < 0.5:
                z = list(w)
                z[r.randrange(self.nd)] += r.choice([1, -1, 2])
            emit(f, P, g, u, w, z)
            self.put(f, P, 3 * m)
        # ------------------------------------------------------------- observations
        elif n == 'dump':
            if self.f[f] is None:
                return False
            emit(f)
        elif n in ('getel', 'getelb'):
            s = self.site()
            if self.mag(f, self.spar(s)) is None:
                return False
            emit(f, s)
        elif n in ('getels', 'getsub', 'getslice', 'getloc', 'gethalo'):
            if self.mag(f, 'A') is None:
                return False
            b = r.choice([0, 1])
            if n == 'getels':
                k = r.choice([1, 2, 5, 12])
                ss = [self.site() for _ in range(k)]
                if r.random() < 0.3:
                    ss += ss[:3]
                emit(f, b, ss=ss)
            elif n == 'getsub':
                lo, hi = [], []
                for m in self.size:
                    a, c = sorted((r.randrange(m), r.randrange(m)))
                    lo.append(a)
                    hi.append(c)
                emit(f, b, lo, hi)
            elif n == 'getslice':
                c = [r.choice([-1, r.randrange(m)]) for m in self.size]
                emit(f, b, c)
            else:
                emit(f)
        elif n == 'getbc':
            if self.f[f] is None:
                return False
            emit(f)
        elif n == 'init':
            emit(f)
        elif n == 'eq':
            if self.avx or self.mag(f, 'A') is None or self.mag(g, 'A') is None:
                return False
            emit(f, g)
        elif n == 'sum':
            m = self.mag(f, P)
            if m is None or not ok(m * self.vol):
                return False
            emit(f, P)
        else:
            raise ValueError(n)
        return True

    def program(self, steps, obs_rate=0.35):
        r = self.r
        names, ws = list(self.w), list(self.w.values())
        onames, ows = list(self.o), list(self.o.values())
        n = 0
        while n < steps:
            last = self.recs[-1] if self.recs else None
            if last and r.random() < obs_rate:
                if r.random() < 0.6 and 'f' in last and self.f[last['f']] is not None:
                    self.recs.append(op('dump', last['f']))
                    continue
                if not self.make(r.choices(onames, ows)[0]):
                    continue
            elif not self.make(r.choices(names, ws)[0]):
                continue
            n += 1
        for f in range(self.nf):
            if self.f[f] is not None:
                self.recs.append(op('dump', f))
        return self.recs


def scenario(rng, variant, np, typ, size, prof, steps, env=None, nf=4, tag=''):
    return Scenario(variant, np, typ, size, Gen(rng, size, typ, variant, prof, nf).program(steps), env=env, tag=tag)


CONST = 'CONSTANT Fields = {0,1,2,3,4,5}\n'
NPS = {'v': [1, 2, 2, 3, 4, 4, 5, 6, 8], 'o': [1, 2, 3], 'a': [1, 2, 2, 4, 4, 8]}


def pick(rng, variant, np=None, maxvol=200):
    """a lattice size and a number of ranks that lay out"""
    L = LAYOUTS[variant[:2]]
    while True:
        n = np or rng.choice(NPS[variant[0]])
        c = [s for s in L.get(n, ()) if prod(s) <= maxvol or variant[0] == 'a']
        if c:
            return n, list(rng.choice(c))
        if np:
            raise ValueError('no layout')

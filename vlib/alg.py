"""The machine of element algebra: harness alg, trace specification AlgebraTrace."""
from . import machine, fmgen

SIG = {'group': 't n', 'put': 'q v', 'get': 'q', 'bin': 'f d a b', 'una': 'f d a', 'inp': 'f a b', 'ter': 'f d a b', 'part': 'f a i j b',
       'perm': 'f a p', 'sort': 'a desc', 'two': 'f a p q z', 'inex': 'f a b den', 'loop': 'f a b'}
OBS = set(SIG) - {'group', 'put'}
AM = machine.Machine('alg', SIG, OBS)
op = AM.op

KINDS = 'MVWDASYKPQ'
COUNT = dict(M=4, V=3, W=2, D=2, A=3, S=3, Y=2, K=2, P=2, Q=2)
GROUPS = [('z', 2), ('z', 3), ('z', 4), ('c', 3), ('d', 2), ('d', 3), ('f', 4)]
ADD = 'MM:M VV:V WW:W PP:P AA:A SS:S DD:D KK:K MK:M KM:M MS:M SM:M MY:M YM:M KS:M SK:M DM:M MD:M DS:D SD:D AS:A SA:A AY:A YA:A SY:S YS:S DY:D'
BIN = {
    'add': ADD + ' KD:M',
    'sub': ADD + ' YD:D DK:M',
    'mul': 'MM:M MV:V WM:W WV:S VW:M PQ:M QP:- MP:P QM:Q MK:M KM:M KV:V WK:W MS:M SM:M MY:M YM:M VS:V SV:V VY:V KS:M SK:M PS:P SP:P DM:M MD:M '
           'DD:D DV:V WD:W DP:P QD:Q DS:D SD:D DY:D AA:A AS:A SA:A AY:A SS:S SY:S YS:S KP:P KK:K KD:M DK:M',
    'eq': 'MM:Y VV:Y WW:Y PP:Y AA:Y SS:Y DD:Y MD:Y DM:Y KK:Y SY:Y YS:Y',
    'ne': 'MM:Y VV:Y WW:Y PP:Y AA:Y SS:Y DD:Y KK:Y SY:Y YS:Y',
    'dot': 'VV:S', 'outer': 'VV:M', 'mtr': 'MM:S MK:S PQ:S', 'emul': 'MM:M VV:V PP:P', 'sadd': 'MS:M VS:V MY:M', 'ssub': 'MS:M PS:P',
    'cmul': 'SS:S', 'mulc': 'SS:S', 'mult': 'MM:M MV:V PQ:M MS:M SP:P', 'multaa': 'MM:M PQ:M'}
INP = {
    'set': 'MM MD MS MY MK VV WW AS AA DS DD SS SY PP QQ KY KK MA AM VD DV DM',
    'iadd': 'MM MS MY MK MD VV WW PP AA AS AY DD DS SS SY VS',
    'isub': 'MM MS MY MK MD VV WW PP AA AS AY DD DS SS SY',
    'imul': 'MM MS MY MK MD VS VY WM QM PS AA AS AY DD DS SS SY KY QD'}
TER = 'MM:M MV:V PQ:M MS:M SM:M'
SAME = {k: k for k in 'MVWKPQDAS'}
UALL = 'MVWKPQ'
TURN = dict(M='M', V='W', W='V', K='K', P='Q', Q='P')
UNA = {
    'neg': SAME, 'pos': SAME, 'con': SAME, 'conf': {k: k for k in 'MVWKPQDA'},
    'tra': TURN, 'traf': TURN, 'dag': dict(TURN, D='D', S='S'), 'dagf': dict(TURN, D='D'), 'adj': TURN,
    're': dict(M='K', K='K', S='Y', V='-', W='-', P='-', Q='-', D='-', A='-'), 'im': dict(M='K', K='K', S='Y', V='-', W='-', P='-', Q='-', D='-', A='-'),
    'tr': dict(M='S', D='S', K='Y'), 'detl': dict(M='S'), 'det': dict(M='S', D='S', K='Y'),
    'sqn': {k: 'Y' for k in 'MVWKPQDAS'}, 'sum': dict({k: 'S' for k in 'MVWPQA'}, K='Y'),
    'max': dict(K='Y'), 'min': dict(K='Y'), 'mat': dict(D='M', A='M'), 'cpy': dict(M='M', V='V', K='K', S='M', Y='M')}
PART = {'el': 'MPQAD', 'row': 'MPD', 'col': 'MQD', 'setel': 'MPA', 'setrow': 'MQ', 'setcol': 'MP', 'setdiag': 'M', 'fill': 'MVP'}
WITH = {'setel': 'S', 'setrow': 'W', 'setcol': 'V', 'setdiag': 'V', 'fill': 'S'}
DIV = 'MS MY VS PY DS DY AA AS SA SS SY YS MD DD KS KY SD QD MM'
IDIV = 'MS MY VS PY DS AA AS AY SS SY MD DD QD'
LOOP = 'MM MMd MdM MpM MmM MS MpS MY MiM MiY Mt Mc MV VV SV VpV SS SmS SSc SpY tr dt mt VdV sq'.split()


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


class Scenario(machine.Scenario):
    M = AM


class Gen:
    def __init__(self, rng, t, n):
        self.rng, self.t, self.n = rng, t, n
        self.cplx = t in 'zc'
        self.lim = 100000 if t in 'cf' else 1000000
        self.recs = [op('group', t, n)]
        self.bound = {}

    def shape(self, k):
        n = self.n
        return dict(M=(n, n), V=(n, 1), W=(1, n), D=(n, n), A=(n, n), S=(1, 1), Y=(1, 1), K=(n, n), P=(n, n + 1), Q=(n + 1, n))[k]

    def reg(self, k):
        return KINDS.index(k) * 10 + self.rng.randrange(COUNT[k])

    def put(self, q, v=None, size=None, imag=True):
        k = KINDS[q // 10]
        r, c = self.shape(k)
        m = self.n if k == 'D' else r * c
        if v is None:
            s = size or self.rng.choice([1, 2, 3, 5])
            zero = self.rng.choice([0, 0, 0.4])
            v = []
            for i in range(m):
                z = 0 if self.rng.random() < zero else self.rng.randint(-s, s)
                v += [z, self.rng.randint(-s, s) if self.cplx and imag and k not in 'YK' else 0]
        self.bound[q] = max(1, max(abs(x) for x in v))
        self.recs.append(op('put', q, v))

    def take(self, k):
        """a register of the kind, with a value"""
        q = self.reg(k)
        if q not in self.bound or self.rng.random() < 0.06:
            self.put(q)
        return q

    def pair(self, w):
        a, b = self.take(w[0]), self.take(w[1])
        return a, b

    def fits(self, b, *regs):
        if b <= self.lim:
            return True
        for q in regs:
            self.put(q)
        return False

    def c2(self):
        return 2 if self.cplx else 1

    def product(self, a, b):
        x, y = KINDS[a // 10], KINDS[b // 10]
        inner = 1
        if x not in 'SYA' and y not in 'SYA':
            inner = self.shape(x)[1]
        elif x == y == 'S':
            inner = 1
        return self.c2() * inner * self.bound[a] * self.bound[b]

    def dest(self, k, bound):
        if k == '-' or self.rng.random() < 0.3:
            return -1
        q = self.reg(k)
        self.bound[q] = bound
        return q

    def step(self):
        rng = self.rng
        z = rng.random()
        B = self.bound
        n, c2 = self.n, self.c2()
        if z < 0.30:
            f = rng.choice(['add', 'add', 'sub', 'sub', 'mul', 'mul', 'mul', 'eq', 'ne', 'dot', 'outer', 'mtr', 'emul', 'sadd', 'ssub', 'cmul', 'mulc',
                            'mult', 'multaa'])
            if f in ('cmul', 'mulc') and not self.cplx:
                return
            w, k = rng.choice(BIN[f].split()).split(':')
            a, b = self.pair(w)
            if f in ('eq', 'ne'):
                if a // 10 == b // 10 and rng.random() < 0.6:    # almost or altogether the same
                    v = []
                    r, c = self.shape(w[0])
                    m = n if w[0] == 'D' else r * c
                    for i in range(m):
                        v += [rng.randint(-2, 2), rng.randint(-2, 2) if self.cplx and w[0] not in 'YK' else 0]
                    self.put(a, v)
                    u = list(v)
                    if rng.random() < 0.6:
                        i = rng.randrange(m)
                        u[2 * i + (rng.random() < 0.5 and self.cplx and w[0] not in 'YK')] += 1
                    self.put(b, u)
                elif w in ('MD', 'DM') and rng.random() < 0.6:
                    d = [x for i in range(n) for x in (rng.randint(-2, 2), 0)]
                    v = [0] * (2 * n * n)
                    for i in range(n):
                        v[2 * (i * n + i)] = d[2 * i]
                    if rng.random() < 0.5:
                        v[rng.randrange(n * n) * 2] += 1
                    self.put(a if w[0] == 'D' else b, d)
                    self.put(b if w[0] == 'D' else a, v)
                bound = 1
            elif f in ('add', 'sub', 'sadd', 'ssub'):
                bound = B[a] + B[b]
            elif f == 'mtr':
                bound = c2 * n * (n + 1) * B[a] * B[b]
            elif f in ('outer', 'emul'):
                bound = c2 * B[a] * B[b]
            elif f == 'dot':
                bound = c2 * n * B[a] * B[b]
            else:
                bound = self.product(a, b)
            if self.fits(bound, a, b):
                self.recs.append(op('bin', f, self.dest(k, bound), a, b))
        elif z < 0.46:
            f = rng.choice(sorted(UNA))
            kinds = dict(UNA[f])
            if f in ('max', 'min') and not self.cplx:
                kinds.update(A='Y', D='Y', M='Y', V='Y')
            k = rng.choice(sorted(kinds))
            a = self.take(k)
            r, c = self.shape(k)
            if f in ('det', 'detl'):
                s = B[a] * (1.42 if self.cplx else 1)
                bound = int((1 if k == 'D' else fact(n)) * s**n) + 1
            else:
                bound = {'tr': n * B[a], 'sum': r * c * B[a], 'sqn': r * c * c2 * B[a]**2}.get(f, B[a])
            if self.fits(bound, a):
                self.recs.append(op('una', f, self.dest(kinds[k], bound), a))
        elif z < 0.58:
            f = rng.choice(['set', 'set', 'iadd', 'isub', 'imul'])
            w = rng.choice(INP[f].split())
            a, b = self.pair(w)
            if w[0] == w[1] and rng.random() < 0.15:
                b = a
            bound = B[b] if f == 'set' else B[a] + B[b] if f != 'imul' else self.product(a, b)
            if self.fits(bound, a, b):
                self.recs.append(op('inp', f, a, b))
                B[a] = bound
        elif z < 0.62:
            w, k = rng.choice(TER.split()).split(':')
            a, b = self.pair(w)
            d = self.take(k)
            if d in (a, b):
                return
            bound = B[d] + self.product(a, b)
            if self.fits(bound, a, b, d):
                self.recs.append(op('ter', rng.choice(['madd', 'msub']), d, a, b))
                B[d] = bound
        elif z < 0.70:
            f = rng.choice(sorted(PART))
            k = rng.choice(PART[f])
            a = self.take(k)
            b = self.take(WITH.get(f, 'S'))
            r, c = self.shape(k)
            self.recs.append(op('part', f, a, rng.randrange(r), rng.randrange(c), b))
            if f in WITH:
                B[a] = max(B[a], B[b])
        elif z < 0.74:
            f = rng.choice(['pcol', 'prow', 'pvec'])
            a = self.take(rng.choice({'pcol': 'MQ', 'prow': 'MP', 'pvec': 'VW'}[f]))
            p = list(range(n))
            rng.shuffle(p)
            self.recs.append(op('perm', f, a, p))
        elif z < 0.76:
            if self.cplx:
                return
            a = self.reg('V')
            self.put(a)
            self.recs.append(op('sort', a, rng.randrange(2)))
        elif z < 0.79:
            a = self.take('M')
            p, q = rng.sample(range(n), 2)
            v = [rng.randint(-2, 2) if self.cplx or i % 2 == 0 else 0 for i in range(8)]
            bound = c2 * 2 * 2 * B[a]
            if self.fits(bound, a):
                self.recs.append(op('two', rng.choice(['left', 'right']), a, p, q, v))
                B[a] = bound
        elif z < 0.87:
            f = rng.choice(LOOP)
            a, b = rng.randrange(4), rng.randrange(4)
            for i in (a, b):
                for q in (i % 4, 10 + i % 3, 50 + i % 3, 60 + i % 2):
                    if q not in B:
                        self.put(q)
            m = max(B[i] for i in (a % 4, b % 4, 10 + a % 3, 10 + b % 3, 50 + a % 3, 50 + b % 3, 60 + b % 2))
            bound = c2 * n * m * m * (n if f == 'mt' or f == 'sq' else 1)
            if f == 'dt':
                bound = int(fact(n) * (m * 1.42)**n)
            if self.fits(bound, a, b, 10 + a % 3, 10 + b % 3, 50 + a % 3, 50 + b % 3, 60 + b % 2):
                self.recs.append(op('loop', f, a, b))
        else:
            self.inexact()

    def nonzero(self, q, s):
        k = KINDS[q // 10]
        r, c = self.shape(k)
        m = n = self.n if k == 'D' else r * c
        v = []
        for i in range(m):
            x = y = 0
            while not x and not y:
                x = self.rng.randint(-s, s)
                y = self.rng.randint(-s, s) if self.cplx and k not in 'YK' else 0
            v += [x, y]
        self.put(q, v)

    def regular(self, q, s=2):
        """a matrix far from singular: rows of a dominated one in another order"""
        n, rng = self.n, self.rng
        rows = []
        for i in range(n):
            row = []
            for j in range(n):
                x, y = rng.randint(-s, s), rng.randint(-s, s) if self.cplx else 0
                if i == j:
                    x += rng.choice([-1, 1]) * (2 * n * s + 1)
                    if self.cplx and rng.random() < 0.5:
                        x, y = y, x
                row += [x, y]
            rows.append(row)
        if rng.random() < 0.7:
            rng.shuffle(rows)
        self.put(q, sum(rows, []))

    def singular(self, v):
        def det(rows):
            if len(rows) == 1:
                return rows[0][0]
            r = (0, 0)
            for q, x in enumerate(rows[0]):
                y = det([row[:q] + row[q + 1:] for row in rows[1:]])
                s = -1 if q % 2 else 1
                r = (r[0] + s * (x[0] * y[0] - x[1] * y[1]), r[1] + s * (x[0] * y[1] + x[1] * y[0]))
            return r
        n = self.n
        return det([[(v[2 * (i * n + j)], v[2 * (i * n + j) + 1]) for j in range(n)] for i in range(n)]) == (0, 0)

    def inexact(self):
        rng, n = self.rng, self.n
        fl = self.t in 'cf'
        fs = ['div', 'div', 'idiv', 'idiv', 'norm', 'abs', 'maxabs', 'minabs', 'norm1', 'detu', 'solve', 'solvem', 'inv', 'invmul', 'exp', 'chexp', 'sexp',
              'sinv', 'pow', 'eigen', 'svd', 'svdp']
        if self.cplx:
            fs += ['altexp', 'chsexp', 'chexpk', 'arg', 'unit', 'unit', 'sunrnd', 'alg', 'alg', 'aexp', 'aexp']
        f = rng.choice(fs)
        a = b = 0
        den = 1000
        if f in ('div', 'idiv'):
            w = rng.choice((DIV if f == 'div' else IDIV).split())
            a, b = self.reg(w[0]), self.reg(w[1])
            self.put(a, size=rng.choice([3, 20, 100]))
            if b == a:
                self.nonzero(a, 5)
            else:
                self.nonzero(b, rng.choice([1, 2, 7]))
            den = rng.choice([100, 1000])
        elif f == 'norm':
            a = self.reg(rng.choice('MVWKPQDS'))
            self.put(a, size=rng.choice([1, 5, 20]))
            den = 100
        elif f == 'abs':
            a = self.reg(rng.choice('MVWKPQDSA'))
            self.put(a, size=rng.choice([1, 5, 20]))
            den = 1000
        elif f in ('maxabs', 'minabs', 'norm1'):
            a = self.reg(rng.choice('MV'))
            self.put(a, size=rng.choice([1, 5, 20]))
            den = 1000
        elif f == 'detu':
            a = self.reg('M')
            (self.regular if rng.random() < 0.5 else self.put)(a)
            den = 10 if n == 4 else 100
        elif f in ('solve', 'solvem', 'inv', 'invmul'):
            a = self.reg('M')
            self.regular(a)
            b = self.reg('P' if f == 'solvem' else 'V')
            self.put(b, size=rng.choice([1, 5, 20]))
            den = 10000
        elif f in ('exp', 'chexp', 'altexp', 'chsexp', 'chexpk'):
            a = self.reg('M')
            kind = rng.random()
            s = rng.choice([1, 2, 4])
            if kind < 0.2:      # nilpotent, diagonal, zero, multiple of one
                v = []
                for i in range(n):
                    for j in range(n):
                        x = rng.randint(-s, s)
                        keep = (j > i) if kind < 0.08 else (i == j)
                        v += [x if keep and kind > 0.02 else 0, 0]
                if kind > 0.15:
                    v = [s if i % (n + 1) == 0 and p == 0 else 0 for i in range(n * n) for p in (0, 1)]
                self.put(a, v)
            else:
                self.put(a, size=s)
            den = 100000
        elif f == 'sexp':
            a = self.reg('S')
            self.put(a, size=rng.choice([1, 4, 7]))
            den = 100000
        elif f == 'sinv':
            a = self.reg('S')
            x, y = rng.randint(1, 12), rng.randint(-12, 12) if self.cplx else 0
            if abs(x) <= 1 and 3 <= abs(y) <= 5:
                y = 0
            self.put(a, [x, y])
            den = 1000
        elif f == 'pow':
            a, b = 50, 51
            x, y = rng.randint(1, 9), rng.randint(-9, 9) if self.cplx else 0
            self.put(a, [x, y])
            self.put(b, [rng.choice([-2, 1, 2, 4]), 0])
            den = 1000
        elif f in ('eigen', 'svd', 'svdp'):
            a = self.reg('M')
            z = rng.random()
            if z < 0.25:    # equal and vanishing values
                s = rng.randint(-2, 2)
                v = [(s if rng.random() < 0.9 else s + 1) if i % (n + 1) == 0 and p == 0 else 0 for i in range(n * n) for p in (0, 1)]
                self.put(a, v)
            elif z < 0.4:   # rank one
                u = [(rng.randint(-2, 2), rng.randint(-1, 1) if self.cplx else 0) for i in range(n)]
                w = [(rng.randint(-2, 2), rng.randint(-1, 1) if self.cplx else 0) for i in range(n)]
                v = []
                for p in u:
                    for q in w:
                        v += [p[0] * q[0] - p[1] * q[1], p[0] * q[1] + p[1] * q[0]]
                self.put(a, v)
            else:
                self.put(a, size=rng.choice([1, 2, 4]))
            while f != 'eigen' and self.singular(self.recs[-1]['v']):    # U is defined for positive singular values only
                self.recs.pop()
                self.put(a, size=rng.choice([1, 2, 4]))
            b = rng.randrange(3)
            den = 2000
        elif f == 'arg':
            a = self.reg('S')
            self.nonzero(a, rng.choice([2, 9]))
            den = 1000
        elif f in ('unit', 'sunrnd'):
            a = self.reg('M')
            self.regular(a, rng.choice([1, 2]))
            den = 2000
        elif f == 'alg':
            a = self.reg('M')
            self.put(a, size=5)
            den = 100
        elif f == 'aexp':
            a = self.reg('M')
            self.put(a, size=rng.choice([1, 2, 4]))
            den = 1000
        self.recs.append(op('inex', f, a, b, den))


def scenario(rng, variant, steps, parts=2):
    np, size = fmgen.pick(rng, variant, maxvol=24)
    recs = []
    for _ in range(parts):
        t, n = rng.choice(GROUPS)
        g = Gen(rng, t, n)
        while len(g.recs) < steps:
            g.step()
        recs += g.recs
    return Scenario(variant, np, 'x', size, recs)

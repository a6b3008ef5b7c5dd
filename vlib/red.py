"""The reduction machine: harness red, trace specification ReductionTrace; random programs; tours."""
import re
from . import machine, tlc, fmgen
from .layouts import LAYOUTS

SIG = {
    'assign': 'k v', 'allred': 'x', 'sum': 'k P a m b', 'sub': 'k P a m b', 'cnd': 'k P a m b', 'two': 'k l P a m b',
    'mix': 'P a m b', 'ext': 'P a m b big', 'fld': 'k P a m b', 'fsum': 'k P a m b', 'fsumr': 'k P a m b',
    'prod': 'k P m r', 'fprod': 'k P m r', 'nop': 'P', 'show': 'k', 'showm': '', 'showx': '',
    'rnew': 'k v', 'rset': 'k v', 'rmode': 'k a n d', 'rloop': 'k P a m b', 'rtwo': 'k l P a m b',
    'rsum': 'k l P a m b', 'rstart': 'k', 'rred': 'k', 'rval': 'k',
    'vnew': 'k n v', 'vset': 'k v', 'vzero': 'k', 'vel': 'k i v', 'vmode': 'k a n d', 'vloop': 'k P a m b',
    'vtwo': 'k l P a m b', 'vprod': 'k P m r', 'vstart': 'k', 'vred': 'k', 'vwait': 'k', 'vpush': 'k v', 'vpop': 'k',
    'vsize': 'k n v', 'vval': 'k', 'mset': 'f *c', 'mm': 'f P x loc',
}
OBS = {'show', 'showm', 'showx', 'rval', 'vval', 'mm'}
RM = machine.Machine('red', SIG, OBS, OBS)
op = RM.op
ARITH = ['int', 'dbl', 'flt', 'lng']
TYPES = ARITH + ['cpx', 'v3d']
LIM = dict(int=1 << 28, dbl=1 << 28, lng=1 << 28, flt=1 << 22, cpx=1 << 28, v3d=1 << 28)
NCODES = dict(int=9, lng=9, flt=14, dbl=14)


class Scenario(machine.Scenario):
    M = RM


def bound(vol, a, m, b):
    return vol * (abs(a) * max(0, min(m, vol) - 1) + abs(b))


class Gen:
    """random legal programs; what: part of the machine to exercise ('plain', 'r', 'v', 'mm')"""

    def __init__(self, rng, size, typ, what):
        self.r, self.typ, self.what = rng, typ, what
        self.vol = fmgen.prod(size)
        self.even = all(s % 2 == 0 for s in size)
        self.lim = LIM[typ] // (8 if typ in ('cpx', 'v3d') else 1)
        self.pv = [0] * 4
        self.ext = self.mix = 0
        self.rv = [0] * 4
        self.rm = [[1, 0, 0] for _ in range(4)]
        self.rpend = [False] * 4
        self.vv = [dict(n=5, b=0, pend=None, out=False, m=[1, 0, 0]) for _ in range(4)]
        self.recs = []
        self.codes = {}

    def add(self, *a, **k):
        self.recs.append(op(*a, **k))

    def abm(self):
        r = self.r
        a, m, b = r.choice([1, 1, 2, 3, -1, -5, 17]), r.choice([1, 2, 3, 5, 7, 11, 100, 1000]), r.choice([0, 0, 1, -2, 9])
        return a, m, b, bound(self.vol, a, m, b)

    def par(self):
        return self.r.choice('EOAA')

    def room(self, k, add):
        if self.pv[k] + add > self.lim:
            v = self.r.randrange(-50, 50)
            self.add('assign', k, v)
            self.pv[k] = 50

    def plain(self):
        r = self.r
        k = r.randrange(4)
        a, m, b, B = self.abm()
        P = self.par()
        o = r.choice(['assign', 'allred', 'sum', 'sum', 'sum', 'sub', 'cnd', 'two', 'mix', 'ext', 'fld', 'fsum', 'fsumr',
                      'prod', 'fprod', 'nop', 'show', 'show', 'show', 'showm', 'showx', 'rloop'])
        if o == 'assign':
            self.pv[k] = abs(v := r.randrange(-300, 300))
            self.add('assign', k, v)
        elif o == 'allred':
            self.add('allred', r.choice([0, 0, 1]))
        elif o in ('sum', 'sub', 'cnd', 'fld'):
            if o == 'cnd':
                m = min(m, 7) + 1
                B = self.vol * (abs(a) * self.vol + abs(b))
            if o == 'fld':
                B *= 2
            if B > self.lim:
                return
            self.room(k, B)
            self.add(o, k, P, a, m, b)
            self.pv[k] += B
        elif o == 'two':
            l = (k + r.randrange(1, 4)) % 4
            self.room(k, B)
            self.room(l, 2 * B)
            self.add('two', k, l, P, a, m, b)
            self.pv[k] += B
            self.pv[l] += 2 * B
        elif o == 'mix':
            if self.mix + 3 * B < 1 << 22:
                self.mix += 3 * B
                self.add('mix', P, a, m, b)
                if r.random() < 0.6:
                    self.add('showm')
        elif o == 'ext':
            if self.ext + B < 1 << 28:
                self.ext += B
                big = 1 if P == 'A' and self.even and r.random() < 0.7 else 0
                self.add('ext', P, a, m, b, big)
                if r.random() < 0.6:
                    self.add('showx')
        elif o in ('fsum', 'fsumr'):
            if B < self.lim:
                self.add(o, k, P, a, m, b)
                self.pv[k] = B
        elif o in ('prod', 'fprod'):
            if self.typ not in ARITH:
                return
            m = max(2, self.vol // 8 + r.randrange(3))
            f = 1 << (self.vol // m + 1)
            if o == 'prod':
                if self.pv[k] * f > self.lim or self.pv[k] == 0:
                    self.add('assign', k, r.choice([1, 3, -7]))
                    self.pv[k] = 7
                self.pv[k] *= f
            else:
                self.pv[k] = f
            self.add(o, k, P, m, r.randrange(m))
        elif o == 'nop':
            self.add('nop', P)
        elif o in ('showm', 'showx'):
            self.add(o)
        elif o == 'rloop':
            self.red()
            return
        else:
            self.add('show', k)
            return
        if r.random() < 0.3:
            self.add('show', k)

    def red(self):
        r = self.r
        k = r.randrange(3)
        a, m, b, B = self.abm()
        P = self.par()
        o = r.choice(['rnew', 'rset', 'rset', 'rmode', 'rmode', 'rmode', 'rloop', 'rloop', 'rloop', 'rloop', 'rtwo', 'rsum',
                      'rstart', 'rred', 'rval', 'rval', 'rval', 'plain'])
        if o == 'rnew':
            self.rv[k] = 99
            self.add('rnew', k, r.choice([0, 0, 5, -99]))
            self.rm[k] = [1, 0, 0]
        elif o == 'rset':
            self.rv[k] = 300
            self.add('rset', k, r.randrange(-300, 300))
        elif o == 'rmode':
            m = [r.choice([0, 1, 1]), r.choice([0, 1]), r.choice([0, 1, 1])]
            self.add('rmode', k, *m)
        elif o in ('rloop', 'rtwo', 'rsum'):
            if self.rv[k] + B > self.lim:
                self.add('rset', k, 3)
                self.rv[k] = 3
            if B > self.lim // 4:
                return
            if o == 'rloop':
                self.add('rloop', k, P, a, m, b)
            elif o == 'rtwo':
                l = (k + r.randrange(1, 3)) % 3
                if self.rv[l] + 2 * B > self.lim:
                    self.add('rset', l, 3)
                    self.rv[l] = 3
                self.rv[l] += 2 * B
                self.add('rtwo', k, l, P, a, m, b)
            else:
                l = r.randrange(4)
                self.room(l, 2 * B)
                self.pv[l] += 2 * B
                self.add('rsum', k, l, P, a, m, b)
            self.rv[k] += B
        elif o == 'plain':
            self.plain()
        else:
            self.add(o, k)

    def vec(self):
        r = self.r
        k = r.randrange(3)
        v = self.vv[k]
        a, m, b, B = self.abm()
        P = self.par()
        quiet = not v['pend'] and not v['out']
        o = r.choice(['vnew', 'vset', 'vset', 'vzero', 'vel', 'vmode', 'vmode', 'vloop', 'vloop', 'vloop', 'vloop', 'vtwo',
                      'vprod', 'vprod', 'vstart', 'vred', 'vred', 'vwait', 'vpush', 'vpop', 'vsize', 'vval', 'vval', 'vval', 'rloop'])
        if o == 'vnew':
            self.vv[k] = dict(n=r.randrange(1, 9), b=50, pend=None, out=False, m=[1, 0, 0])
            self.add('vnew', k, self.vv[k]['n'], r.randrange(-50, 50))
        elif o in ('vset', 'vzero'):
            v.update(b=50, pend=None, out=False)
            self.add(*(('vset', k, r.randrange(-50, 50)) if o == 'vset' else ('vzero', k)))
        elif o == 'vmode':
            v['m'] = [r.choice([0, 1, 1]), r.choice([0, 0, 1]), r.choice([0, 1])]
            self.add('vmode', k, *v['m'])
        elif o in ('vloop', 'vtwo', 'vprod'):
            l = (k + r.randrange(1, 3)) % 3
            w = self.vv[l]
            kind = 'prod' if o == 'vprod' else 'sum'
            which = [v, w] if o == 'vtwo' else [v]
            if any(x['n'] == 0 for x in which):
                return
            for q, x in ((k, v), (l, w)) if o == 'vtwo' else ((k, v),):
                if x['pend'] not in (None, kind):
                    self.add('vred', q)
                    x['pend'], x['out'] = None, False
            if o == 'vprod':
                if self.typ not in ARITH:
                    return
                m = max(2, self.vol // 8 + r.randrange(3))
                f = 1 << (self.vol // m + 1)
                if v['b'] * f > self.lim:
                    self.add('vset', k, r.choice([1, 2, -3]))
                    v.update(b=3, pend=None, out=False)
                v['b'] *= f
                self.add('vprod', k, P, m, r.randrange(m))
            else:
                if B > self.lim // 4:
                    return
                for q, x, c in ((k, v, 1), (l, w, 2)) if o == 'vtwo' else ((k, v, 1),):
                    if x['b'] + c * B > self.lim:
                        self.add('vset', q, 3)
                        x.update(b=3, pend=None, out=False)
                    x['b'] += c * B
                if o == 'vtwo':
                    self.room(0, B)
                    self.pv[0] += B
                    self.add('vtwo', k, l, P, a, m, b)
                else:
                    self.add('vloop', k, P, a, m, b)
            for x in which:
                if x['m'][2]:
                    x['pend'], x['out'] = kind, False
                else:
                    x['pend'], x['out'] = None, bool(x['m'][1])
        elif o == 'vstart':
            if v['pend']:
                v['pend'], v['out'] = None, bool(v['m'][1])
            self.add(o, k)
        elif o == 'vred':
            v['pend'], v['out'] = None, False
            self.add(o, k)
        elif o == 'vwait':
            v['out'] = False
            self.add(o, k)
        elif o == 'rloop':
            self.red()
        elif not quiet:
            return
        elif o == 'vel':
            if v['n']:
                v['b'] = max(v['b'], 50)
                self.add('vel', k, r.randrange(v['n']), r.randrange(-50, 50))
        elif o == 'vpush':
            if v['n'] < 12:
                v['n'] += 1
                v['b'] = max(v['b'], 50)
                self.add('vpush', k, r.randrange(-50, 50))
        elif o == 'vpop':
            if v['n']:
                v['n'] -= 1
                self.add('vpop', k)
        elif o == 'vsize':
            v['n'] = r.randrange(0, 10)
            v['b'] = max(v['b'], 50)
            self.add('vsize', k, v['n'], r.randrange(-50, 50))
        else:
            self.add('vval', k)

    def mm(self):
        r = self.r
        f = r.randrange(2)
        if f not in self.codes or r.random() < 0.3:
            n = NCODES[self.typ]
            k = r.random()
            if k < 0.15:
                c = [r.randrange(n)] * self.vol
            elif k < 0.5:
                lo = r.randrange(n)
                hi = min(n - 1, lo + r.randrange(3))
                c = [r.randrange(lo, hi + 1) for _ in range(self.vol)]
            elif k < 0.75:       # one site stands out
                q, p = r.randrange(n), r.randrange(n)
                c = [q] * self.vol
                c[r.randrange(self.vol)] = p
            else:
                c = [r.randrange(n) for _ in range(self.vol)]
            self.codes[f] = c
            self.add('mset', f, c)
        loc = r.choice([0, 1, 1, 2])
        P = 'A' if self.vol < 2 or loc == 2 else self.par()
        self.add('mm', f, P, r.randrange(2), loc)
        if r.random() < 0.1:
            self.plain()

    def program(self, steps):
        f = dict(plain=self.plain, r=self.red, v=self.vec, mm=self.mm)[self.what]
        while len(self.recs) < steps:
            f()
        for k in range(3):
            self.add('show', k)
            if self.what in ('r', 'plain'):
                self.add('rval', k)
            if self.what == 'v':
                self.add('vred', k)
                self.add('vval', k)
        return self.recs


def random_programs(ctx, exes, variants, what, count, steps, types=TYPES):
    sc = []
    for _ in range(count):
        v = ctx.rng.choice(variants)
        np, size = fmgen.pick(ctx.rng, v)
        env = {'OMP_NUM_THREADS': ctx.rng.choice(['1', '3'])} if v[0] == 'o' else {}
        t = ctx.rng.choice(types)
        sc.append(Scenario(v, np, t, size, Gen(ctx.rng, size, t, what).program(steps), env=env, tag=what))
    ctx.conform(sc, 'ReductionTrace', exes)


FAULTS = ('addall', 'keepdelay', 'nowait', 'setkeeps')
RR = 'CONSTANTS N = %d\n MaxOps = %d\n Fault = "%s"\nSPECIFICATION Spec\nVIEW Concrete\nINVARIANT Right Exclusive\n' \
     'CHECK_DEADLOCK FALSE\n'


def models(ctx):
    for n, m in ctx.pick([(2, 7), (3, 6)], [(2, 12), (3, 10), (4, 9)]):
        ctx.model('ReductionRanks', RR % (n, m, 'none'), '%d ranks, all programs of %d operations' % (n, m))
    if ctx.thorough:
        for f in FAULTS:
            if not tlc.run('ReductionRanks', RR % (2, 6, f), workers=8).violated:
                raise tlc.TLCError('the deliberately broken reduction %s is not found to be broken' % f)


def histories(full, n):
    """histories of ReductionRanks: a shortest one for every transition of the status, or all short ones"""
    r = tlc.run('ReductionRanks', 'CONSTANTS N = 2\n MaxOps = %d\n Fault = "none"\nINIT Init\nNEXT NextTour\n%sCHECK_DEADLOCK FALSE\n'
                % (n, '' if full else 'VIEW Abstract\n'))
    if not r.ok:
        raise tlc.TLCError('ReductionRanks tour: ' + r.out[-2000:])
    return [re.findall(r'"(\w+)"', l) for l in re.findall(r'<<"TOUR", <<(.*?)>>\s*>>', r.out, re.S)]


def replay(rng, hs, kind):
    """the histories on Reduction ('r') or ReductionVector ('v') variables"""
    recs = []
    c = kind
    for h in hs:
        k = rng.randrange(3)
        recs.append(op('rnew', k, 0) if c == 'r' else op('vnew', k, rng.randrange(1, 5), 0))
        for o in h:
            if o == 'set':
                recs.append(op(c + 'set', k, 7))
            elif o == 'loop':
                recs.append(op(c + 'loop', k, rng.choice('EOA'), rng.choice([1, 2, -3]), rng.choice([2, 5, 50]), rng.choice([0, 1])))
            elif o == 'start':
                recs.append(op(c + 'start', k))
            elif o == 'red':
                if c == 'v':
                    recs.append(op('vred', k))
                    recs.append(op('vval', k))
                else:
                    recs.append(op(rng.choice(['rred', 'rval', 'rval']), k))
            else:
                recs.append(op(c + 'mode', k, int(o[1]), int(o[2]), int(o[3])))
        if c == 'v':
            recs += [op('vred', k), op('vval', k)]
        else:
            recs.append(op('rval', k))
    return recs


def tours(ctx, exes, conf, kind):
    tour = histories(False, 8)
    full = histories(True, ctx.pick(3, 4))
    if len(full) > 3000:
        ctx.rng.shuffle(full)
        full = full[:3000]
    ctx.cov['tour'] = '%d transitions of the status of a reduction, %d short programs' % (len(tour), len(full))
    sc = []
    for v, np, size in conf:
        hs = tour + full
        ctx.rng.shuffle(hs)
        for k in range(0, len(hs), 150):
            sc.append(Scenario(v, np, ctx.rng.choice(TYPES), size, replay(ctx.rng, hs[k:k + 150], kind), tag='tour'))
    ctx.conform(sc, 'ReductionTrace', exes)

"""The layout machine: harness lay, trace specification LayoutTrace."""
from . import machine, fmgen
from .layouts import LAYOUTS

SIG = {'sites': '', 'back': '', 'coord': '', 'spar': '', 'owner': '', 'mine': '', 'info': '', 'nodeinfo': '', 'range': '',
       'size': '', 'visit': 'P', 'xcoord': 'P', 'xdir': 'P', 'xpar': 'P', 'nb': 'P d', 'fcnt': 'P',
       'block': 'b', 'blocki': 'n', 'canblock': 'b', 'unblock': '', 'base': '', 'goto': 'k',
       'fclear': 'k', 'fset': 'k P a c', 'fadd': 'k P c', 'fcopy': 'k j', 'fnb': 'k P j d', 'fnba': 'k P j d',
       'fshift': 'k j u', 'fel': 'k s v', 'bfrom': 'k j', 'unto': 'k j', 'bcur': 'k', 'fdump': 'k', 'fsum': 'k P',
       'fget': 'k s', 'gset': 'k a c', 'gblock': 'k j', 'gbcur': 'k', 'gunto': 'k j', 'gclear': 'k', 'gdump': 'k'}
BLOCKS = {'sites', 'back', 'coord', 'spar', 'mine', 'info', 'range'}
OBS = BLOCKS | {'owner', 'nodeinfo', 'size', 'visit', 'xcoord', 'xdir', 'xpar', 'nb', 'fcnt', 'block', 'blocki', 'canblock',
                'unblock', 'base', 'goto', 'fdump', 'fsum', 'fget', 'gdump'}
LM = machine.Machine('lay', SIG, OBS, BLOCKS,
                     stops=dict(block='(Cannot block lattice|invalid blocking factor)', blocki='(Cannot block lattice|invalid blocking factor)',
                                unblock='cannot unblock lattice'))
op = LM.op
TYPES = ['int', 'v3d', 'flt']


def const(variant):
    return 'CONSTANTS NF = 4 NG = 2 CanBlock = %s\n' % ('FALSE' if variant[0] == 'a' else 'TRUE')


class Scenario(machine.Scenario):
    M = LM

    def may_refuse(self, p):
        if tuple(self.size) in LAYOUTS[self.variant[:2]].get(self.np, []):
            return False
        return 'timed out' not in p and 'Assertion' not in p and 'signal' not in p and \
            ('Could not successfully lay out' in p or 'Cannot factorize' in p or 'layout' in p.lower())


def geometry(rng, nd, full=True):
    recs = [op('sites'), op('back'), op('coord'), op('spar'), op('owner'), op('mine'), op('info'), op('nodeinfo'), op('range'),
            op('size')]
    for P in 'EOA':
        recs += [op('visit', P), op('xcoord', P), op('xdir', P), op('xpar', P), op('fcnt', P)]
    for k in range(1, nd + 1):
        recs += [op('nb', 'A', k), op('nb', 'A', -k), op('nb', rng.choice('EO'), rng.choice([k, -k]))]
    t = recs[1:]
    if not full:
        t = rng.sample(t, len(t) // 3)
    rng.shuffle(t)
    return recs[:1] + t


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


class Gen:
    """random legal programs over lattice levels"""

    def __init__(self, rng, size, gauge=True):
        self.r, self.nd = rng, len(size)
        self.lats = [dict(sz=tuple(size), parent=None, b=None, geo=False)]
        self.cur = 0
        self.f = [None] * 4         # lattice of each field
        self.dfn = [False] * 4      # completely defined
        self.g = [None] * 2
        self.recs = []
        self.gauge = gauge
        self.big = [0] * 4
        self.gbig = [0] * 2

    def add(self, *a):
        self.recs.append(op(*a))

    def vol(self, L=None):
        return fmgen.prod(self.lats[self.cur if L is None else L]['sz'])

    def child(self, b):
        sz = tuple(s // x for s, x in zip(self.lats[self.cur]['sz'], b))
        if all(x == 1 for x in b):
            return self.cur
        for i, l in enumerate(self.lats):
            if l['parent'] == self.cur and l['sz'] == sz:
                return i
        self.lats.append(dict(sz=sz, parent=self.cur, b=tuple(b), geo=False))
        return len(self.lats) - 1

    def block(self, maxb=99):
        sz = self.lats[self.cur]['sz']
        r = self.r
        for _ in range(20):
            b = [r.choice([d for d in divisors(s) if d <= maxb]) for s in sz]
            if r.random() < 0.6:
                b = [min(x, 2) if s % 2 == 0 else x for x, s in zip(b, sz)]
            if len(self.lats) < 7 or all(x == 1 for x in b):
                break
            if any(l['parent'] == self.cur and l['sz'] == tuple(s // x for s, x in zip(sz, b)) for l in self.lats):
                break
        else:
            return
        if len(set(b)) == 1 and r.random() < 0.5:
            self.add('blocki', b[0])
        else:
            self.add('block', b)
        self.cur = self.child(b)

    def look(self):
        if not self.lats[self.cur]['geo']:
            self.lats[self.cur]['geo'] = True
            self.recs += geometry(self.r, self.nd, full=False)

    def step(self):
        r = self.r
        par = self.lats[self.cur]['parent']
        o = r.choice(['block', 'block', 'unblock', 'unblock', 'base', 'goto', 'canblock', 'look', 'fset', 'fset', 'fadd', 'fcopy',
                      'fnb', 'fnb', 'fnba', 'fshift', 'fel', 'bfrom', 'bfrom', 'bfrom', 'unto', 'unto', 'unto', 'bcur', 'fdump', 'fdump',
                      'fsum', 'fget', 'fclear', 'gset', 'gblock', 'gbcur', 'gunto', 'gclear', 'gdump'])
        here = [k for k in range(4) if self.f[k] == self.cur and self.dfn[k]]
        free = [k for k in range(4) if self.f[k] in (None, self.cur)]
        LIM = 1 << 20
        if o == 'block':
            self.block()
        elif o == 'look':
            self.look()
        elif o == 'unblock' and par is not None:
            self.add('unblock')
            self.cur = par
        elif o == 'base':
            self.add('base')
            self.cur = 0
        elif o == 'goto':
            k = r.randrange(4)
            if self.f[k] is not None:
                self.add('goto', k)
                self.cur = self.f[k]
        elif o == 'canblock':
            self.add('canblock', [r.randrange(1, s + 2) if r.random() < 0.3 else r.choice(divisors(s)) for s in self.lats[self.cur]['sz']])
        elif o == 'fset' and free:
            k = r.choice(free)
            if not self.dfn[k]:
                P = 'A'
            else:
                P = r.choice('EOA')
            a, c = r.choice([1, 2, -3, 5]), r.randrange(-40, 40)
            self.add('fset', k, P, a, c)
            self.f[k], self.dfn[k] = self.cur, True
            self.big[k] = max(self.big[k], 5 * self.vol() + 40)
        elif o == 'fadd' and here:
            k = r.choice(here)
            c = r.randrange(-99, 99)
            self.add('fadd', k, r.choice('EOA'), c)
            self.big[k] += 99
        elif o == 'fcopy' and here and free:
            j, k = r.choice(here), r.choice(free)
            self.add('fcopy', k, j)
            self.f[k], self.dfn[k], self.big[k] = self.cur, True, self.big[j]
        elif o in ('fnb', 'fnba') and here:
            j = r.choice(here)
            ks = [k for k in (free if o == 'fnb' else here) if k != j]
            if not ks:
                return
            k = r.choice(ks)
            P = r.choice('EOA') if self.dfn[k] else 'A'
            if o == 'fnba' and self.big[k] + self.big[j] > LIM:
                return
            self.add(o, k, P, j, r.choice([1, -1]) * r.randrange(1, self.nd + 1))
            self.big[k] = self.big[k] + self.big[j]  if o == 'fnba' else max(self.big[k], self.big[j])
            self.f[k], self.dfn[k] = self.cur, True
        elif o == 'fshift' and here and free:
            j, k = r.choice(here), r.choice(free)
            if j != k:
                self.add('fshift', k, j, [r.randrange(-s, s + 1) for s in self.lats[self.cur]['sz']])
                self.f[k], self.dfn[k], self.big[k] = self.cur, True, self.big[j]
        elif o == 'fel' and here:
            self.add('fel', r.choice(here), r.randrange(self.vol()), r.randrange(-40, 40))
        elif o == 'bfrom':
            c = []
            for k in range(4):
                L = self.f[k] if self.f[k] is not None else self.cur
                for j in range(4):
                    if j != k and self.f[j] is not None and self.dfn[j] and (self.f[j] == L or self.f[j] == self.lats[L]['parent']):
                        c.append((k, j, L))
            if c:
                k, j, L = r.choice(c)
                self.add('bfrom', k, j)
                self.f[k], self.dfn[k], self.big[k] = L, True, self.big[j]
        elif o == 'unto':
            c = [(k, j) for k in range(4) for j in range(4) if k != j and self.f[k] is not None and self.dfn[k] and
                 self.lats[self.f[k]]['parent'] is not None and self.f[j] == self.lats[self.f[k]]['parent'] and self.dfn[j]]
            if c:
                k, j = r.choice(c)
                self.add('unto', k, j)
                self.big[j] = max(self.big[j], self.big[k])
        elif o == 'bcur':
            c = [k for k in range(4) if self.f[k] is not None and self.dfn[k] and (self.f[k] == self.cur or self.f[k] == par)]
            if c:
                k = r.choice(c)
                self.add('bcur', k)
                self.f[k] = self.cur
        elif o == 'fclear':
            k = r.randrange(4)
            self.add('fclear', k)
            self.f[k], self.dfn[k], self.big[k] = None, False, 0
        elif o in ('fdump', 'fsum', 'fget') and here:
            k = r.choice(here)
            if o == 'fdump':
                self.add('fdump', k)
            elif o == 'fsum':
                if self.big[k] * self.vol() < 1 << 21:
                    self.add('fsum', k, r.choice('EOA'))
            else:
                self.add('fget', k, r.randrange(self.vol()))
        elif not self.gauge:
            return
        elif o == 'gset':
            k = r.randrange(2)
            if self.g[k] in (None, self.cur):
                self.add('gset', k, r.choice([1, 3, -2]), r.randrange(50))
                self.g[k] = self.cur
        elif o in ('gblock', 'gunto', 'gbcur'):
            c = []
            for k in range(2):
                j = 1 - k
                L = self.g[k] if self.g[k] is not None else self.cur
                p = self.lats[L]['parent']
                two = p is not None and all(x in (1, 2) for x in self.lats[L]['b'])
                if o == 'gblock' and two and self.g[j] == p:
                    c.append((k, j, L))
                if o == 'gunto' and self.g[k] is not None and p is not None and self.g[j] == p:
                    c.append((k, j, L))
                if o == 'gbcur' and self.g[k] is not None and (self.g[k] == self.cur or par is not None and self.g[k] == par and
                                                               all(x in (1, 2) for x in self.lats[self.cur]['b'])):
                    c.append((k, j, self.cur))
            if c:
                k, j, L = r.choice(c)
                if o == 'gblock':
                    self.add('gblock', k, j)
                    self.g[k] = L
                elif o == 'gunto':
                    self.add('gunto', k, j)
                else:
                    self.add('gbcur', k)
                    self.g[k] = self.cur
        elif o == 'gclear':
            k = r.randrange(2)
            self.add('gclear', k)
            self.g[k] = None
        elif o == 'gdump':
            c = [k for k in range(2) if self.g[k] == self.cur]
            if c:
                self.add('gdump', r.choice(c))

    def end(self):
        """look at everything that is left"""
        for L in range(len(self.lats)):
            for k in range(4):
                if self.f[k] == L and self.dfn[k]:
                    self.add('goto', k)
                    self.cur = L
                    self.add('fdump', k)
                    if self.r.random() < 0.5:
                        for d in range(1, self.nd + 1):
                            self.add('nb', 'A', self.r.choice([d, -d]))
        r = self.r
        z = r.random()
        if z < 0.15:
            self.add('base')
            self.cur = 0
            self.add('unblock')
        elif z < 0.4:
            sz = self.lats[self.cur]['sz']
            b = [r.choice([1, 2, 3, 4, 5, 0, -1]) for s in sz]
            if any(x <= 0 or s % x for x, s in zip(b, sz)):
                self.add('block', b)
        elif z < 0.5:
            sz = self.lats[self.cur]['sz']
            n = r.choice([2, 3, 4, 5, -1])
            if any(n <= 0 or s % n for s in sz):
                self.add('blocki', n)
        return self.recs


def program(rng, size, steps, gauge=True):
    g = Gen(rng, size, gauge)
    for _ in range(8 * steps):
        g.step()
        if len(g.recs) >= steps:
            break
    return g.end()

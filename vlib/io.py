"""The machine of files and checkpoints: harness io, trace specification IoTrace."""
import copy, os, shutil, struct, re
from . import machine, run, fmgen
from .layouts import LAYOUTS

ERR = r'(?i)error|CRASHED AS TOLD|cannot block'
SIG = {'set': 'k a b', 'clear': 'k', 'dump': 'k', 'nbr': 'k d', 'write': 'k f', 'writet': 'k f p', 'read': 'k f', 'wfields': 'f *ks',
       'rfields': 'f *ks', 'so': 'f', 'sw': 'k', 'swg': 'k', 'sws': 'k lo hi mode', 'sc': '', 'ro': 'f', 'rr': 'k', 'rin': 'k src', 'rg': 'k',
       'rc': '', 'gset': 'k a b', 'gneed': 'k a b', 'gclear': 'k', 'gdump': 'k', 'gwrite': 'k f', 'gread': 'k f', 'cwrite': 'k f', 'cread': 'k f',
       'sub': 'k f lo hi mode p', 'slice': 'k f sl mode p', 'bytes': 'f', 'text': 'f', 'trunc': 'f n', 'poke': 'f i v', 'ren': 'f g',
       'del': 'f', 'blk': 'v', 'unb': '', 'ckpt': 'k f n tr keep crash', 'rest': 'k f n', 'status': '', 'edit': 'n', 'dels': '',
       'seed': 's', 'draw': ''}
READS = ['read', 'rfields', 'ro', 'rc', 'gread', 'cread', 'rest', 'ckpt', 'blk']
OM = machine.Machine('io', SIG, ['dump', 'nbr', 'gdump', 'bytes', 'text', 'status', 'draw'] + READS, blocks=['draw'],
                     stops={k: ERR + ('|Finishing' if k == 'ckpt' else '') for k in READS})
op = OM.op
KIND = {'int': ('i', 1), 'dbl': ('d', 1), 'cpx': ('d', 2), 'v3f': ('f', 3), 'm2c': ('f', 8)}
TYPES = list(KIND)


def fname(f):
    return 'f%d%s' % (f % 10, '.prev' if f >= 10 else '')


def content(p):
    if not os.path.exists(p):
        return [-1]
    b = open(p, 'rb').read()
    return [len(b)] + list(struct.unpack('<%di' % (len(b) // 4), b[:len(b) // 4 * 4]))


def status(p):
    if not os.path.exists(p):
        return [0, -1, -1, 0]
    s = open(p).read()
    v = {}
    for l in s.split('\n'):
        w = l.split()
        if len(w) > 1 and re.fullmatch(r'[0-9]+', w[1]):
            v[w[0]] = int(w[1])
    return [1, v.get('trajectories', -1), v.get('trajectory', -1), int('seed' in v)]


class Scenario(machine.Scenario):
    """runs of the program (records restart between them: t, sz, np, variant) that share their files"""
    M = OM

    def start(self):
        return dict(op='start', t=self.typ, sz=list(self.size), np=self.np)

    def execute(self, exes, timeout=60):
        parts, heads = [[]], [None]
        for r in self.recs:
            if r['op'] == 'restart':
                parts.append([])
                heads.append(r)
            else:
                parts[-1].append(r)
        top = run.scratch()
        tr = []
        try:
            for k, p in enumerate(parts):
                h = heads[k]
                s = Part(self.variant, self.np, self.typ, self.size, p, env=self.env)
                if h:
                    s = Part(h['variant'], h['np'], h['t'], h['sz'], p, env=self.env)
                s.files = top
                s.prog = self.prog
                t, problem = s.execute(exes, timeout)
                if h:
                    t[0]['op'] = 'restart'
                tr += t
                if problem:
                    return tr, 'run %d: %s' % (k + 1, problem)
                if t[-1]['op'] == 'ckpt' and t[-1]['obs'] == [] and t[-1]['crash'] >= 0:
                    f = top + '/' + fname(t[-1]['f'])
                    t[-1]['disk'] = [content(f), content(f + '.prev'), status(top + '/run_status')]
            return tr, None
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def script(self):
        return '\n'.join('restart %s %d %s %s' % (r['variant'], r['np'], r['t'], r['sz']) if r['op'] == 'restart' else self.M.line(r)
                         for r in self.recs) + '\n'


class Part(machine.Scenario):
    """one run"""
    M = OM
    rc0 = True          # input stops with exit code 0

    def start(self):
        return dict(op='start', t=self.typ, sz=list(self.size), np=self.np)

    def prepare(self, d):
        for f in os.listdir(self.files):
            shutil.copy(self.files + '/' + f, d)

    def leave(self, d):
        for f in os.listdir(self.files):
            os.unlink(self.files + '/' + f)
        for f in os.listdir(d):
            if re.fullmatch(r'f[0-9](\.prev)?|run_status', f):
                shutil.copy(d + '/' + f, self.files)


def words(t):
    k, n = KIND[t]
    return n * (2 if k == 'd' else 1)


def vol(sz):
    return fmgen.prod(sz)


class Gen:
    """random programs; knows the lengths of the files and which data are numbers"""

    def __init__(self, rng, variants, maxvol, typ=None):
        self.r = rng
        self.W = variants
        v = rng.choice(variants)
        self.nd = int(v[1])
        np, size = fmgen.pick(rng, v, None, maxvol)
        self.v0, self.np0, self.size0 = v, np, list(size)
        self.typ0 = typ or rng.choice(TYPES)
        self.maxvol = maxvol
        self.recs = []
        self.files = {}     # f -> dict(kind 'bin' 'txt', n words, seg [(type, words)], cfg)
        self.run(v, np, self.size0, self.typ0)

    def run(self, v, np, size, typ):
        self.v, self.np, self.size, self.typ = v, np, list(size), typ
        self.lat = [list(size)]
        self.fs = {}        # k -> dict(sz, clean)
        self.gs = {}        # k -> sz

    def add(self, name, *a, **kw):
        self.recs.append(op(name, *a, **kw))

    def restart(self, same=0.6, typ=0.9):
        r = self.r
        size = self.size0
        if r.random() > same:
            size = [s * r.choice([1, 1, 2]) for s in self.size0]
            if r.random() < 0.3:
                size = [s // 2 if s % 2 == 0 and s > 2 and r.random() < 0.4 else s for s in size]
        t = self.typ0 if r.random() < typ else r.choice(TYPES)
        c = []
        for v in self.W:
            if int(v[1]) == self.nd:
                for np, sizes in LAYOUTS[v[:2]].items():
                    if tuple(size) in sizes:
                        c.append((v, np, size))
        if not c or vol(size) > self.maxvol:
            c = [(v, np, s) for v in self.W if int(v[1]) == self.nd for np, ss in LAYOUTS[v[:2]].items() for s in ss if list(s) == self.size0]
        v, np, size = r.choice(c)
        self.run(v, np, size, t)
        self.recs.append(dict(op='restart', t=t, sz=list(size), np=np, variant=v))

    # ---- pieces
    def t(self, k):
        return self.typ if k < 3 else 'int'

    def cur(self):
        return self.lat[-1]

    def nfield(self, k):
        return vol(self.fs[k]['sz'] if k in self.fs else self.cur()) * words(self.t(k))

    def field(self, clean=False):
        """a field that exists"""
        r = self.r
        c = [k for k in self.fs if not clean or self.fs[k]['clean']]
        if c and r.random() < 0.75:
            return r.choice(c)
        k = r.randrange(5)
        self.set(k)
        return k

    def set(self, k):
        r = self.r
        b = r.choice([1, 1, 2, 3, 17])
        self.add('set', k, r.choice([1, 5, 100, r.randrange(1, 9000)]), b)
        self.fs[k] = dict(sz=list(self.cur()), clean=True)

    def gauge(self):
        r = self.r
        if self.gs and r.random() < 0.7:
            return r.choice(list(self.gs))
        k = r.randrange(2)
        self.gset(k)
        return k

    def gset(self, k):
        self.add('gset', k, self.r.randrange(1, 5000), self.r.choice([1, 1, 3]))
        self.gs[k] = list(self.cur())

    def newfile(self, f, seg, kind='bin', cfg=None):
        self.files[f] = dict(kind=kind, n=sum(n for _, n in seg), seg=seg, cfg=cfg)

    def look(self, k):
        r = self.r
        self.add('dump', k)
        if r.random() < 0.3:
            self.add('nbr', k, r.choice([1, -1]) * r.randrange(1, self.nd + 1))

    def box(self, sz):
        r = self.r
        lo, hi = [], []
        for L in sz:
            a = r.randrange(L)
            z = r.random()
            lo.append(0 if z < 0.3 else a)
            hi.append(L - 1 if z < 0.4 else r.randrange(lo[-1], L))
        return lo, hi

    def clean_after(self, k, f, off=0):
        t = self.t(k)
        o = 0
        for (u, n) in self.files[f]['seg']:
            if o == off:
                return u == t and n == self.nfield(k)
            o += n
        return False

    def seg(self, k):
        return (self.t(k) if self.fs[k]['clean'] else '?', self.nfield(k))

    # ---- one operation; returns True if the program may end with it
    def step(self):
        r = self.r
        z = r.random()
        f = r.randrange(6)
        bins = [x for x in self.files if self.files[x]['kind'] == 'bin']
        if z < 0.08:
            self.set(r.randrange(5))
        elif z < 0.10 and self.fs:
            k = r.choice(list(self.fs))
            self.add('clear', k)
            del self.fs[k]
        elif z < 0.22:
            k = self.field()
            self.add('write', k, f)
            self.newfile(f, [self.seg(k)])
            if r.random() < 0.4:
                self.add('bytes', f)
        elif z < 0.28:
            k = self.field(True)
            self.add('writet', k, f, r.choice([3, 4, 6, 8, 8, 10]))
            self.newfile(f, [], 'txt')
            self.add('text', f)
        elif z < 0.36:
            ks = [self.field() for _ in range(r.choice([1, 2, 2, 3]))]
            self.add('wfields', f, ks)
            self.newfile(f, [self.seg(k) for k in ks])
            if r.random() < 0.3:
                self.add('bytes', f)
        elif z < 0.48 and bins:
            f = r.choice(bins)
            k = r.randrange(5)
            self.add('read', k, f)
            ok = self.files[f]['n'] >= self.nfield(k)
            if not ok:
                return True
            c = self.clean_after(k, f)
            self.fs[k] = dict(sz=list(self.fs[k]['sz'] if k in self.fs else self.cur()), clean=c)
            self.look(k)
        elif z < 0.55 and bins:
            f = r.choice(bins)
            ks = r.sample(range(5), r.choice([1, 2, 2, 3]))
            n = 0
            cl = []
            for k in ks:
                cl.append(self.clean_after(k, f, n))
                n += self.nfield(k)
            if n > self.files[f]['n'] and r.random() < 0.7:
                return False
            self.add('rfields', f, ks)
            if n > self.files[f]['n']:
                return True
            for k, c in zip(ks, cl):
                self.fs[k] = dict(sz=list(self.fs[k]['sz'] if k in self.fs else self.cur()), clean=c)
                self.look(k)
        elif z < 0.63:
            seg = []
            self.add('so', f)
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                z = r.random()
                if z < 0.6:
                    k = self.field()
                    self.add('sw', k)
                    seg.append(self.seg(k))
                elif z < 0.8:
                    k = self.gauge()
                    self.add('swg', k)
                    seg += [(self.typ, vol(self.gs[k]) * words(self.typ))] * self.nd
                else:
                    k = self.field(True)
                    lo, hi = self.box(self.fs[k]['sz'])
                    mode = r.choice([1, 2])
                    self.add('sws', k, lo, hi, mode)
                    n = vol([b - a + 1 for a, b in zip(lo, hi)])
                    seg.append(('?', n * (words(self.t(k)) if mode == 1 else KIND[self.t(k)][1])))
            self.add('sc')
            self.newfile(f, seg)
            if r.random() < 0.5:
                self.add('bytes', f)
        elif z < 0.72 and bins:
            f = r.choice(bins)
            self.add('ro', f)
            pos = 0
            n = self.files[f]['n']
            todo = []
            for _ in range(r.choice([1, 2, 3])):
                z = r.random()
                if z < 0.5:
                    k = r.randrange(5)
                    m = self.nfield(k)
                    c = self.clean_after(k, f, pos)
                    self.add('rr', k)
                elif z < 0.75:
                    k = r.randrange(5)
                    sz = self.fs[k]['sz'] if k in self.fs else self.cur()
                    src = [r.choice([d for d in range(1, L + 1) if L % d == 0]) for L in sz]
                    m = vol(src) * words(self.t(k))
                    c = False
                    self.add('rin', k, src)
                else:
                    k = -1 - r.randrange(2)
                    m = vol(self.gs.get(-1 - k, self.cur())) * words(self.typ) * self.nd
                    self.add('rg', -1 - k)
                if pos + m > n and r.random() < 0.7:
                    self.recs.pop()
                    continue
                pos += m
                if pos > n:
                    break
                if k >= 0:
                    self.fs[k] = dict(sz=list(self.fs[k]['sz'] if k in self.fs else self.cur()), clean=c)
                else:
                    self.gs[-1 - k] = list(self.gs.get(-1 - k, self.cur()))
                todo.append(k)
            self.add('rc')
            if pos > n:
                return True
            for k in todo:
                if k >= 0:
                    self.look(k)
                else:
                    self.add('gdump', -1 - k)
        elif z < 0.76:
            k = self.gauge()
            self.add('gwrite', k, f)
            self.newfile(f, [(self.typ, vol(self.gs[k]) * words(self.typ))] * self.nd)
            if r.random() < 0.3:
                self.add('bytes', f)
        elif z < 0.79 and bins:
            f = r.choice(bins)
            k = r.randrange(2)
            n = vol(self.gs.get(k, self.cur())) * words(self.typ) * self.nd
            if n > self.files[f]['n'] and r.random() < 0.7:
                return False
            self.add('gread', k, f)
            if n > self.files[f]['n']:
                return True
            self.gs[k] = list(self.gs.get(k, self.cur()))
            self.add('gdump', k)
        elif z < 0.84:
            k = self.gauge()
            self.cwrite(k, f)
            if r.random() < 0.4:
                self.add('bytes', f)
        elif z < 0.91:
            return self.cread()
        elif z < 0.97:
            k = self.field(True)
            mode = r.choice([0, 0, 1, 2])
            if r.random() < 0.6:
                lo, hi = self.box(self.fs[k]['sz'])
                self.add('sub', k, f, lo, hi, mode, r.choice([3, 6, 8, 10]))
            else:
                self.add('slice', k, f, [r.choice([-1, -1, r.randrange(L)]) for L in self.fs[k]['sz']], mode, r.choice([3, 6, 8, 10]))
            self.add('text' if mode == 0 else 'bytes', f)
            if f in self.files:
                del self.files[f]
        elif z < 0.985:
            v = [r.choice([1, 2]) if L % (2 * self.np) == 0 and L > 2 else 1 for L in self.cur()]
            if len(self.lat) == 1 and max(v) > 1 and self.np in (1, 2, 4) and self.v[0] != 'a':
                self.add('blk', v)
                self.lat.append([a // b for a, b in zip(self.cur(), v)])
                for k in r.sample(range(5), 2):
                    if k not in self.fs:
                        self.set(k)
        elif len(self.lat) > 1:
            self.add('unb')
            self.lat.pop()
        return False

    def cwrite(self, k, f):
        self.add('cwrite', k, f)
        n = vol(self.gs[k]) * words(self.typ) * self.nd + 6 + 2 * self.nd
        self.newfile(f, [('?', n)], cfg=(self.typ, list(self.gs[k])))

    def cread(self, damage=0.45):
        r = self.r
        c = [f for f in self.files if self.files[f]['cfg']]
        if not c or r.random() < 0.05:
            c = [f for f in self.files if self.files[f]['kind'] == 'bin']
        if not c:
            return False
        f = r.choice(c)
        cfg = self.files[f]['cfg']
        k = r.randrange(2)
        n = self.files[f]['n']
        bad = r.random() < damage and n > 6 + 2 * self.nd
        if bad:
            z = r.random()
            if z < 0.5:
                i = r.randrange(6 + 2 * self.nd)
                sz = (cfg or (0, self.cur()))[1]
                old = sz[(i - 6) // 2] if i >= 6 and i % 2 == 0 else 0
                v = r.choice([0, 1, -1, 2, old * 2, old + 1, -old, max(old // 2, 1), 394824242, 1 << 20])
                self.add('poke', f, i, v)
            else:
                m = r.choice([4 * n - 1, 4 * n - 4, 4 * n - 8, 2 * n, 4 * (6 + 2 * self.nd), 4 * (6 + 2 * self.nd) - 1, 3, 0, r.randrange(4 * n)])
                m = max(0, min(m, 4 * n))
                self.add('trunc', f, m)
                self.files[f]['n'] = m // 4
                self.files[f]['seg'] = [('?', m // 4)]
            self.files[f]['cfg'] = None
        elif r.random() < 0.03:
            self.add('cread', k, r.choice([x for x in range(6) if x not in self.files] or [f]))
            return True
        self.add('cread', k, f)
        self.gs[k] = list(self.gs.get(k, self.cur()))
        self.add('gdump', k)
        doubtful = bad or cfg is None or cfg[0] != self.typ or any(a % b for a, b in zip(self.gs[k], cfg[1]))
        if r.random() < 0.3 and not doubtful:
            self.add('cwrite', k, f)
            self.add('bytes', f)
            self.newfile(f, [('?', vol(self.gs[k]) * words(self.typ) * self.nd + 6 + 2 * self.nd)], cfg=(self.typ, list(self.gs[k])))
        return doubtful

    def program(self, parts, steps):
        for i in range(parts):
            if i:
                self.restart()
            n = self.r.randrange(1, steps + 1)
            for _ in range(n):
                if self.step():
                    break
            else:
                for k in list(self.fs)[:2]:
                    self.add('dump', k)
        return Scenario(self.v0, self.np0, self.typ0, self.size0, self.recs)


def checkpoints(rng, variants, maxvol, parts):
    """a history of runs that stop, crash and resume"""
    g = Gen(rng, variants, maxvol, rng.choice(['int', 'dbl', 'm2c', 'm2c', 'v3f', 'cpx']))
    r = rng
    f = r.choice([0, 0, 1])
    tr = r.choice([-8, 0, 1, 2, 999990])
    n = r.randrange(10, 500)
    keep = r.choice([1, 1, 1, 0])
    crashed = False
    if r.random() < 0.2:        # a configuration to begin with
        g.gset(0)
        g.add('cwrite', 0, f)
    for part in range(parts):
        if part:
            g.restart(0.9, 0.97)
            if r.random() < 0.5:
                for o in r.sample(['bytes', 'prev', 'status'], 2):
                    if o == 'status':
                        g.add('status')
                    else:
                        g.add('bytes', f + (10 if o == 'prev' else 0))
            if crashed and r.random() < 0.7:
                z = r.random()
                if z < 0.6:
                    g.add('ren', f + 10, f)
                if z > 0.4:
                    g.add('dels')
            elif r.random() < 0.3:
                n = r.randrange(10, 500)
                g.add('edit', n)
            elif r.random() < 0.1:
                g.add('dels')
        g.add('seed', r.randrange(1, 1000))
        k = r.randrange(2)
        if r.random() < 0.3:
            g.gset(k)           # is to be overwritten
        if part or r.random() < 0.3:
            if r.random() < 0.4:
                n = r.randrange(10, 500)
            g.add('rest', k, f, n)
            if r.random() < 0.5:
                g.add('draw')
                if r.random() < 0.5:
                    g.add('draw')
            if r.random() < 0.6:
                g.add('gdump', k) if part else g.gset(k)
        if r.random() < 0.5:
            g.gset(k)
        else:
            g.add('gneed', k, r.randrange(1, 5000), 1)
        crashed = False
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            tr = max(0, tr + r.randrange(2, 9))
            z = r.random()
            if z < 0.45 and part < parts - 1:
                crashed = True
            if r.random() < 0.3:
                n = r.randrange(10, 500)
            if r.random() < 0.1:
                g.add('edit', r.randrange(10, 500))
            g.add('ckpt', k, f, n, tr, keep if r.random() < 0.9 else 1 - keep, r.randrange(12) if crashed else -1)
            if crashed:
                break
            z = r.random()
            if z < 0.3:
                g.add('status')
            elif z < 0.4:
                g.add('bytes', f)
            elif z < 0.5:
                g.add('bytes', f + 10)
            if r.random() < 0.3:
                g.add('rest', k, f, n)
                g.add('gdump', k)
                if r.random() < 0.5:
                    g.add('draw')
            if r.random() < 0.7:
                g.gset(k)
    return Scenario(g.v0, g.np0, g.typ0, g.size0, g.recs)

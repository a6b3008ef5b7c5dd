"""Site loops: random loop bodies as C++ for hilapp and as syntax trees for spec/LoopTrace.tla, from one generator."""
import os, random
from . import machine

INBOUND = 120       # |values| of fields, constants before a kernel
LIM = dict(int=1 << 26, dbl=1 << 26, flt=1 << 21)
CTYPE = dict(int='int', dbl='double', flt='float')
VOL = 200


def N(v):
    return dict(k='num', v=v)


class K:
    """one kernel"""

    def __init__(self, rng, typ, nd, avx, funcs, refs, idx):
        self.r, self.typ, self.nd, self.avx, self.funcs, self.refs, self.idx = rng, typ, nd, avx, funcs, refs, idx
        self.lim = LIM[typ]
        self.nvar = 0
        self.vars = []              # (name, bound) of value variables in scope
        self.dirs = [('dd', True)]  # direction variables in scope: (name, may be negative)
        self.reads, self.writes, self.nbs, self.used = set(), set(), set(), set()
        self.fb = [INBOUND] * 4     # bound of own-site values
        self.sb = [0, 0]
        self.branch = rng.random() < (0.35 if avx else 0.7)     # with conditionals
        self.coords = rng.random() < (0.3 if avx else 0.6)
        self.selfnb = rng.random() < 0.25                       # neighbours of a field that is written: EVEN or ODD loops
        fs = [0, 1, 2, 3]
        rng.shuffle(fs)
        nw = rng.choice([1, 1, 2, 2, 3])
        self.W, self.R = fs[:nw], fs[nw:]
        self.depth = 0
        self.inloop = 0
        self.scale = 1

    # ------------------------------------------------------------ expressions: (C++, tree, bound)
    def leaf(self):
        r = self.r
        for _ in range(20):
            z = r.random()
            if z < 0.15:
                v = r.randrange(0, 6)
                return str(v), N(v), v
            if z < 0.3 and self.vars:
                n, b = r.choice(self.vars)
                return n, dict(k='var', n=n), b
            if z < 0.4:
                i = r.randrange(3)
                return 'c%d' % i, dict(k='ext', i=i + 1), INBOUND
            if z < 0.45:
                return 'ca[%d]' % (i := r.randrange(4)), dict(k='ca', i=N(i)), INBOUND
            if z < 0.49 and self.coords and not self.avx:
                d = r.randrange(self.nd)
                return 'ca[X.coordinate(Direction(%d)) %% 4]' % d, dict(k='ca', i=dict(k='mod', a=dict(k='co', d=d + 1), m=4)), INBOUND
            if z < 0.58 and self.coords:
                d = r.randrange(self.nd)
                t = dict(k='co', d=d + 1)
                return r.choice([('X.coordinate(%s)' % 'e_x e_y e_z e_t'.split()[d], t, 16), ('X.coordinates()[%d]' % d, t, 16),
                                 ('(X.%s() %% 3)' % 'xyzt'[d], dict(k='mod', a=t, m=3), 2)])
            if z < 0.75:
                f = r.randrange(4)
                if f in self.W and not (self.selfnb or r.random() < 0.5):
                    continue
                self.used.add(f)
                return '%s[X]' % 'ABCD'[f], dict(k='fld', f=f + 1), self.fb[f]
            f = r.choice(self.W) if self.selfnb and r.random() < 0.4 else (r.choice(self.R) if self.R else None)
            if f is None:
                continue
            self.used.add(f)
            self.nbs.add(f)
            if r.random() < 0.65:
                d = r.randrange(self.nd)
                s = r.choice([1, -1])
                return '%s[X %s %s]' % ('ABCD'[f], '+' if s > 0 else '-', 'e_x e_y e_z e_t'.split()[d]), \
                    dict(k='nb', f=f + 1, d=(d + 1) * s), INBOUND
            n, neg = r.choice(self.dirs)
            s = r.choice([1, -1])
            return '%s[X %s %s]' % ('ABCD'[f], '+' if s > 0 else '-', n), dict(k='nbv', f=f + 1, n=n, s=s), INBOUND
        return '1', N(1), 1

    def expr(self, dep=2, lim=None):
        r = self.r
        lim = lim or self.lim // 64
        if dep == 0 or r.random() < 0.15:
            return self.leaf()
        z = r.random()
        if z < 0.1 and self.funcs:
            f = r.choice([f for f in self.funcs if not f['branch'] or self.branch and not self.avx] or [None])
            if f:
                args = [self.expr(dep - 1, lim) for _ in f['params']]
                b = f['bound']([a[2] for a in args])
                if b <= lim:
                    # arguments of a template of the element type
                    return '%s(%s)' % (f['name'], ', '.join('T(%s)' % a[0] if not self.avx else self.typed(a) for a in args)), \
                        dict(k='call', f=f['name'], a=[a[1] for a in args]), b
        if z < 0.18 and self.branch and not self.avx:
            c, t = self.cond(1)
            a, b = self.expr(dep - 1, lim), self.expr(dep - 1, lim)
            return '((%s) ? T(%s) : T(%s))' % (c, a[0], b[0]), dict(k='tern', c=t, a=a[1], b=b[1]), max(a[2], b[2])
        if z < 0.25:
            a = self.expr(dep - 1, lim)
            return '(-%s)' % a[0], dict(k='sub', a=N(0), b=a[1]), a[2]
        op = r.choice('++-*')
        a, b = self.expr(dep - 1, lim), self.expr(dep - 1, lim)
        bd = a[2] * b[2] if op == '*' else a[2] + b[2]
        if bd > lim:
            return a
        return '(%s %s %s)' % (a[0], op, b[0]), dict(k={'+': 'add', '-': 'sub', '*': 'mul'}[op], a=a[1], b=b[1]), bd

    def typed(self, a):
        """vectorized calls: the argument must have the element type; mention a field"""
        f = self.r.choice(self.R or self.W)
        self.used.add(f)
        return '(%s + 0 * %s[X])' % (a[0], 'ABCD'[f])

    def cond(self, dep=1):
        r = self.r
        z = r.random()
        if dep and z < 0.2:
            a, b = self.cond(0), self.cond(0)
            o = r.choice(['&&', '||'])
            return '(%s %s %s)' % (a[0], o, b[0]), dict(k='and' if o == '&&' else 'or', a=a[1], b=b[1])
        if dep and z < 0.27:
            a = self.cond(0)
            return '!(%s)' % a[0], dict(k='not', a=a[1])
        if z < 0.4 and self.coords:
            o = r.choice(['==', '!='])
            p = r.choice(['EVEN', 'ODD'])
            t = dict(k='even')
            return 'X.parity() %s %s' % (o, p), t if (o == '==') == (p == 'EVEN') else dict(k='not', a=t)
        if z < 0.5:
            return 'n > %d' % (m := r.randrange(4)), dict(k='lt', a=N(m), b=dict(k='n'))
        a, b = self.expr(1), self.leaf()
        o = r.choice(['<', '>', '==', '<='])
        A, B = a[1], b[1]
        t = {'<': dict(k='lt', a=A, b=B), '>': dict(k='lt', a=B, b=A), '==': dict(k='eq', a=A, b=B),
             '<=': dict(k='not', a=dict(k='lt', a=B, b=A))}[o]
        return '%s %s %s' % (a[0], o, b[0]), t

    # ------------------------------------------------------------ statements: (lines, tree)
    def target(self, f, op, e):
        """new bound of field f (inside loops the body runs several times)"""
        b = self.fb[f]
        if op == '=':
            return max(b, e[2]) if self.depth or self.inloop else e[2]
        if op in ('+=', '-='):
            return b + e[2] * self.scale
        return None

    def assign(self):
        r = self.r
        z = r.random()
        if z < 0.18 and self.vars and any(n[0] == 'v' for n, _ in self.vars):
            i = r.choice([i for i, (n, _) in enumerate(self.vars) if n[0] == 'v'])
            n, b = self.vars[i]
            op = r.choice(['=', '+=', '-='])
            e = self.expr(2, self.lim // 4096)
            nb = (max(b, e[2]) if op == '=' else b + e[2] * self.scale)
            if nb > self.lim // 512:
                return None
            self.vars[i] = (n, nb)
            return ['%s %s %s;' % (n, op, e[0])], dict(k='asgv', n=n, o=op, e=e[1])
        if z < 0.3:
            i = r.randrange(2)
            op = '+='
            e = self.expr(2, self.lim // 4096)
            nb = self.sb[i] + e[2] * self.scale
            if nb * VOL > self.lim * 4:
                return None
            self.sb[i] = nb
            return ['s%d %s %s;' % (i, op, e[0])], dict(k='sum', i=i + 1, o=op, e=e[1])
        f = r.choice(self.W)
        if z < 0.42 and self.refs:
            g = r.choice(self.refs)
            e = self.leaf()
            b = g['bound'](self.fb[f], e[2])
            if b * (1 if not self.inloop else 64) > self.lim // 16 or (self.inloop and g['grows']):
                return None
            self.fb[f] = max(b, self.fb[f])
            self.used.add(f)
            self.writes.add(f)
            arg = 'T(%s)' % e[0] if not self.avx else self.typed(e)
            return ['%s(%s[X], %s);' % (g['name'], 'ABCD'[f], arg)], dict(k='ref', g=g['name'], f=f + 1, e=e[1])
        op = r.choice(['=', '=', '=', '+=', '-='])
        e = self.expr(3 if r.random() < 0.4 else 2, self.lim // 64 if not self.inloop else self.lim // 4096)
        b = self.target(f, op, e)
        if b > self.lim // 4:
            return None
        self.fb[f] = b
        self.used.add(f)
        self.writes.add(f)
        return ['%s[X] %s %s;' % ('ABCD'[f], op, e[0])], dict(k='asgf', f=f + 1, o=op, e=e[1])

    def block(self, n):
        nv, ndr = len(self.vars), len(self.dirs)
        lines, tree = [], []
        for _ in range(n):
            s = self.stmt()
            if s:
                lines += s[0]
                tree.append(s[1])
        if not tree:
            s = ['s0 += 1;'], dict(k='sum', i=1, o='+=', e=N(1))
            self.sb[0] += self.scale
            lines, tree = s[0], [s[1]]
        del self.vars[nv:]
        del self.dirs[ndr:]
        return ['    ' + l for l in lines], tree

    def stmt(self):
        r = self.r
        z = r.random()
        if z < 0.2:
            e = self.expr(2, self.lim // 4096)
            n = 'v%d' % self.nvar
            self.nvar += 1
            l = ['T %s = %s;' % (n, e[0])]
            if self.avx:    # a site dependent variable gets the vector type if its initializer shows it
                pass
            self.vars.append((n, e[2]))
            return l, dict(k='decl', n=n, e=e[1])
        if z < 0.36 and self.branch and self.depth < 2:
            c, t = self.cond()
            self.depth += 1
            a = self.block(r.choice([1, 1, 2]))
            lines = ['if (%s) {' % c] + a[0]
            b = ([], [])
            if r.random() < 0.5:
                b = self.block(r.choice([1, 1, 2]))
                lines += ['} else {'] + b[0]
            self.depth -= 1
            return lines + ['}'], {'k': 'if', 'c': t, 'a': a[1], 'b': b[1]}
        if z < 0.48 and not self.inloop:
            # for or foralldir
            self.depth += 1
            self.inloop += 1
            if r.random() < 0.5:
                n = 'd%d' % self.nvar
                self.nvar += 1
                self.dirs.append((n, False))
                sc, self.scale = self.scale, self.scale * self.nd
                a = self.block(r.choice([1, 2]))
                self.dirs = [x for x in self.dirs if x[0] != n]
                self.scale = sc
                res = ['foralldir(%s) {' % n] + a[0] + ['}'], dict(k='dirs', n=n, a=a[1])
            else:
                n = 'i%d' % self.nvar
                self.nvar += 1
                cnt = r.choice([N(2), N(3), dict(k='n')])
                sc, self.scale = self.scale, self.scale * 4
                self.vars.append((n, 3))
                a = self.block(r.choice([1, 2]))
                lines, tree = list(a[0]), list(a[1])
                if self.branch and not self.avx and r.random() < 0.4:
                    c, t = self.cond(0)
                    w = r.choice(['break', 'continue'])
                    lines = ['    if (%s) %s;' % (c, w)] + lines if r.random() < 0.6 else lines + ['    if (%s) %s;' % (c, w)]
                    st = {'k': 'if', 'c': t, 'a': [dict(k=w)], 'b': []}
                    tree = [st] + tree if lines[0].startswith('    if (%s) %s' % (c, w)) and lines[0] != a[0][0] else tree + [st]
                self.vars = [x for x in self.vars if x[0] != n]
                self.scale = sc
                ct = '3' if cnt == N(3) else ('2' if cnt == N(2) else 'n')
                res = ['for (int %s = 0; %s < %s; %s++) {' % (n, n, ct, n)] + lines + ['}'], dict(k='for', n=n, c=cnt, a=tree)
            self.depth -= 1
            self.inloop -= 1
            return res
        return self.assign()

    def make(self):
        r = self.r
        form = r.choice(['sites', 'sites', 'sites', 'expr'])
        if form == 'expr':
            self.W = self.W[:1]
            f = self.W[0]
            self.R = [x for x in range(4) if x != f]
            op = r.choice(['=', '=', '+=', '-='])
            e = self.expr(3)
            b = self.target(f, op, e)
            self.fb[f] = b
            self.used.add(f)
            self.writes.add(f)
            body = [('', '%s[@] %s %s;' % ('ABCD'[f], op, e[0]))]
            tree = [dict(k='asgf', f=f + 1, o=op, e=e[1])]
        else:
            lines, tree = self.block(r.choice([1, 2, 3, 4, 5]))
            body = [('', 'onsites(@) {')] + [('', l) for l in lines] + [('', '}')]
        overlap = self.nbs & self.writes
        if overlap:
            P = r.choice(['EVEN', 'ODD', 'M.par'])
        else:
            P = r.choice(['EVEN', 'ODD', 'ALL', 'ALL', 'M.par'])
        name = 'kern%d' % self.idx
        tmpl = r.random() < 0.3
        L = []
        args = sorted(self.used | self.writes)
        if tmpl:
            L += ['template <typename T>', 'void %s_t(lp::state<T> &M) {' % name]
        else:
            L += ['void %s(lp::state<T> &M) {' % name]
        txt = '\n'.join(b for _, b in body)
        for f in args:
            L.append('    Field<T> &%s = M.F[%d];' % ('ABCD'[f], f))
        import re
        for i in range(3):
            if re.search(r'\bc%d\b' % i, txt):
                L.append('    T c%d = M.c[%d];' % (i, i))
        if 'ca[' in txt:
            L.append('    T ca[4] = {M.ca[0], M.ca[1], M.ca[2], M.ca[3]};')
        if re.search(r'\bn\b', txt):
            L.append('    int n = M.n;')
        if re.search(r'\bdd\b', txt):
            L.append('    Direction dd = M.dd;')
        for i in range(2):
            if re.search(r'\bs%d\b' % i, txt):
                L.append('    T s%d = M.s[%d];' % (i, i))
        if P == 'M.par':
            L.append('    Parity par = M.par;')
        L += ['    ' + l for l in txt.replace('@', P if P != 'M.par' else 'par').split('\n')]
        for i in range(2):
            if re.search(r'\bs%d\b' % i, txt):
                L.append('    M.s[%d] = s%d;' % (i, i))
        L.append('}')
        if tmpl:
            L += ['void %s(lp::state<T> &M) {' % name, '    %s_t<T>(M);' % name, '}']
        return dict(src='\n'.join(L), tree=tree, par=P, overlap=bool(overlap), out=self.fb, writes=sorted(self.writes), used=args,
                    sums=self.sb)


FUNCS = [
    dict(name='h_lin', params=['a', 'b'], body=[], ret=dict(k='sub', a=dict(k='mul', a=N(2), b=dict(k='var', n='a')), b=dict(k='var', n='b')),
         src='inline S h_lin(S a, S b) {\n    return 2 * a - b;\n}', branch=False, bound=lambda b: 2 * b[0] + b[1], tmpl=True),
    dict(name='h_loc', params=['a'], body=[dict(k='decl', n='r', e=dict(k='add', a=dict(k='var', n='a'), b=N(3))),
                                          dict(k='asgv', n='r', o='+=', e=dict(k='var', n='a'))],
         ret=dict(k='var', n='r'), src='inline S h_loc(const S a) {\n    S r = a + 3;\n    r += a;\n    return r;\n}', branch=False,
         bound=lambda b: 2 * b[0] + 3, tmpl=True),
    dict(name='h_max', params=['a', 'b'], body=[dict(k='decl', n='r', e=dict(k='var', n='a')),
                                               {'k': 'if', 'c': dict(k='lt', a=dict(k='var', n='a'), b=dict(k='var', n='b')),
                                                'a': [dict(k='asgv', n='r', o='=', e=dict(k='var', n='b'))], 'b': []}],
         ret=dict(k='var', n='r'), src='inline S h_max(S a, const S &b) {\n    S r = a;\n    if (a < b)\n        r = b;\n    return r;\n}', branch=True,
         bound=lambda b: max(b), tmpl=True),
    dict(name='h_cnt', params=['a'], body=[dict(k='decl', n='r', e=N(0)),
                                          dict(k='for', n='i', c=N(3), a=[dict(k='asgv', n='r', o='+=', e=dict(k='mul', a=dict(k='var', n='a'), b=dict(k='var', n='i')))])],
         ret=dict(k='var', n='r'), src='inline S h_cnt(S a) {\n    S r = 0;\n    for (int i = 0; i < 3; i++)\n        r += a * i;\n    return r;\n}', branch=False,
         bound=lambda b: 3 * b[0], tmpl=True),
]
REFS = [
    dict(name='g_add', body=dict(k='add', a=dict(k='var', n='a'), b=dict(k='var', n='b')), src='inline void g_add(S &a, S b) {\n    a += b;\n}',
         bound=lambda a, b: a + b, grows=True),
    dict(name='g_set', body=dict(k='mul', a=dict(k='var', n='b'), b=N(2)), src='inline void g_set(out_only S &a, const S &b) {\n    a = b * 2;\n}',
         bound=lambda a, b: 2 * b, grows=False),
    dict(name='g_neg', body=dict(k='sub', a=dict(k='var', n='b'), b=dict(k='var', n='a')), src='inline void g_neg(S &a, const S b) {\n    S t = b - a;\n    a = t;\n}',
         bound=lambda a, b: a + b, grows=True),
]
DEFS = {f['name']: dict(p=f['params'], body=f['body'], ret=f['ret']) for f in FUNCS}
DEFS.update({g['name']: dict(p=['a', 'b'], body=[], ret=g['body']) for g in REFS})


def unit(seed, typ, nd, avx, count):
    """(source of the translation unit, kernels)"""
    rng = random.Random('loops/%s/%s/%d/%d' % (seed, typ, nd, avx))
    ks = []
    while len(ks) < count:
        k = K(rng, typ, nd, avx, FUNCS, REFS, len(ks)).make()
        if max(k['out']) <= LIM[typ] // 4:
            ks.append(k)
    L = ['// generated', '#include "loop.h"', 'namespace loops_%s {' % typ, 'using T = %s;' % CTYPE[typ]]
    for f in FUNCS + REFS:
        if f.get('branch') and avx:
            continue
        L += ['template <typename S>', f['src']]
    for k in ks:
        L += [k['src'], '']
    L += ['}', 'void lp_%s(const std::vector<hx::op_t> &s) {' % typ, '    std::vector<lp::kernel<%s>> k = {' % CTYPE[typ]]
    L += ['        loops_%s::kern%d,' % (typ, i) for i in range(len(ks))]
    L += ['    };', '    lp::run<%s>(s, k);' % CTYPE[typ], '}']
    return '\n'.join(L) + '\n', ks


_cache = {}


def kernels(seed, typ, nd, avx, count):
    key = (seed, typ, nd, avx, count)
    if key not in _cache:
        _cache[key] = unit(*key)
    return _cache[key][1]


def sources(prog, v):
    """prog: lp-<seed>-<count>; writes the generated sources and returns their names"""
    from . import build
    _, seed, count = prog.split('-')
    d = '%s/gen/%s-%s' % (build.B, prog, ('a' if v[0] == 'a' else 'v') + v[1])
    os.makedirs(d, exist_ok=True)
    r = []
    for t in CTYPE:
        key = (seed, t, int(v[1]), int(v[0] == 'a'), int(count))
        kernels(*key)
        p = '%s/lp_%s.cpp' % (d, t)
        src = _cache[key][0]
        if not os.path.exists(p) or open(p).read() != src:
            with open(p + '.tmp%d' % os.getpid(), 'w') as f:
                f.write(src)
            os.replace(p + '.tmp%d' % os.getpid(), p)
        r.append(p)
    return r


LPM = machine.Machine('lp', {'init': 'f a m b', 'const': 'c ca n dd', 'bc': 'f d b', 'run': 'i P s t', 'dump': 'f'}, {'run', 'dump'})
op = LPM.op


class Scenario(machine.Scenario):
    M = LPM

    def __init__(self, prog, *a, **k):
        super().__init__(*a, **k)
        self.prog = prog

    def start(self):
        return dict(op='start', sz=list(self.size), defs=DEFS)


def program(rng, prog, v, typ, size, steps):
    _, seed, count = prog.split('-')
    ks = kernels(seed, typ, int(v[1]), int(v[0] == 'a'), int(count))
    nd = len(size)
    even = all(s % 2 == 0 for s in size)
    recs = []
    bound = [10 ** 9] * 4
    cst = [0]

    def consts():
        cst[0] = rng.randrange(0, 4)
        recs.append(op('const', [rng.randrange(-20, 20) for _ in range(3)], [rng.randrange(-20, 20) for _ in range(4)], cst[0],
                       rng.choice([1, -1]) * rng.randrange(1, nd + 1)))
    consts()
    order = list(range(len(ks)))
    rng.shuffle(order)
    n = 0
    for i in order:
        k = ks[i]
        if k['overlap'] and not even:
            continue
        for f in set(k['used']) | set(k['writes']):
            if bound[f] > INBOUND or rng.random() < 0.1:
                recs.append(op('init', f, rng.choice([1, 2, -1, 3]), rng.choice([2, 5, 7, 11, 30]), rng.randrange(-20, 20)))
                bound[f] = INBOUND
        if rng.random() < 0.4:
            consts()
        if rng.random() < 0.1:
            recs.append(op('bc', rng.randrange(4), rng.randrange(1, nd + 1), rng.choice([0, 1])))
        for P in ({'EVEN': 'E', 'ODD': 'O', 'ALL': 'A'}.get(k['par']) or (rng.choice(['E', 'O', 'EO']) if k['overlap'] else rng.choice(['E', 'O', 'A', 'EO']))):
            s, t = rng.randrange(-9, 9), rng.randrange(-9, 9)
            recs.append(dict(op('run', i, P, s, t), body=k['tree'], par={'EVEN': 'E', 'ODD': 'O', 'ALL': 'A'}.get(k['par'], P)))
            for f in k['writes']:
                bound[f] = max(bound[f], k['out'][f])
            if P == 'E' and k['overlap']:
                break
        for f in k['writes']:
            recs.append(op('dump', f))
        n += 1
        if n >= steps:
            break
    return recs

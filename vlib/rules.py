"""Which loops hilapp refuses: generated loops, trace specification LoopRulesTrace."""
import os, re, shutil, subprocess
from . import build, run, machine

FIELDS = ['f', 'g', 'h']
OFFS = {'here': ['X'], 'up': ['X + e_x', 'X + e_y', 'X + e_x_down'], 'dn': ['X - e_x', 'X - e_y', 'X - e_x_down'], 'var': ['X + d', 'X + opp_dir(d)'],
        'mvar': ['X - d', 'X + (-d)'], 'cv': ['X + cv', 'X + 2 * e_x', 'X + e_x + e_y', 'X + d - e_y', 'X - cv'],
        'ldir': ['X + q', 'X - q', 'X + opp_dir(q)'], 'lcv': ['X + qv', 'X + qv + e_x', 'X - 2 * qv']}
HEAD = '''#include "hila.h"
#include <array>
double glob = 2;
Field<double> gf;
double pure(double a) { return 2 * a; }
double cref(const double &a) { return a + 1; }
double bump(double &a) { a += 1; return a; }
void setv(out_only double &a) { a = 1; }
constexpr double cglob = 3;
double usec(double a) { return a * cglob; }
template <typename T> T tpure(const T &a) { return a + usec(a); }
template <typename T> void tbump(T &a) { a = bump(a); }
'''
ENV = '''    Field<double> f = 0, g = 0, h = 0;
    Field<Vector<3, double>> w = 0;
    double s = 0, t = 1, u = 2;
    int k = 1;
    Direction d = e_x;
    Reduction<double> r;
    ReductionVector<double> rv(5);
    std::vector<double> v(5);
    double arr[5] = {1, 2, 3, 4, 5};
    std::array<double, 4> sa = {1, 2, 3, 4};
    CoordinateVector cv = 0;
    Parity p = EVEN;
    SiteSelect sel;
    Vector<3, double> ev = 0;
'''


def T(k, n='', o='here', fn='none', txt=None):
    return dict(k=k, n=n, o=o, fn=fn, txt=txt)


class Gen:
    """one loop: records and the text of its statements"""

    def __init__(self, rng, i):
        self.rng, self.i = rng, i
        self.recs, self.txt, self.pre = [], [], []
        self.locs = []
        self.has = set()
        self.depth = 0

    def term_text(self, t):
        rng = self.rng
        if t['txt']:
            x = t['txt']
        elif t['k'] == 'F':
            x = self.paren('%s[%s]' % (t['n'], rng.choice(OFFS[t['o']])))
            if t['n'] == 'w':
                x += rng.choice(['[1]', '.e(0)', '.squarenorm()'])
        else:
            x = self.paren(t['n'])
        fn = t['fn']
        if fn in ('useglob', 'static', 'usefield'):
            name = '%s_%d' % (fn, self.i)
            body = dict(useglob=rng.choice(['double b = a * glob; return b;', 'return a + glob;']),
                        static='static int n = 0; n++; return a + n;', usefield='return a + gf.is_allocated();')[fn]
            if fn not in self.has:
                self.has.add(fn)
                if rng.random() < 0.4:      # by way of another function
                    self.pre.append('double in_%s(double a) { %s }' % (name, body))
                    self.pre.append('double %s(double a) { return 1 + in_%s(a); }' % (name, name))
                else:
                    self.pre.append('double %s(double a) { %s }' % (name, body))
            x = '%s(%s)' % (name, x)
        elif fn != 'none':
            x = '%s(%s)' % (fn, x)
        return x

    def expr(self, R):
        return rng_join(self.rng, [self.term_text(t) for t in R]) if R else '1.5'

    def clean(self, R):
        return [dict(k=t['k'], n=t['n'], o=t['o'], fn=t['fn']) for t in R]

    def st(self, rec, text):
        if 'R' in rec:
            rec['R'] = self.clean(rec['R'])
        if rec['op'] == 'outer':
            rec['b'] = rec['n'][:rec['n'].index('[')] if '[' in rec['n'] else ''
        self.recs.append(rec)
        self.txt.append('    ' * (self.depth + 2) + text)

    # ---- legal pieces.  wr: fields the loop may write, rd: those it may read at neighbours
    def plan(self):
        rng = self.rng
        self.P = rng.choice('AAAEOV')
        fs = FIELDS + ['w']
        if self.P == 'A':
            self.wr = rng.sample(fs, rng.randrange(1, 3))
            self.near = [x for x in fs if x not in self.wr]
        else:
            self.wr, self.near = fs, fs
        ext = ['s', 't', 'u', 'glob']
        rng.shuffle(ext)
        self.sums, self.prods, self.reads = ext[:1], ext[1:2], ext[2:]
        self.vecsum = rng.random() < 0.5        # rv += or *=
        self.asum = rng.random() < 0.5          # elements of arrays are summed, or read

    def term(self):
        rng = self.rng
        z = rng.random()
        if z < 0.35:
            return T('F', rng.choice(FIELDS + ['w']), 'here', rng.choice(['none', 'none', 'pure', 'cref', 'usec', 'tpure']))
        if z < 0.6:
            o = rng.choice(['up', 'dn', 'var', 'mvar'] + (['ldir'] if 'q' in self.locs else []))
            return T('F', rng.choice(self.near), o, rng.choice(['none', 'none', 'pure', 'cref', 'usec', 'tpure']))
        if z < 0.65:
            return T('F', rng.choice(FIELDS), 'cv')
        if z < 0.75:
            return T('E', rng.choice(self.reads))
        if z < 0.82 and self.locs:
            n = rng.choice(self.locs)
            return T('C', txt='1') if n in ('q', 'qv') else T('L', n, txt=n + '[2]' if n == 'qa' else n)
        if z < 0.87 and not self.asum:
            return self.element(rng.random() < 0.3)
        if z < 0.92:
            return T('P', txt=rng.choice(['X.coordinate(e_x)', '(X.parity() == EVEN)', 'X.coordinates()[e_y]', 'lattice.size(e_x)']))
        if z < 0.94:
            return T('N', txt='hila::random()')
        return T('C', txt=rng.choice(['2', '0.5', 'M_PI']))

    def element(self, site=False):
        if site:
            b = self.rng.choice(['arr', 'v', 'sa'])
            return T('W', b, txt='%s[%s]' % (b, self.rng.choice(['X.coordinate(e_x) % 3', 'X.coordinate(e_y) % 2'])))
        return T('A', self.rng.choice(['v[1]', 'arr[2]', 'sa[0]', 'v[k]', 'sa[k]', 'ev[1]']))

    def paren(self, x):
        return '(%s)' % x if self.rng.random() < 0.1 else x

    def terms(self, n=3):
        return [self.term() for _ in range(self.rng.randrange(1, n + 1))]

    def statement(self):
        rng = self.rng
        z = rng.random()
        if z < 0.3:
            f = rng.choice(self.wr)
            R = self.terms()
            if f == 'w':
                how = rng.choice(['w[X][1] = %s;', 'w[X].e(2) = %s;', 'w[X].fill(%s);', 'w[X] += %s;', 'w[X][0] *= %s;', 'w[X] *= %s;'])
                self.st(dict(op='put', f='w', o='here', R=R), how.replace('w[X] += %s', 'w[X][2] += %s') % self.expr(R))
            else:
                self.st(dict(op='put', f=f, o='here', R=R), '%s[X] %s %s;' % (f, rng.choice(['=', '=', '+=', '*=', '-=']), self.expr(R)))
        elif z < 0.36:
            f = rng.choice(self.wr)
            if f == 'w':
                return
            if rng.random() < 0.5:
                self.st(dict(op='put', f=f, o='here', R=[]), 'setv(%s[X]);' % f)
            else:
                self.st(dict(op='put', f=f, o='here', R=[]), rng.choice(['bump', 'tbump']) + '(%s[X]);' % f)
        elif z < 0.5:
            R = self.terms()
            n = rng.choice(self.sums)
            self.st(dict(op='outer', n=n, how='+=', R=R), '%s += %s;' % (self.paren(n), self.expr(R)))
        elif z < 0.55:
            R = self.terms(1)
            n = rng.choice(self.prods)
            self.st(dict(op='outer', n=n, how='*=', R=R), '%s *= %s;' % (self.paren(n), self.expr(R)))
        elif z < 0.6:
            R = self.terms()
            self.st(dict(op='outer', n='r', how='+=', R=R), 'r += %s;' % self.expr(R))
        elif z < 0.66:
            R = self.terms(2)
            how = '+=' if self.vecsum else '*='
            i = rng.choice(['k', '2', 'X.coordinate(e_x) % 5'])
            self.st(dict(op='outer', n='rv', how=how, R=R), '%s %s %s;' % (self.paren('rv[%s]' % i), how, self.expr(R)))
        elif z < 0.71 and self.asum:
            R = self.terms(2)
            n = rng.choice(['v[1]', 'arr[2]', 'sa[0]', 'v[k]', 'ev[1]'])
            self.st(dict(op='outer', n=n, how='+=', R=R), '%s += %s;' % (self.paren(n), self.expr(R)))
        elif z < 0.82 and self.depth == 0:
            n = rng.choice(['a', 'b', 'q', 'qv', 'qa', 'c'])
            if n in self.locs:
                R = self.terms()
                if n in 'abc':
                    self.st(dict(op='setl', n=n, R=R), '%s %s %s;' % (n, rng.choice(['=', '+=', '*=']), self.expr(R)))
                elif n == 'qa':
                    self.st(dict(op='setl', n=n, R=R), 'qa[1] = %s;' % self.expr(R))
                return
            if n == 'q':
                self.st(dict(op='local', n='q', kind='dir', R=[]), 'Direction q = %s;' % rng.choice(['e_x', 'd', 'e_y']))
            elif n == 'qv':
                self.st(dict(op='local', n='qv', kind='cv', R=[]), 'CoordinateVector qv = %s;' % rng.choice(['0', 'X.coordinates()']))
            elif n == 'qa':
                self.st(dict(op='local', n='qa', kind='arr', R=[]), 'double qa[3] = {1, 2, 3};')
            else:
                R = self.terms()
                self.st(dict(op='local', n=n, kind='dbl', R=R), '%s %s = %s;' % (rng.choice(['double', 'auto']) if n != 'c' else 'double', n, self.expr(R)))
                if self.txt[-1].lstrip().startswith('auto'):
                    self.txt[-1] = self.txt[-1].replace('= ', '= 1.0 * (', 1)[:-1] + ');'
            self.locs.append(n)
        elif z < 0.88 and self.depth == 0:
            n = 'z%d' % len(self.recs)
            k = rng.random()
            if k < 0.4 and [x for x in self.wr if x != 'w']:
                f = rng.choice([x for x in self.wr if x != 'w'])
                self.st(dict(op='ref', kind='mut', what='F', n=f, o='here'), 'double &%s = %s[X]; %s += 1;' % (n, f, n))
            elif k < 0.8:
                f = rng.choice([x for x in self.near if x != 'w'] or ['h'])
                o = rng.choice(['here', 'up', 'dn', 'var']) if f in self.near else 'here'
                self.st(dict(op='ref', kind='const', what='F', n=f, o=o), 'const double &%s = %s[%s]; double y%s = %s;' % (n, f, rng.choice(OFFS[o]), n, n))
            elif 'a' in self.locs:
                self.st(dict(op='ref', kind='mut', what='L', n='a', o='here'), 'double &%s = a; %s += 1;' % (n, n))
        elif z < 0.93 and self.depth == 0:
            R = self.terms(1)
            c = self.expr(R)
            self.st(dict(op='cond', R=R), 'if (%s > 0) {' % c)
            self.depth += 1
            for _ in range(rng.randrange(1, 3)):
                self.statement()
            self.depth -= 1
            if rng.random() < 0.4:
                self.st(dict(op='always', what='else'), '} else {')
                self.depth += 1
                self.statement()
                self.depth -= 1
            self.st(dict(op='always', what='}'), '}')
        elif z < 0.96 and self.depth == 0:
            self.st(dict(op='always', what='for'), rng.choice(['for (int i = 0; i < 3; i++) {', 'foralldir(i) {', 'for (int i = k; i > 0; --i) {']))
            self.depth += 1
            self.statement()
            self.depth -= 1
            self.st(dict(op='always', what='}'), '}')
        elif z < 0.98:
            self.st(dict(op='always', what='select'), 'if (%s) sel.select(X);' % rng.choice(['X.parity() == EVEN', 'f[X] > 1']))
        elif 'a' in self.locs:
            self.st(dict(op='always', what='pointer to local'), '{ double *pa = &a; *pa += 1; }')

    # ---- pieces that may take away the meaning
    def flaw(self):
        rng = self.rng
        z = rng.randrange(22)
        fl = rng.choice(FIELDS)
        o = rng.choice(['up', 'dn', 'var', 'mvar'])
        off = lambda o: rng.choice(OFFS[o])
        if z in (0, 1, 2):      # a race, if the loop is over all sites
            k = rng.randrange(4)
            acts = []

            def write():
                j = rng.randrange(5)
                if j < 2:
                    R = self.terms(1)
                    self.st(dict(op='put', f=fl, o='here', R=R), '%s[X] %s %s;' % (fl, rng.choice(['=', '+=']), self.expr(R)))
                elif j == 2:
                    self.st(dict(op='put', f=fl, o='here', R=[]), rng.choice(['setv', 'bump', 'tbump']) + '(%s[X]);' % fl)
                elif j == 3:
                    self.st(dict(op='ref', kind='mut', what='F', n=fl, o='here'), '{ double &zz = %s[X]; zz = 2; }' % fl)
                else:
                    self.st(dict(op='put', f='w', o='here', R=[T('F', 'w', o)]),
                            rng.choice(['w[X].fill(w[%s].squarenorm());', 'w[X][1] += w[%s][0];', 'w[X] = w[%s];', 'w[X] += 2 * w[%s];']) % off(o))

            def read():
                R = [T('F', fl, o, rng.choice(['none', 'cref', 'pure', 'tpure']))]
                j = rng.randrange(3)
                if j == 0:
                    R += self.terms(1)
                    n = self.sums[0]
                    self.st(dict(op='outer', n=n, how='+=', R=R), '%s += %s;' % (n, self.expr(R)))
                elif j == 1:
                    self.st(dict(op='cond', R=R), 'if (%s > 1) { }' % self.expr(R))
                else:
                    self.st(dict(op='ref', kind='const', what='F', n=fl, o=o), '{ const double &zz = %s[%s]; double yy = zz; }' % (fl, off(o)))
            acts = [write, read]
            rng.shuffle(acts)
            acts[0]()
            if rng.random() < 0.5:
                self.statement()
            acts[1]()
        elif z == 3:            # the same statement reads and writes
            R = self.terms(1) + [T('F', fl, o)]
            rng.shuffle(R)
            self.st(dict(op='put', f=fl, o='here', R=R), '%s[X] %s %s;' % (fl, rng.choice(['=', '-=']), self.expr(R)))
        elif z in (4, 5):       # a variable from outside
            n = rng.choice(['s', 't', 'u', 'glob', 'k'])
            how = rng.choice(['=', '-=', '/=', '++', '--'])
            R = [] if how in ('++', '--') else self.terms(1)
            self.st(dict(op='outer', n=n, how=how, R=R), '%s%s;' % (n, how) if not R else '%s %s %s;' % (n, how, self.expr(R)))
        elif z in (6, 7):       # summed, and something else
            n = rng.choice(['s', 't', 'u', 'glob'])
            two = rng.sample(['+=', '*=', '=', 'read'], 2)
            for h in two:
                if h == 'read':
                    R = [T('E', n)] + self.terms(1)
                    if rng.random() < 0.3:
                        self.st(dict(op='cond', R=R), 'if (%s > 1) { }' % self.expr(R))
                    else:
                        f = rng.choice([x for x in self.wr if x != 'w'] or ['h'])
                        self.st(dict(op='put', f=f, o='here', R=R), '%s[X] = %s;' % (f, self.expr(R)))
                else:
                    R = self.terms(1)
                    self.st(dict(op='outer', n=n, how=h, R=R), '%s %s %s;' % (n, h, self.expr(R)))
        elif z == 8:
            R = [T('V', 'rv', txt='rv[%s]' % rng.choice(['k', '1', 'X.coordinate(e_x) % 3']))]

            def one():
                self.st(dict(op='outer', n='rv', how='+=', R=[]), 'rv[%s] += 1;' % rng.choice(['k', '0', 'X.coordinate(e_x) % 3']))

            def two():
                self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
            acts = [one, two]
            rng.shuffle(acts)
            acts[0]()
            acts[1]()
        elif z == 9:
            for how in rng.sample(['+=', '*=', '-=', '=', '++', '/='], 2 if rng.random() < 0.5 else 1):
                self.st(dict(op='outer', n='rv', how=how, R=[]),
                        'rv[%s] %s%s;' % (rng.choice(['k', '1', 'X.coordinate(e_x) % 3']), how, '' if how == '++' else ' 2'))
        elif z == 10:
            n = rng.choice(['v[1]', 'arr[2]', 'sa[0]', 'v[k]'])
            how = rng.choice(['=', '*=', '-='])
            R = self.terms(1)
            self.st(dict(op='outer', n=n, how=how if how != '*=' else 'mult', R=R), '%s %s %s;' % (n, how, self.expr(R)))
        elif z == 11:
            n = rng.choice(['v', 'arr', 'sa'])
            if rng.random() < 0.5:
                R = [self.element(True)]
                self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
            self.st(dict(op='never', what='element of a site'), '%s[X.coordinate(e_x) %% 3] %s 1;' % (n, rng.choice(['+=', '='])))
        elif z == 12:
            n = rng.choice(['v[1]', 'arr[2]', 'sa[0]', 'v[k]'])
            R = [T('A', n) if rng.random() < 0.5 else self.element(True)]

            def one():
                self.st(dict(op='outer', n=n, how='+=', R=[]), '%s += 2;' % n)

            def two():
                self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
            acts = [one, two]
            rng.shuffle(acts)
            acts[0]()
            acts[1]()
        elif z == 13:
            k = rng.choice(['static', 'field', 'vector', 'stdarray', 'reduction', 'extern', 'rvec'])
            self.st(dict(op='local', n='z9', kind=k, R=[]), dict(static='static double z9 = 1;', field='Field<double> z9;', extern='extern double z9;',
                    vector='std::vector<double> z9;', stdarray='std::array<double, 3> z9;', reduction='Reduction<double> z9;',
                    rvec='ReductionVector<double> z9;')[k])
        elif z == 14:
            self.st(dict(op='never', what='nested'), rng.choice(['onsites(%s) { h[X] = 1; }', 'onsites(%s) h[X] = 1;', 'if (k > 0) { onsites(%s) h[X] = 1; }']) %
                    rng.choice(['ALL', 'EVEN']))
        elif z == 15:
            self.st(dict(op='never', what='field'), rng.choice(['%s[ALL] = 1;', '%s[EVEN] = 2;', 'double z9 = %s.is_allocated();', '%s.clear();']) % fl)
        elif z == 16:
            self.st(dict(op='never', what='address'), rng.choice(['double *z9 = &%s[X]; *z9 = 1;', 'const double *z9 = &%s[X];']) % fl
                    if rng.random() < 0.5 else 'double *z9 = &%s; double y9 = *z9;' % rng.choice(['s', 't']))
        elif z == 17:
            R = [T('F', fl, rng.choice(['here', 'here', o]), rng.choice(['useglob', 'static', 'usefield'])), T('C', txt='2')]
            if R[0]['o'] != 'here' and fl not in self.near:
                R[0]['o'] = 'here'
            self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
        elif z == 18:
            k = rng.randrange(4)
            if k == 0:
                self.st(dict(op='never', what='bump outer'), rng.choice(['bump', 'setv', 'tbump']) + '(%s);' % rng.choice(['s', 't']))
            elif k == 1:
                self.st(dict(op='ref', kind='mut', what='E', n='s', o='here'), 'double &z9 = s; z9 += 1;')
            elif k == 2:
                self.st(dict(op='never', what='bump neighbour'), rng.choice(['bump', 'setv', 'tbump']) + '(%s[%s]);' % (fl, off(o)))
            else:
                self.st(dict(op='ref', kind='mut', what='F', n=fl, o=o), 'double &z9 = %s[%s]; z9 += 1;' % (fl, off(o)))
        elif z == 19:
            if 'qv' not in self.locs:
                self.st(dict(op='local', n='qv', kind='cv', R=[]), 'CoordinateVector qv = 0;')
            R = [T('F', fl, 'lcv')]
            self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
        elif z == 20:
            if rng.random() < 0.5:
                self.st(dict(op='put', f=fl, o=o, R=[]), '%s[%s] %s 2;' % (fl, off(o), rng.choice(['=', '+='])))
            else:
                self.st(dict(op='put', f='w', o=o, R=[]), rng.choice(['w[%s] = 0;', 'w[%s][1] = 2;', 'w[%s] += 1;'][:1]) % off(o))
        else:
            R = [T('R', 'r', txt='r.value()')]
            if rng.random() < 0.5:
                self.st(dict(op='local', n='a9', kind='dbl', R=R), 'double a9 = %s;' % self.expr(R))
                self.recs[-1] = dict(op='never', what='value of a Reduction')
            else:
                self.st(dict(op='outer', n='r', how='=', R=[]), 'r = 2;')

    def make(self, flawed):
        rng = self.rng
        self.plan()
        n = rng.randrange(1, 6)
        at = rng.randrange(n) if flawed else -1
        for j in range(n):
            self.statement()
            if j == at:
                self.flaw()
        safe = []
        if self.P == 'A' and rng.random() < 0.08:
            safe = rng.sample(FIELDS, rng.randrange(1, 3))
        par = dict(A='ALL', E='EVEN', O='ODD', V='p')[self.P]
        out = ['void loop%d() {' % self.i] + ENV.rstrip('\n').split('\n')
        if safe:
            out.append('    #pragma hila safe_access(%s)' % ', '.join(safe))
        out += ['    onsites(%s) {' % par] + self.txt + ['    }', '}']
        return self.pre + out, [dict(op='loop', P=self.P, safe=safe)] + self.recs


def rng_join(rng, xs):
    return ' + '.join(xs)


class Scenario:
    prog = None
    np = 1
    size = ()
    env = {}

    def __init__(self, variant, rng, nl, flawed):
        self.variant = variant
        self.loops = []
        for i in range(nl):
            self.loops.append(Gen(rng, i).make(flawed and i == nl - 1))
        self.recs = [r for _, q in self.loops for r in q + [dict(op='end')]]

    def name(self):
        return 'hilapp %s %d loops' % (self.variant, len(self.loops))

    def source(self):
        out = HEAD.rstrip('\n').split('\n')
        self.lines = []
        for txt, _ in self.loops:
            a = len(out) + 1
            out += txt
            self.lines.append((a, len(out)))
        return '\n'.join(out) + '\nint main() { return 0; }\n'

    def script(self):
        return self.source()

    def execute(self, exes, timeout=60):
        d = run.scratch()
        try:
            with open(d + '/loops.cpp', 'w') as f:
                f.write(self.source())
            V = build.variant(self.variant)
            try:
                p = subprocess.run([build.B + '/hilapp/bin/hilapp'] + V['hopt'] + ['-std=c++17'] + V['defs'] + build.INC +
                                   [d + '/loops.cpp', '-o', d + '/loops.cpt'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                return [dict(op='start')], 'hilapp did not end'
            err = [int(m) for m in re.findall(r'loops\.cpp:(\d+):\d+: (?:fatal )?error:', out)]
            tr, problem = [dict(op='start')], None
            for (_, recs), (a, b) in zip(self.loops, self.lines):
                tr += recs + [dict(op='end', obs=[0 if any(a <= e <= b for e in err) else 1])]
            if (rc != 0) != bool(err) or rc < 0:
                problem = 'hilapp ended with %d, errors in lines %s\n%s' % (rc, err, out[-1500:])
            if rc == 0 and not os.path.exists(d + '/loops.cpt'):
                problem = 'no output\n' + out[-1500:]
            if problem:
                tr = tr[:1]
            return tr, problem
        finally:
            shutil.rmtree(d, ignore_errors=True)

"""The machine of parameter files: harness inp, trace specification InputTrace."""
from . import machine

ERR = r'(?i)error|must be one of'
SIG = {'open': 'f must', 'openc': 'f', 'close': '', 'drop': '', 'quiet': 'q', 'get': 't $key', 'val': 't $key', 'val0': 't $key',
       'item': '$key $*its', 'item0': '$key $*its'}
OBS = set(SIG) - {'quiet'}
IM = machine.Machine('inp', SIG, OBS, stops={k: ERR for k in OBS})
op = IM.op
MISSING = [0]


def codes(s):
    return [ord(c) for c in s]


class Scenario(machine.Scenario):
    M = IM
    rc0 = True
    files = ()
    over = ()       # (key, value)
    ifile = -1

    def start(self):
        return dict(op='start', files=[codes(f) if f is not None else MISSING for f in self.files],
                    over=[[codes(k), codes(v)] for k, v in self.over], ifile=self.ifile, nd=len(self.size))

    def prepare(self, d):
        for i, f in enumerate(self.files):
            if f is not None:
                with open('%s/f%d' % (d, i), 'w') as o:
                    o.write(f)

    def args(self, d):
        a = machine.Scenario.args(self, d) + ['--']
        if self.over:
            for k, v in self.over:
                a += ['-p', k, v]
        if self.ifile >= 0:
            a += ['-i', 'f%d' % self.ifile]
        return a

    def stopped(self, r, rx):
        quiet = any(x['op'] == 'quiet' for x in self.recs)      # no messages then
        return machine.Scenario.stopped(self, r, '' if quiet else rx)


KEYS = ['beta', 'beta2', 'bet', 'mass', 'number of cats', 'number of', 'number', 'lattice size', 'lattice', 'n', 'nn', 'a,', 'c_sw',
        'initial vector', 'k1', 'k 1', 'x']
TYPES = ['i', 'l', 'u', 'f', 'd', 's', 'z', 'c', 'vi', 'vd', 'C', 'li', 'ld', 'ls', 'lz']
WORDS = ['red', 'green', 'blue', 'tree', 'x', 'abc', 'out/file.dat', 'n', 'beta', 'a(b)', "it's", '100', '1.5', '-3', '(1', '5x']


class Gen:
    def __init__(self, rng, nd):
        self.r = rng
        self.nd = nd

    def sp(self, least=0):
        r = self.r
        return ''.join(r.choice([' ', ' ', ' ', '\t']) for _ in range(max(least, r.choice([0, 0, 1, 1, 2, 4]))))

    def intval(self, unsigned=False):
        r = self.r
        v = str(r.choice([0, 1, 5, 32, 100, r.randrange(10 ** 6), r.randrange(10 ** 9)]))
        if r.random() < 0.1:
            v = '0' * r.choice([1, 2]) + v if len(v) < 7 else v
        if r.random() < 0.25 and not unsigned:
            v = '-' + v
        elif r.random() < 0.05:
            v = '+' + v
        return v

    def realval(self):
        r = self.r
        z = r.random()
        if z < 0.3:
            v = str(r.randrange(1000))
        elif z < 0.8:
            v = '%d.%s' % (r.randrange(1000), ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3]))))
        elif z < 0.86:
            v = r.choice(['.5', '5.', '0.125', '.001'])
        else:
            v = r.choice(['1e3', '2.5e2', '1E+2', '1.5e-1', '25e-2', '5e0', '0.03e2', '3.0e-3'])
        return ('-' if r.random() < 0.25 else '+' if r.random() < 0.04 else '') + v

    def strval(self):
        r = self.r
        z = r.random()
        if z < 0.5:
            return r.choice(WORDS)
        if z < 0.8:
            return '"%s"' % r.choice(['light green', 'a, b', '', ' x ', 'one', 'with  two   blanks', '5, 6', 'tab\tinside'])
        return r.choice(['a"b c"d', '""', '"x""y"', 'x="1, 2"'])

    def comma(self):
        r = self.r
        a = r.choice(['', '', ' ', '  ', '\t'])
        b = r.choice(['', ' ', ' ', '   ', '\n', ' \n  ', ' # more\n', '\n\n'] if r.random() < 0.3 else ['', ' ', '  '])
        return a + ',' + b

    def cplx(self):
        r = self.r
        s = lambda: r.choice(['', '', '', ' ', '  '])
        return '(' + s() + self.realval() + s() + ',' + s() + self.realval() + s() + ')'

    def value(self, t):
        r = self.r
        if t in 'il':
            return self.intval()
        if t == 'u':
            return self.intval(True)
        if t in 'fd':
            return self.realval()
        if t == 's':
            return self.strval()
        if t in 'zc':
            return self.cplx()
        n = {'vi': 3, 'vd': 2, 'C': self.nd}.get(t) or r.choice([1, 1, 2, 3, 5])
        e = {'vi': 'i', 'vd': 'd', 'C': 'i', 'li': 'i', 'ld': 'd', 'ls': 's', 'lz': 'z'}[t]
        v = [self.value(e) for _ in range(n)]
        return ''.join(x + (self.comma() if k < n - 1 else '') for k, x in enumerate(v))

    def badvalue(self, t):
        """text that is no value of type t"""
        r = self.r
        e = {'vi': 'i', 'vd': 'd', 'C': 'i', 'li': 'i', 'ld': 'd', 'lz': 'z'}.get(t)
        if e:
            n = {'vi': 3, 'vd': 2, 'C': self.nd}.get(t, r.choice([1, 2, 3]))
            v = [self.value(e) for _ in range(n)]
            z = r.random()
            if z < 0.4 or t[0] == 'l' or n == 1:
                v[r.randrange(n)] = self.badvalue(e)
                return ', '.join(v)
            if z < 0.7:
                return ', '.join(v[:-1])        # too few
            return ' '.join(v)                  # no commas
        if t in 'il':
            return r.choice(['x', '1.5', '5x', '1e3', '99999999999999999999', '--3', '+-1', '-', '.', ',', '"', '3-', '0x10', '(1'][:12 if r.random() < .9 else 14])
        if t == 'u':
            return r.choice(['-1', '-5', 'x', '1.5', '3u', '-0'])
        if t in 'fd':
            return r.choice(['x', '1.5.2', '5.6abc', '1e', '1.2e3.4', '.', '-', '--1', 'e5', '1,5'.replace(',', '_'), '-.'])
        if t in 'zc':
            a, b = self.realval(), self.realval()
            return r.choice(['%s,%s' % (a, b), '(%s %s)' % (a, b), '(%s,%s' % (a, b), '%s' % a, '(x,%s)' % b, '(%s,%sx)' % (a, b), '(%s)' % a,
                             '(,%s)' % b, '(%s,)' % a, '[%s,%s]' % (a, b)])
        return r.choice(['"abc', 'a"b'])        # strings: quotes that do not pair

    def keytext(self, k):
        return ''.join(self.r.choice([' ', ' ', '  ', '\t', '   ']) if c == ' ' else c for c in k)

    def filler(self):
        r = self.r
        return ''.join(r.choice(['\n', '  \n', '# comment\n', '   # beta 7\n', '#\n', '\t\n']) for _ in range(r.choice([0, 0, 0, 1, 2])))

    def line(self, k, v):
        r = self.r
        s = self.filler() + self.sp() + self.keytext(k)
        s += self.sp(1) if r.random() < 0.95 or '\n' in v else '\n' + self.sp()
        if not k:
            s = self.filler() + self.sp()
        s += v + self.sp()
        if r.random() < 0.2:
            s += ' # ' + r.choice(['note', 'mass 7', '"', '# #'])
        return s + '\n'


def program(rng, nd, over=False):
    """files and a program that reads them, mostly as intended"""
    g = Gen(rng, nd)
    files, recs = [], []
    nf = 1 if over else rng.choice([1, 1, 2])
    ov = []
    if rng.random() < 0.1:
        recs.append(op('quiet', 1))
    ifile = -1
    for f in range(nf):
        text = ''
        acts = []
        end = rng.random() < 0.3        # ends with something wrong
        for e in range(rng.choice([1, 3, 6, 12])):
            k = rng.choice(KEYS)
            t = rng.choice(TYPES)
            z = rng.random()
            if z < 0.12:
                its = rng.sample(['red', 'green', 'light green', 'light', 'tree', 'on', 'off', '5', 'reddish'], rng.choice([1, 2, 4]))
                spec = rng.random() < 0.5
                for s in (['%i', '%f'], ['%f'], ['%i'], ['%s'], ['%f', '%s'], ['%i', '%f', '%s'])[rng.randrange(6)] if spec else []:
                    its.append(s)
                ok = [x for x in its if x[0] != '%']
                if spec and rng.random() < 0.6:
                    w = its[-1] if its[-1] != '%s' else rng.choice(['%i', '%f', '%s'])
                    t2 = {'%i': 'i', '%f': 'd', '%s': 's'}[w]
                    v = g.value(t2)
                else:
                    t2, v = None, g.keytext(rng.choice(ok))
                text += g.line(k, v)
                acts.append(('item', k, [codes(x) for x in its], its, v, t2))
            elif z < 0.18:
                v = g.value(t)
                text += g.line('', v)
                acts.append(('get', '', t))
            elif z < 0.22 and t[0] != 'l':
                v, w = g.value(t), g.value(t)
                text += g.line(k, v + ' ' + w)
                acts += [('get', k, t), ('get', '', t)]
            else:
                v = g.value(t)
                text += g.line(k, v)
                acts.append(('get', k, t))
                if over and rng.random() < 0.5 and k not in [x[0] for x in ov] and '\n' not in v and t != 's' and \
                        not any(a[0] == 'item' and a[1] == k for a in acts):
                    ov.append((k, g.value(t).replace('\n', ' ').replace('#', '').replace('more', '')))
        if end:
            z = rng.random()
            k, t = rng.choice(KEYS), rng.choice(TYPES)
            if z < 0.6:
                text += g.line(k, g.badvalue(t))
                acts.append(('bad', k, t))
            elif z < 0.75:
                acts.append(('bad', k, t))          # end of the file
            elif z < 0.9:
                text += g.line(k, g.value(t))
                acts.append(('badkey', rng.choice([x for x in KEYS if x != k]), t))
            else:
                its = ['red', 'green', '%i']
                text += g.line(k, rng.choice(['blue', 'redd', '1.5', '', 're', 'gree n']))
                acts.append(('baditem', k, [codes(x) for x in its]))
        if text and rng.random() < 0.15:
            text = text[:-1]
        if rng.random() < 0.1:
            text = text.replace('\n', '\r\n')
        files.append(text)
        if rng.random() < 0.6:
            recs.append(op('open', f, int(rng.random() < 0.7)))
        else:
            recs.append(op('openc', f) if f == 0 else op('open', f, 1))
        stop = False
        cut = rng.randrange(len(acts) + 1) if rng.random() < 0.25 else None
        for i, a in enumerate(acts):
            if cut == i and not over:          # begin again
                recs.append(op('close'))
                if rng.random() < 0.2:
                    recs.append(op('open', 8, 0))       # no such file
                recs.append(op('open', f, 1))
                for b in acts[:i]:
                    read(rng, recs, b)
            if rng.random() < 0.1:
                recs.append(op(rng.choice(['val', 'val0']), rng.choice(TYPES), codes(rng.choice([x for x in KEYS if x != a[1]]))))
            if rng.random() < 0.02:
                recs.append(op('open', rng.randrange(2), 0))      # is open already
            if a[0] == 'bad' or a[0] == 'badkey':
                o = rng.choice(['get', 'val', 'val0'])
                recs.append(op(o, a[2], codes(a[1])))
                stop = o == 'get'
                if a[0] == 'badkey' and not stop:
                    recs.append(op('val', 's', codes('no such key')))
            elif a[0] == 'baditem':
                o = rng.choice(['item', 'item0'])
                recs.append(op(o, codes(a[1]), a[2]))
                stop = o == 'item'
            else:
                read(rng, recs, a)
        if stop:
            break
        if rng.random() < 0.5 and acts and acts[-1][0] == 'get':
            recs.append(op(rng.choice(['val', 'val0']), rng.choice('ids'), codes(rng.choice(['', 'end']))))       # nothing left
        recs.append(op('close') if rng.random() < 0.7 else op('drop'))
        if rng.random() < 0.1 and not over:
            recs.append(op('open', 9, int(rng.random() < 0.5)))
            if recs[-1]['must']:
                break
    while len(files) < 10:
        files.append(None)
    return files, recs, ov


def read(rng, recs, a):
    if a[0] == 'item':
        recs.append(op(rng.choice(['item', 'item0']), codes(a[1]), a[2]))
        if a[5]:
            recs.append(op(rng.choice(['get', 'val']), a[5] if rng.random() < 0.7 else 's', []))
    elif a[0] in ('get',):
        k = a[1]
        if ' ' in k and rng.random() < 0.3:
            k = k.replace(' ', '  ')
        if k and rng.random() < 0.05:
            k = ' ' + k
        recs.append(op(rng.choice(['get', 'get', 'val', 'val0']), a[2], codes(k)))

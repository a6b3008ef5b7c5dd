"""The machine of command lines and partitions: harness cmd, trace specification CommandTrace."""
import os, re, shutil
from . import machine, run

SIG = {'conf': '', 'cwd': '', 'flag': '$f', 'vals': '$f', 'int': '$f i', 'dbl': '$f i', 'str': '$f i', 'say': 'k', 'sayall': 'k',
       'write': '$f k', 'inp': '$f $key', 'setup': 'sz', 'bcast': 'root v', 'sum': 'v', 'send': 'v', 'field': 'd v', 'coll': 'd v', 'seed': 'v',
       'fin': ''}
CM = machine.Machine('cmd', SIG, set(SIG))
op = CM.op
ERR = r'(?i)error|terminating|must be|not evenly|invalid|cannot open|missing an entry|expected a number|requires|not recognized|has only'
STOP = r'(?i)finishing|terminate'


def codes(s):
    return [ord(c) for c in s]


class Scenario(machine.Scenario):
    M = CM
    words = ()
    user = ()           # (flag, number of values)
    files = ()          # (path, {key: value} text, value)
    dirs = ()
    check = False

    def start(self):
        return dict(op='start', np=self.np, words=[codes(w) for w in self.words], user=[[codes(f), n] for f, n in self.user],
                    files=[[codes(p), v] for p, t, v in self.files], nodirs=[codes('nodir/out')])

    def line(self, r):
        return ''.join(map(str, r['on'])) + ' ' + self.M.line(r)

    def script(self):
        return '\n'.join(['0 uflag %s %d' % (machine.hexed(codes(f)), n) for f, n in self.user] + [self.line(r) for r in self.recs]) + '\n'

    def name(self):
        return '%s np%d [%s]' % (self.variant, self.np, ' '.join(repr(w) if ' ' in w or not w else w for w in self.words))

    def execute(self, exes, timeout=60):
        top = run.scratch()
        d = top + '/run'
        os.mkdir(d)
        try:
            with open(top + '/script', 'w') as f:
                f.write(self.script())
            given = set()
            for x in self.dirs:
                os.makedirs(d + '/' + x, exist_ok=True)
            for p, t, v in self.files:
                os.makedirs(os.path.dirname(d + '/' + p), exist_ok=True)
                with open(d + '/' + p, 'w') as f:
                    f.write(t)
                given.add(p)
            r = run.mpirun(exes[(self.variant, 'cmd')], self.np, [top + '/script', top + '/out', '--'] + list(self.words), cwd=d,
                           env=self.env, timeout=timeout)
            text = r.out
            disk = [('', r.out)]
            for dp, dn, fn in os.walk(d):
                for n in sorted(fn):
                    p = os.path.relpath(dp + '/' + n, d)
                    if p not in given:
                        t = open(dp + '/' + n, errors='replace').read()
                        text += t
                        disk.append((p, t))
            obs = []
            for w in range(self.np):
                o = {}
                if os.path.exists('%s/out.%d' % (top, w)):
                    for l in open('%s/out.%d' % (top, w)):
                        x = l.split()
                        if l.endswith('\n') and x:
                            o[int(x[0])] = [int(y) for y in x[1:]]
                obs.append(o)
            crash = r.timeout or re.search(r'(?i)assertion|signal|terminate called|MPI_ABORT|exception', r.out) or r.rc not in (0, 1)
            started = any(os.path.exists('%s/out.%d' % (top, w)) for w in range(self.np))
            tr = [self.start()]
            if crash or (not re.search(STOP, text)):
                return tr, 'the run did not end properly (exit %s%s)\n%s' % (r.rc, ', timed out' if r.timeout else '', text[-2500:])
            if not started:
                if re.search(ERR, text):
                    tr.append(dict(op='begin', obs=[]))
                    return tr, None
                return tr, 'the run ended without any message (exit %s)\n%s' % (r.rc, text[-2500:])
            if r.rc != 0:
                return tr, 'exit %s\n%s' % (r.rc, text[-2500:])
            tr.append(dict(op='begin', obs=[1]))
            parts = self.parts()
            stop = False
            for k, rec in enumerate(self.recs, 1 + len(self.user)):
                q = []
                for w in range(self.np):
                    on = w * parts // self.np in rec['on']
                    if k in obs[w]:
                        q.append(obs[w][k])
                    elif on:
                        q.append([-9999])
                        if rec['op'] not in ('fin', 'setup'):
                            stop = True
                    else:
                        q.append([])
                tr.append(dict(rec, obs=q))
            if stop and not (re.search(ERR, text) or any(r['op'] in ('fin', 'setup') for r in self.recs)):
                return tr, 'stopped without any message\n' + text[-2500:]
            ds = []
            for p, t in disk:
                ks = [int(x) for x in re.findall(r'@@(\d+)@@', t)]
                ds.append(dict(p=codes(p), k=ks))
            tr.append(dict(op='disk', obs=ds))
            return tr, None
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def parts(self):
        w = list(self.words)
        if '-partitions' in w:
            i = w.index('-partitions')
            try:
                return int(w[i + 1])
            except (IndexError, ValueError):
                pass
        return 1


USER = ['-x', '-xx', '-my_flag12', '-P', '-in', '-pp']
VALS = ['a', 'word', '5', '-5', '1.5', '-', '--', '-1x', 'two words', '', '+7', '1e3', 'out.txt', 'x-y', '-0.25', '12x', '0', '=', "it's"]
BADWORDS = ['-q', '-ti', '-outfile', 'stray', '7', '-help', '-Px', '-partition', '-checks', '-T', '-O']


def text(rng, v, other):
    k = rng.choice(['', '# comment\n', '\n'])
    return k + 'par %d\n' % v + ''.join('more %d\n' % i for i in range(rng.choice([0, 0, 2])))


def plan(rng, variant, nd, maxnp=6):
    """one run: command line, files, what the partitions do"""
    np = rng.choice([1, 1, 2, 2, 3, 4, 4, 6])
    np = min(np, maxnp)
    s = Scenario(variant, np, '-', (4,) * nd, [])
    parts = 1
    groups = []
    bad = rng.random()
    if np > 1 and rng.random() < 0.65 or rng.random() < 0.05:
        if bad < 0.12:
            z = rng.choice(['0', '-1', '-2', 'x', '2x', '1.5', str(np + 1), '4' if np == 6 else '5', '', None])
            groups.append(['-partitions'] + ([] if z is None else [z]))
        else:
            parts = rng.choice([p for p in range(1, np + 1) if np % p == 0 and (p > 1 or rng.random() < 0.2)] or [np])
            g = ['-partitions', str(parts)]
            if rng.random() < 0.35:
                g.append(rng.choice(['run', 'my.dir', 'p_', '0']))
            groups.append(g)
    elif np == 1 and rng.random() < 0.2:
        groups.append(['-check', rng.choice(['1', '2', '4', '8', '3', '0', 'x' if bad < 0.2 else '6'])])
        s.check = True
    if rng.random() < 0.35:
        groups.append(['-o', rng.choice(['out.log', 'o', 'nodir/out' if bad < 0.2 else 'output', 'res ult'])])
    if rng.random() < 0.3:
        t = ['5', '100', '1:30', '2:00:00', '1-12:30:00', '90:00', '0-0:0:1000', '99999', '00', '3-100:200:300']
        b = ['x', '1:x', '2-3', '2-3:4', '1:2:3:4', '10x', '1-2-3', ':5', '5:', '-5', '1:-2', '1.5', '', '1:2 :3', '5 6', '1:2:3-4', '12h', '1d']
        groups.append(['-t', rng.choice(b) if bad < 0.25 and rng.random() < 0.6 else rng.choice(t)])
    if rng.random() < 0.1:
        groups.append(['-device', rng.choice(['0', '1'])])
    names = ['in0', 'in1', 'in2']
    firstname = None
    if rng.random() < 0.35:
        firstname = rng.choice(names + ['given'])
        groups.append(['-i', firstname])
    pk = []
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(['par', 'par', 'par', 'other', 'par x'])
            pk.append(k)
            groups.append(['-p', k, rng.choice(['77', '-12', '5', '0', 'x' if bad < 0.1 else '9'])])
    user = []
    for f in rng.sample(USER, rng.choice([0, 0, 1, 2])):
        n = rng.choice([-1, -1, 0, 1, 1, 2, 3])
        user.append((f, n))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            m = n if n >= 0 else rng.choice([0, 1, 2, 4])
            groups.append([f] + [rng.choice(VALS) for _ in range(m)])
    if 0.12 <= bad < 0.3:
        z = rng.random()
        if z < 0.4 or not groups:
            groups.append([rng.choice(BADWORDS)] + ([rng.choice(VALS)] if rng.random() < 0.3 else []))
        else:
            g = rng.choice(groups)
            if rng.random() < 0.5 and len(g) > 1:
                g.pop()
            elif g[0] != '-partitions':
                g.insert(rng.randrange(1, len(g) + 1), rng.choice(VALS))
    rng.shuffle(groups)
    if rng.random() < 0.03:
        groups.insert(0, [rng.choice(['stray', '5', ''])])
    s.words = [w for g in groups for w in g]
    s.user = user
    # input files, some of them in the directories of the partitions
    dn = 'partition'
    if '-partitions' in s.words:
        i = s.words.index('-partitions')
        if i + 2 < len(s.words) and not re.match('-[a-zA-Z]', s.words[i + 2]) and not re.match('-[a-zA-Z]', s.words[i + 1]):
            dn = s.words[i + 2]
    fs, dirs = [], []
    v = 100
    for n in names + ['given']:
        if rng.random() < 0.85:
            v += 1
            fs.append((n, text(rng, v, 0), v))
        if parts > 1:
            for q in range(parts):
                if rng.random() < 0.15:
                    v += 1
                    fs.append(('%s%d/%s' % (dn, q, n), text(rng, v, 0), v))
    s.files = fs
    s.dirs = [dn + str(q) for q in range(parts) if parts > 1 and rng.random() < 0.3]
    # what they do: every partition has its own sequence
    recs = []
    allp = list(range(parts))

    def add(r, on=None):
        r['on'] = on if on is not None else allp
        recs.append(r)
    add(op('conf'))
    add(op('cwd'))
    for f, n in user:
        add(op('flag', codes(f)))
        if rng.random() < 0.7:
            add(op('vals', codes(f)))
    if rng.random() < 0.3:
        add(op('flag', codes(rng.choice(['-p', '-o', '-i', '-t', '-partitions', '-nothing']))))
    tok = [0]

    def token():
        tok[0] += 1
        return tok[0]
    ready = set()
    dims = {}
    for q in allp:
        mine = []
        for _ in range(rng.choice([3, 6, 10])):
            z = rng.random()
            if z < 0.15:
                mine.append(op('say', token()))
            elif z < 0.25:
                mine.append(op('sayall', token()))
            elif z < 0.35:
                mine.append(op('write', codes(rng.choice(['data', 'data2'])), token()))
            elif z < 0.45:
                mine.append(op('inp', codes(rng.choice(names)), codes('par')))
            elif z < 0.55:
                mine.append(op('bcast', rng.randrange(np // parts), rng.randrange(100)))
            elif z < 0.65:
                mine.append(op('sum', rng.randrange(100)))
            elif z < 0.72:
                mine.append(op('send', rng.randrange(100)))
            elif z < 0.8:
                if q not in ready and not (s.check and rng.random() < 0.5):
                    ready.add(q)
                    dims[q] = [rng.choice([6, 12] if np // parts % 3 == 0 else [4, 8]) for _ in range(nd)]
                    mine.append(op('setup', dims[q]))
                    if s.check:
                        break
            elif z < 0.97:
                if q in ready and not s.check:
                    mine.append(op(rng.choice(['field', 'coll']), rng.randrange(nd), rng.randrange(50)))
            elif z < 0.99 and parts > 1:
                mine.append(op('fin'))
                break
        # the values of the user's flags, the last may stop the run
        for r in mine:
            r['on'] = [q]
        recs += [('q', q, r) for r in mine]
    # interleave
    fixed = [r for r in recs if isinstance(r, dict)]
    queues = [[r for r in recs if isinstance(r, tuple) and r[1] == q] for q in allp]
    out = fixed
    while any(queues):
        qs = rng.choice([x for x in queues if x])
        out.append(qs.pop(0)[2])
    if all(q in ready for q in allp) and not s.check and not any(r['op'] == 'fin' for r in out):
        for sd in [0, rng.randrange(1, 10 ** 6), 5][:rng.choice([0, 1, 2, 3])]:
            out.append(dict(op('seed', sd), on=allp))
    if parts == 1 and rng.random() < 0.1:
        f = codes(rng.choice(['-nothing', '-y', '-p', '-o']))
        out += [dict(op('flag', f), on=allp), dict(op('vals', f), on=allp)]
    if user and rng.random() < 0.8 and parts == 1:
        for f, n in user:
            for _ in range(rng.choice([1, 2])):
                # (get_double takes also what only begins with a number, this is documented)
                o = rng.choice(['int', 'dbl', 'str'] if not {'1e3', '12x', '-1x'} & set(s.words) else ['int', 'str'])
                out.append(dict(op(o, codes(f), rng.choice([0, 0, 0, 1, 2])), on=allp))
    s.recs = out
    return s

"""Scripts of operations for the harness programs, their execution and the traces for the trace specifications."""
import os, re, shutil
from . import run


def hexed(s):
    return ''.join('%02x' % c for c in s) or '-'


class Machine:
    """the operations of one harness program.
    sig: operation -> argument names; arguments that are lists are written out one after the other, an argument
    named *x is preceded by its length, one named $x is a string (list of codes), $*x a list of strings.  obs: operations that give an observation; blocks: those that give one block
    of values per rank"""

    def __init__(self, prog, sig, obs, blocks=(), stops=None):
        self.prog, self.sig, self.obs, self.blocks = prog, sig, set(obs), set(blocks)
        self.stops = stops or {}    # operation -> regular expression of the message with which it may end the program

    def names(self, o):
        return [a.lstrip('$*') for a in self.sig[o].split()]

    def line(self, r):
        w = [r['op']]
        for a in self.sig[r['op']].split():
            x = r[a.lstrip('$*')]
            if a[0] == '$':
                if a[1] == '*':
                    w += [str(len(x))] + [hexed(y) for y in x]
                else:
                    w.append(hexed(x))
                continue
            if a[0] == '*':
                w.append(str(len(x)))
            w += [str(y) for y in x] if isinstance(x, (list, tuple)) else [str(x)]
        return ' '.join(w)

    def op(self, name, *args, **kw):
        r = dict(zip(['op'] + self.names(name), (name,) + args))
        r.update(kw)
        return r


class Scenario:
    """one process run: element type, lattice size, ranks, script"""
    M = None
    rc0 = False         # the program may also stop with exit code 0

    def __init__(self, variant, np, typ, size, recs, env=None, tag=''):
        self.variant, self.np, self.typ, self.size, self.recs = variant, np, typ, tuple(size), recs
        self.env = env or {}
        self.prog = self.M.prog
        self.tag = tag

    def name(self):
        return '%s np%d %s %s %s%s' % (self.variant, self.np, self.typ, 'x'.join(map(str, self.size)), self.tag,
                                       ' ' + ' '.join('%s=%s' % kv for kv in self.env.items()) if self.env else '')

    def script(self):
        return '\n'.join(self.M.line(r) for r in self.recs) + '\n'

    def start(self):
        return dict(op='start', sz=list(self.size))

    def prepare(self, d):
        """files the program needs, in the scratch directory d"""

    def leave(self, d):
        """the run is over, its scratch directory d goes away"""

    def args(self, d):
        return [self.typ, d + '/script', d + '/out'] + list(self.size)

    def stopped(self, r, rx):
        """a controlled end of the program with a message"""
        return (self.rc0 or r.rc != 0) and not r.timeout and 'Assertion' not in r.out and 'signal' not in r.out and \
            re.search(rx, r.out) is not None

    def execute(self, exes, timeout=60):
        """runs the real code, returns (trace records, problem or None)"""
        d = run.scratch()
        try:
            with open(d + '/script', 'w') as f:
                f.write(self.script())
            self.prepare(d)
            r = run.mpirun(exes[(self.variant, self.prog)], self.np, self.args(d), cwd=d, env=self.env, timeout=timeout)
            obs = {}
            done = False
            if os.path.exists(d + '/out'):
                for l in open(d + '/out'):
                    w = l.split()
                    if not l.endswith('\n') or not w:
                        break
                    k = int(w[0])
                    if k == 0:
                        done = True
                    else:
                        obs[k] = [int(x) for x in w[1:]]
            tr = [self.start()]
            problem = None
            for k, rec in enumerate(self.recs, 1):
                if rec['op'] in self.M.obs:
                    if k not in obs and rec['op'] in self.M.stops and self.stopped(r, self.M.stops[rec['op']]):
                        tr.append(dict(rec, obs=[]))
                        return tr, None
                    if k not in obs:
                        problem = 'no observation of step %d (%s)' % (k, self.M.line(rec))
                        break
                    rec = dict(rec)
                    o = obs[k]
                    if rec['op'] in self.M.blocks:
                        q, i = [], 0
                        while i < len(o):
                            q.append(o[i + 1:i + 1 + o[i]])
                            i += 1 + o[i]
                        o = q
                    rec['obs'] = o
                tr.append(rec)
            if problem is None and (not done or r.rc != 0):
                problem = 'the run did not end cleanly'
            if problem:
                problem += ' (exit %s%s)\n%s' % (r.rc, ', timed out' if r.timeout else '', r.out[-2500:])
            return tr, problem
        finally:
            self.leave(d)
            shutil.rmtree(d, ignore_errors=True)


class Restarted(Scenario):
    """the program is run several times: the parts of the script are separated by records 'restart'"""

    def execute(self, exes, timeout=60):
        import copy
        parts = [[]]
        for r in self.recs:
            if r['op'] == 'restart':
                parts.append([])
            else:
                parts[-1].append(r)
        tr = []
        for k, p in enumerate(parts):
            s = copy.copy(self)
            s.recs = p
            t, problem = Scenario.execute(s, exes, timeout)
            tr += (t if k == 0 else [dict(op='restart')] + t[1:])
            if problem:
                return tr, problem
        return tr, None

    def script(self):
        return '\n'.join('restart' if r['op'] == 'restart' else self.M.line(r) for r in self.recs) + '\n'

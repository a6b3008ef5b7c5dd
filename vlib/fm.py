"""The field machine: harness fm, trace specification FieldTrace."""
from . import machine

# operation -> argument names; 'u','lo','hi','c' are vectors of length ndim, *x counted lists
SIG = {
    'set': 'f P v', 'cset': 'f P x y', 'cp': 'f P g d', 'self': 'f P d', 'two': 'f P g d h e s', 'fix': 'f P g',
    'star': 'f P g', 'add': 'f P g d', 'cond': 'f P g d m r', 'swp': 'f P g', 'gat': 'f d P', 'gwait': 'f d P',
    'asgv': 'f v', 'copy': 'f g', 'move': 'f g', 'swap': 'f g', 'conv': 'f g', 'clear': 'f', 'del': 'f', 'ctor': 'f g',
    'ctorm': 'f g', 'ctorv': 'f v', 'plus': 'f g h', 'neg': 'f g', 'pluseq': 'f g', 'mineq': 'f g',
    'setel': 'f s v', 'setelb': 'f s v', 'addel': 'f s v', 'subel': 'f s v', 'mulel': 'f s k', 'cmpel': 'f s k', 'setels': 'f *ss vs', 'setloc': 'f x y',
    'bc': 'f d b', 'cpbc': 'f g', 'shift': 'f g u', 'shiftp': 'f P g u', 'off': 'f P g u', 'off2': 'f P g u d', 'off3': 'f P g u w z',
    'dump': 'f', 'getel': 'f s', 'getelb': 'f s', 'getels': 'f b *ss', 'getsub': 'f b lo hi', 'getslice': 'f b c',
    'getloc': 'f', 'gethalo': 'f', 'getbc': 'f', 'init': 'f', 'eq': 'f g', 'sum': 'f P',
}
OBS = {'dump', 'getel', 'getelb', 'getels', 'getsub', 'getslice', 'getloc', 'gethalo', 'getbc', 'init', 'eq', 'sum'}
BLOCKS = {'getloc', 'gethalo'}


FM = machine.Machine('fm', SIG, OBS, BLOCKS)
op = FM.op


class Scenario(machine.Scenario):
    M = FM


class Misuse(Scenario):
    """a program whose last operation reads the field(s) g; the trace says whether the program stopped there"""

    def execute(self, exes, timeout=60):
        full, last = self.recs, self.recs[-1]
        tr, p = Scenario.execute(self, exes, timeout)
        # everything before the last operation must have been done: an observation precedes it
        stopped = p is not None and 'timed out' not in p and 'signal 11' not in p and 'Segmentation' not in p
        if p is not None and not stopped:
            return tr, p
        tr = [t for t in tr if t is not last][:len(full)]
        g = [last[k] for k in ('g', 'h') if k in last]
        done = tr[:1 + len(full) - 1]
        if stopped:
            if len(done) < len(full):
                return tr, p
            return done + [dict(op='stopped', g=g[0])], None
        return done + [dict(op='wenton', g=x) for x in g], None

"""The machine of the communication helpers: harness com, trace specification ComTrace."""
from . import machine

SIG = {'set': 'k n d p a b c m o', 'get': 'k', 'who': '', 'bcs': 't k root', 'bcc': 't k root', 'bc0': 't k', 'bcv': 't k root',
       'bca': 't k n root', 'bcr': 't k root', 'bct': 'k root', 'bcl': 'm d root', 'bc2': 't k j root',
       'rsum': 't k n all', 'rsum1': 't k all', 'rsum0': 't k', 'rprod': 't k n all', 'rprod1': 't k all', 'ext': 'k n all',
       'batch': 'all *ks', 'send': 't k from to j', 'sendv': 't k from to j', 'big': 't n d root', 'ring': 't n',
       'sync': '', 'bar': ''}
OBS = {'get', 'who', 'bcs', 'bcc', 'bcv', 'bca', 'bct', 'bcl', 'rsum1', 'rprod1', 'big', 'ring'}
CM = machine.Machine('com', SIG, OBS, OBS)
op = CM.op
NR = 6
CONST = 'CONSTANT NR = %d\n' % NR
MOVE = 'ilhfdszvm'
SUM = 'ilLuUfdzcvm'
PROD = 'ilufd'


class Scenario(machine.Scenario):
    M = CM

    def start(self):
        return dict(op='start', np=self.np)


def program(rng, np, steps):
    """random program; the generator keeps track of lengths and sizes of values to stay within what is exact"""
    recs = [op('who')]
    sg = rng.random() < 0.4         # negative values, then no unsigned sums
    ln, bd, known = {}, {}, {}

    def setk(k, small=False, least=0):
        p = rng.choice([1, 2, 4, 6]) + least + 1
        n, d = rng.randrange(0, 20), rng.choice([0, 0, 1, 1, 2, 3])
        if least:
            n = least + rng.randrange(0, 3)
            d = 0 if rng.random() < 0.5 else rng.choice([0, 1])
            p = 1000 if d == 0 else n + np + 1
        m = 3 if small else rng.choice([2, 7, 50, 97])
        o = -rng.randrange(0, m) if sg else 0
        recs.append(op('set', k, n, d, p, rng.randrange(0, 40), rng.randrange(0, 9), rng.randrange(0, 50), m, o))
        ln[k] = [(n + d * r) % p for r in range(np)]
        bd[k] = m
        known[k] = True

    def need(k, n=0, bound=100, same=False):
        if not known[k] or min(ln[k]) < n or bd[k] > bound or (same and len(set(ln[k])) > 1):
            if same:
                recs.append(op('set', k, n + rng.randrange(0, 3), 0, 1000, rng.randrange(0, 40), rng.randrange(0, 9),
                               rng.randrange(0, 50), min(bound, 50), -3 if sg else 0))
                ln[k] = [recs[-1]['n']] * np
                bd[k] = min(bound, 50)
                known[k] = True
            else:
                setk(k, bound < 4, n)
    for k in range(NR):
        setk(k)
    while len(recs) < steps:
        k = rng.randrange(NR)
        root = rng.randrange(np)
        z = rng.random()
        al = int(rng.random() < 0.7)
        if z < 0.1:
            setk(k)
        elif z < 0.28:
            o = rng.choice(['bcs', 'bcc', 'bc0', 'bcr', 'bca'])
            n = 3 if o == 'bcr' else 1
            if o == 'bca':
                n = rng.choice([0, 1, 2, 3])
            need(k, n)
            t = rng.choice(MOVE)
            if o == 'bc0':
                recs.append(op(o, t, k))
            elif o == 'bca':
                recs.append(op(o, t, k, n, root))
            else:
                recs.append(op(o, t, k, root))
        elif z < 0.4:
            need(k)
            recs.append(op('bcv', rng.choice(MOVE), k, root))
            ln[k] = [ln[k][root]] * np
        elif z < 0.48:
            need(k)
            recs.append(op('bct', k, root))
            ln[k] = [ln[k][root]] * np
        elif z < 0.53:
            for q in range(NR):
                need(q)
            m, d = rng.randrange(5), rng.randrange(4)
            recs.append(op('bcl', m, d, root))
            for q in range((m + d * root) % 5):
                ln[q] = [ln[q][root]] * np
        elif z < 0.58:
            j = (k + 1 + rng.randrange(NR - 1)) % NR
            need(k, 1)
            need(j, 1)
            recs.append(op('bc2', rng.choice(['id', 'dh', 'cl']), k, j, root))
        elif z < 0.7:
            n = rng.choice([0, 1, 1, 2, 3])
            t = rng.choice([x for x in SUM if not (sg and x in 'uU')] + ['x'])
            need(k, n, 3000)
            if t == 'x':
                recs.append(op('ext', k, n, al))
            elif n == 1 and rng.random() < 0.6:
                recs.append(op('rsum1', t, k, al) if rng.random() < 0.7 else op('rsum0', t, k))
                al = al if recs[-1]['op'] == 'rsum1' else 1
            else:
                recs.append(op('rsum', t, k, n, al))
            if n:
                bd[k] *= np
                known[k] = bool(al) or np == 1
        elif z < 0.76:
            n = rng.choice([1, 1, 2, 3])
            need(k, n, 3)
            t = rng.choice([x for x in PROD if not (sg and x == 'u')])
            recs.append(op('rprod1', t, k, al) if n == 1 and rng.random() < 0.5 else op('rprod', t, k, n, al))
            bd[k] = 6561
            known[k] = bool(al) or np == 1
        elif z < 0.83:
            ks = rng.sample(range(NR), rng.choice([1, 2, 3, 4]))
            for q in ks:
                need(q, 0, 3000, True)
            recs.append(op('batch', al, ks))
            for q in ks:
                bd[q] *= np
                if ln[q][0]:
                    known[q] = bool(al) or np == 1
        elif z < 0.93 and np > 1:
            for _ in range(rng.choice([1, 2, 4])):
                k, j = rng.randrange(NR), rng.randrange(NR)
                a = rng.randrange(np)
                b = (a + 1 + rng.randrange(np - 1)) % np
                need(k, 1)
                need(j)
                if rng.random() < 0.5:
                    recs.append(op('send', rng.choice(MOVE), k, a, b, j))
                    ln[j][b] = 1
                else:
                    recs.append(op('sendv', rng.choice(MOVE), k, a, b, j))
                    ln[j][b] = ln[k][a]
                bd[j] = max(bd[j], bd[k])
        elif z < 0.96:
            recs.append(op('big', rng.choice(MOVE), rng.choice([0, 1, 100, 3000, 20000]), rng.choice([0, 1, 7]), root))
        elif z < 0.98:
            recs.append(op('sync' if rng.random() < 0.5 else 'bar'))
        elif np > 1 and np % 2 == 0:
            recs.append(op('ring', rng.choice(MOVE), rng.choice([0, 5, 3000, 20000])))
        if rng.random() < 0.5:
            recs.append(op('get', k))
    recs += [op('get', k) for k in range(NR)]
    return recs

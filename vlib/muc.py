"""The machine of multicanonical weights: harness muc, trace specification MucaTrace."""
from . import machine, fmgen

SIG = {'init': 'k wf meth hard max min n fin S iv C cmin cs ib mh mi oc', 'wfun': 'k x', 'ar': 'k x y seed', 'iter': 'k x', 'cont': 'k y',
       'flag': 'k', 'setflag': 'k y', 'finish': 'k', 'write': 'k j', 'take': 'k j', 'make': 'k j kind *lim *w', 'drop': 'k j', 'file': 'k j'}
MU = machine.Machine('muc', SIG, {'init', 'wfun', 'ar', 'iter', 'flag', 'write', 'file'}, {'init', 'wfun', 'ar', 'iter', 'flag'})
op = MU.op


class Scenario(machine.Scenario):
    M = MU


class Obj:
    pass


def plan(rng, steps):
    recs = []
    mu = {}
    files = {}      # number -> (kind, number of bins, limits) of what is there
    inter = [None]

    def limits(n):
        x = 2 * rng.randint(-60, 20)
        l = [x]
        for _ in range(n):
            l.append(l[-1] + 2 * rng.choice([1, 2, 4, 8, 8, 8, 16]))
        return l

    def init(k):
        wf = -1
        if files and rng.random() < 0.5:
            wf = rng.choice(sorted(files))
        elif rng.random() < 0.08:
            wf = rng.randrange(4)
        n = rng.choice([2, 3, 4, 5, 6])
        h = rng.choice([4, 8, 16, 16, 32, 10])
        lo = rng.randint(-64, 32)
        meth = rng.choice([0, 0, 1, 2, 2, 3])
        hard = int(meth != 2 and rng.random() < 0.4)
        S = rng.choice([1, 2, 4, 5, 8, 12]) if meth == 0 else rng.choice([2, 4, 5, 8])
        C = rng.choice([100, 1000, 2000, 500, 50])
        k_ = rng.choice([1, 2, 3, 5])
        cmin = int(C * (2 / 3)**k_ * 1.13) + 1
        cs = rng.choice([4, 6, 8, 12])
        recs.append(op('init', k, wf, meth, hard, lo + h * (n - 1), lo, n, rng.choice([0, 0, 1, 2]), S, rng.choice([1, 2, 3, 5]), C, cmin,
                       cs, rng.choice([0, 1, 5]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 100, 250]), rng.choice([0, 100, 200, 50])))
        f = files.get(wf)
        mu.pop(k, None)
        if wf < 0 or (f and f[0] == 'ok'):
            o = Obj()
            o.lim = [lo - h // 2 + h * i for i in range(n + 1)] if wf < 0 else f[1]
            o.canon = meth == 2
            o.visits = 0
            mu[k] = o

    def value(o):
        z = rng.random()
        l = o.lim
        if z < 0.12:
            return rng.choice(l)
        if z < 0.24:
            i = rng.randrange(len(l) - 1)
            return (l[i] + l[i + 1]) // 2
        if z < 0.3:
            return rng.choice([l[0] - 5, l[-1] + 7, l[0] - 1, l[-1] + 1])
        return rng.randint(l[0] + 1, l[-1] - 1)
    for _ in range(steps):
        k = rng.randrange(2)
        z = rng.random()
        if k not in mu or z < 0.03:
            if rng.random() < 0.3:
                j = rng.randrange(4)
                n = rng.choice([1, 2, 3, 4, 6])
                kind = rng.choice([0, 0, 1, 1, 2, 3, 4])
                lim = limits(n)
                recs.append(op('make', k, j, kind, lim, [rng.choice([0, 1, -1]) * rng.randint(0, 30000) for _ in range(n)]))
                files[j] = ('bad' if kind > 1 else 'ok', lim)
            init(k)
            continue
        o = mu[k]
        if z < 0.22:
            recs.append(op('wfun', k, value(o)))
        elif z < 0.62:
            # a run of visits
            focus = rng.choice([None, None, value(o)])
            for _ in range(rng.choice([1, 3, 8, 20])):
                x = focus if focus is not None and rng.random() < 0.5 else value(o)
                if o.visits < 120:
                    recs.append(op('iter', k, x))
                    o.visits += 1
            if rng.random() < 0.7:
                recs.append(op('wfun', k, value(o)))
        elif z < 0.82:
            for _ in range(rng.choice([1, 3, 8])):
                recs.append(op('ar', k, value(o), value(o), rng.randrange(1, 10000)))
                o.visits += 1
        elif z < 0.86:
            recs.append(op('cont', k, rng.choice([0, 1, 1])))
        elif z < 0.89:
            recs.append(op('flag', k))
        elif z < 0.9:
            recs.append(op('setflag', k, rng.randrange(2)))
        elif z < 0.92:
            if len(o.lim) > 2:
                recs.append(op('finish', k))
        elif z < 0.98:
            j = rng.choice([-1, 0, 1, 2, 3, 0, 1, 2, 3])
            recs.append(op('write', k, j))
            if j >= 0:
                files[j] = ('ok', o.lim, True)
                recs.append(op('file', k, j))
        else:
            j = rng.randrange(4)
            if rng.random() < 0.3:
                recs.append(op('drop', k, j))
                files.pop(j, None)
    for k, o in mu.items():
        for a, b in zip(o.lim, o.lim[1:]):
            recs.append(op('wfun', k, (a + b) // 2))
        recs.append(op('flag', k))
    return recs


def scenario(rng, variant, steps):
    np, size = fmgen.pick(rng, variant, None, 30)
    return Scenario(variant, np, '-', size, plan(rng, steps))

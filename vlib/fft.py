"""The machine of Fourier transforms: harness fft, trace specification FourierTrace."""
from . import machine, fmgen

SIG = {'set': 't k seed', 'copy': 't k j', 'fft': 't k j form sg D', 'fftin': 't k sg D', 'fftall': 't k j form sg', 'ref': 't k j D',
       'refdir': 't k j d', 'refall': 't k j', 'r2c': 't k j sg', 'c2r': 't k j sg', 'get': 't k', 'wave': 'c'}
FM = machine.Machine('fft', SIG, {'get', 'wave'})
op = FM.op
NUM = dict(z=2, c=2, v=4, m=8, d=1, f=1)


class Scenario(machine.Scenario):
    M = FM


def prod(s):
    p = 1
    for x in s:
        p *= x
    return p


def plan(rng, size, steps, budget):
    """a program; st: (type, slot) -> [signs, scale]"""
    nd = len(size)
    vol = prod(size)
    recs = []
    st = {}
    cost = [0]

    def get(t, k):
        sg, sc = st[t, k]
        c = vol * NUM[t] * (prod(L for L, s in zip(size, sg) if s) if any(sg) else 1)
        if any(sg):
            c = max(c, vol * vol * NUM[t] // 4)
        if cost[0] + c > budget:
            return
        cost[0] += c
        recs.append(op('get', t, k))

    def dirs():
        z = rng.random()
        if z < 0.06:
            return [0] * nd
        if z < 0.3:
            return [1] * nd
        return [int(rng.random() < 0.5) for _ in range(nd)]

    def transformed(s, D, sign):
        sg, sc = list(s[0]), s[1]
        for d in range(nd):
            if D[d]:
                if sg[d] == 0:
                    sg[d] = sign
                else:
                    sg[d] = 0
                    sc *= size[d]
        return [sg, sc]
    main = rng.choice(['z', 'z', 'c', 'v', 'm'])
    types = [main, rng.choice(['z', 'c', 'd', 'f', 'v'])]
    for _ in range(steps):
        t = rng.choice(types)
        have = [k for (u, k) in st if u == t]
        z = rng.random()
        k = rng.randrange(4)
        if not have or z < 0.12:
            recs.append(op('set', t, k, rng.randrange(1000)))
            st[t, k] = [[0] * nd, 1]
            continue
        k = rng.choice(have)
        j = rng.randrange(4)
        s = st[t, k]
        sign = rng.choice([0, 1])
        sg = -1 if sign else 1
        if z < 0.17:
            recs.append(op('copy', t, k, j))
            if j != k:
                st[t, j] = [list(s[0]), s[1]]
        elif t in 'df':
            if any(s[0]) or s[1] > 1:
                get(t, k)
                continue
            recs.append(op('r2c', t, k, j, sign))
            u = 'z' if t == 'd' else 'c'
            st[u, j] = [[sg] * nd, 1]
            if rng.random() < 0.6:
                get(u, j)
            if rng.random() < 0.5 and all(L % 2 == 0 for L in size):
                sign2 = rng.choice([0, 1])
                recs.append(op('c2r', u, j, k, sign2))
                st[t, k] = [[0] * nd, vol]
                get(t, k)
                del st[t, k]
        elif t in 'zc' and z < 0.35:
            D = dirs()
            o = rng.choice(['ref', 'ref', 'refdir', 'refall'])
            if o == 'ref':
                recs.append(op('ref', t, k, j, D))
            elif o == 'refdir':
                recs.append(op('refdir', t, k, j, rng.randrange(nd)))
            else:
                recs.append(op('refall', t, k, j))
            st[t, j] = [list(s[0]), s[1]]
            get(t, j)
        elif t in 'zc' and z < 0.47 and all(L % 2 == 0 for L in size) and not any(s[0]) and s[1] == 1:
            recs.append(op('c2r', t, k, j, sign))
            u = 'd' if t == 'z' else 'f'
            st[u, j] = [[sg] * nd, 1]
            get(u, j)
            if rng.random() < 0.5:
                del st[u, j]
        else:
            z = rng.random()
            D = dirs() if z < 0.7 else [1] * nd
            n = transformed(s, D, sg)
            if n[1] > vol:
                # start anew
                recs.append(op('set', t, k, rng.randrange(1000)))
                st[t, k] = [[0] * nd, 1]
                continue
            if z < 0.5:
                recs.append(op('fft', t, k, j, rng.choice([0, 1, 2]), sign, D))
            elif z < 0.7:
                j = k
                recs.append(op('fftin', t, k, sign, D))
            else:
                recs.append(op('fftall', t, k, j, rng.choice([0, 1]), sign))
            st[t, j] = n
            if rng.random() < 0.5:
                get(t, j)
            if rng.random() < 0.3 and j != k:
                get(t, k)
    for (t, k) in sorted(st):
        get(t, k)
    for _ in range(4):
        recs.append(op('wave', [rng.choice([rng.randrange(L), L // 2, L // 2 + 1, rng.randrange(-L, 2 * L)]) for L in size]))
    return recs


def scenario(rng, variant, maxvol, steps, budget, np=None):
    np, size = fmgen.pick(rng, variant, np, maxvol)
    return Scenario(variant, np, '-', size, plan(rng, size, steps, budget))

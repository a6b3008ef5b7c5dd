"""The machine of selections and clusters: harness sel, trace specification SelectTrace."""
from . import machine

SIG = {'own': '', 'types': '*v', 'vals': 'a m b', 'snew': 'k max nj', 'wnew': 'k max nj', 'ssel': 'k P f c', 'wsel': 'k P f c',
       'sel2': 'k j P c', 'scopy': 'k j', 'wcopy': 'k j', 'sclear': 'k', 'wclear': 'k', 'sjoin': 'k', 'wjoin': 'k',
       'sget': 'k', 'wget': 'k', 'smove': 'k', 'find': 'w *v', 'findl': 'w *v', 'clab': '', 'citer': '', 'carea': 'i', 'csites': 'i'}
BLOCKS = {'own', 'sget', 'wget', 'smove'}
OBS = BLOCKS | {'find', 'findl', 'clab', 'citer', 'carea', 'csites'}
SM = machine.Machine('sel', SIG, OBS, BLOCKS)
op = SM.op
TYPES = ['int', 'dbl', 'v3d']
CONST = 'CONSTANT NS = 3\n'


class Scenario(machine.Scenario):
    M = SM


def pattern(rng, size, classes):
    """classes of the sites: random with some density, stripes, blocks, all the same"""
    nd = len(size)
    vol = 1
    for s in size:
        vol *= s
    z = rng.random()
    if z < 0.1:
        return [rng.choice(classes)] * vol
    if z < 0.2:
        v = [classes[0]] * vol
        for _ in range(rng.choice([1, 1, 2, 5])):
            v[rng.choice([0, vol - 1, rng.randrange(vol)])] = rng.choice(classes)
        return v
    if z < 0.5:
        w = [rng.random() ** 2 + 0.02 for _ in classes]
        return rng.choices(classes, w, k=vol)
    # geometric: function of the coordinates
    a = [rng.randrange(0, 3) for _ in size]
    m = rng.choice([2, 3, 4, 5])
    c0, c1 = rng.choice(classes), rng.choice(classes)
    r = []
    for i in range(vol):
        k, x = i, []
        for s in size:
            x.append(k % s)
            k //= s
        r.append(c0 if sum(p * q for p, q in zip(a, x)) % m < m // 2 else c1)
    for _ in range(rng.choice([0, 0, 1, 3, 8])):
        r[rng.randrange(vol)] = rng.choice(classes)
    return r


def snake(rng, size, bg):
    """a self-avoiding path: clusters that need many sweeps"""
    nd = len(size)
    vol = 1
    for s in size:
        vol *= s
    st = [1]
    for s in size:
        st.append(st[-1] * s)

    def nbs(i):
        for k in range(nd):
            c = i // st[k] % size[k]
            yield i - c * st[k] + (c + 1) % size[k] * st[k]
            yield i - c * st[k] + (c - 1) % size[k] * st[k]
    v = [bg] * vol
    i = rng.randrange(vol)
    for _ in range(vol):
        v[i] = 1
        c = [j for j in nbs(i) if v[j] == bg and sum(v[k] == 1 for k in nbs(j)) <= 1]
        if not c:
            break
        i = rng.choice(c)
    return v


def select_program(rng, size, steps):
    vol = 1
    for s in size:
        vol *= s
    recs = [op('own')]
    have = {}       # (kind, k) -> state
    ncl = rng.choice([2, 3, 5])

    def mx():
        return rng.choice([-1, -1, -1, 0, 1, 2, 5, vol // 3, vol - 1, vol])

    def setup():
        recs.append(op('types', pattern(rng, size, list(range(ncl)))))
        if rng.random() < 0.7:
            recs.append(op('vals', rng.choice([1, 2, -1, 3]), rng.choice([3, 7, 1000]), rng.randrange(-20, 20)))
    recs.append(op('vals', 1, 1000, 5))
    setup()
    recs[1], recs[2] = recs[1], recs[2]
    while len(recs) < steps:
        z = rng.random()
        if z < 0.1:
            setup()
        elif z < 0.25 or not have:
            q, k = rng.choice('sw'), rng.randrange(3)
            nj = int(rng.random() < 0.35)
            recs.append(op(q + 'new', k, mx(), nj))
            have[q, k] = ['new', nj]
        elif z < 0.65:
            q, k = rng.choice(sorted(have))
            P, f, c = rng.choice('EOAA'), rng.choice([0, 0, 1, 2, 3]), rng.randrange(ncl + (rng.random() < 0.1))
            s = [x for x in have if x[0] == 's']
            w = [x for x in have if x[0] == 'w']
            if s and w and rng.random() < 0.25:
                a, b = rng.choice(sorted(s)), rng.choice(sorted(w))
                recs.append(op('sel2', a[1], b[1], P, c))
                have[a][0] = have[b][0] = 'full'
                recs += [op('sget', a[1]), op('wget', b[1])]
                continue
            recs.append(op(q + 'sel', k, P, f, c))
            have[q, k][0] = 'full'
            if rng.random() < 0.8:
                recs.append(op(q + 'get', k))
        elif z < 0.75:
            c = [x for x in sorted(have) if have[x][0] == 'full']
            if c:
                q, k = rng.choice(c)
                recs.append(op(q + 'join', k))
                recs.append(op(q + 'get', k))
        elif z < 0.82:
            q, k = rng.choice(sorted(have))
            j = rng.randrange(3)
            if j != k:
                recs.append(op(q + 'copy', j, k))
                have[q, j] = list(have[q, k])
                recs.append(op(q + 'get', j))
        elif z < 0.87:
            q, k = rng.choice(sorted(have))
            recs.append(op(q + 'clear', k))
            have[q, k][0] = 'clear'
            recs.append(op(q + 'get', k))
        elif z < 0.92:
            c = [x for x in sorted(have) if have[x][0] == 'full' and x[0] == 's']
            if c:
                q, k = rng.choice(c)
                recs.append(op('smove', k))
                del have[q, k]
        else:
            q, k = rng.choice(sorted(have))
            recs.append(op(q + 'get', k))
    return recs


def cluster_program(rng, size, count):
    vol = 1
    for s in size:
        vol *= s
    recs = []
    for _ in range(count):
        if rng.random() < 0.6:
            cls = rng.choice([[1, 255], [0, 255], [0, 1], [0, 1, 255], [254, 255, 0], [3, 7, 20, 255], [254, 253]])
            v = snake(rng, size, 255) if rng.random() < 0.25 else pattern(rng, size, cls)
            recs.append(op('find', rng.randrange(4), v))
        else:
            v = []
            for k in size:
                if rng.random() < 0.4:
                    p = rng.choice([0.05, 0.2, 0.5])
                    v += [rng.choice([1, 1, 2, 255]) if rng.random() < p else 0 for _ in range(vol)]
                else:
                    v += [x and 1 for x in pattern(rng, size, [0, 1])]
            recs.append(op('findl', rng.randrange(3), v))
        recs.append(op('clab'))
        for i in range(3):
            recs.append(op('carea', rng.choice([0, 1, 2, 3, 5])))
            recs.append(op('csites', rng.choice([0, 1, 2, 4])))
        recs.append(op('citer'))
    return recs

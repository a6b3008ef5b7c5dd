"""The machine of gauge fields: harness gau, trace specification GaugeTrace."""
import math
from . import machine, fmgen

SIG = {'group': 't n', 'fill': 'r seed', 'unit': 'r e', 'link': 'r d s e', 'trans': 'r seed', 'copy': 'r q', 'reuni': 'r',
       'get': 'r d', 'plaq': 'r kind', 'impr': 'r a b', 'poly': 'r d', 'stap': 'r d par', 'wstap': 'r d par seed',
       'rstap': 'r d', 'staps': 'r kind', 'wline': 'r *p', 'fwl': 'r *p a kind seed', 'fplaq': 'r a b add seed',
       'fimpr': 'r a b add seed', 'fclov': 'r a b add seed', 'sclov': 'r', 'topo': 'r', 'gauss': 'r seed', 'degauss': 'r seed',
       'over': 'r d kind', 'smear': 'r kind', 'covar': 'r c iter seed', 'block': 'r fac d'}
GAU = machine.Machine('gau', SIG, set(SIG) - {'group', 'fill', 'unit', 'link', 'trans', 'copy', 'reuni'})
op = GAU.op


class Scenario(machine.Scenario):
    M = GAU


def closed(rng, size):
    """a path that ends where it begins"""
    nd = len(size)
    a, b = rng.sample(range(1, nd + 1), 2)
    a *= rng.choice([1, -1])
    b *= rng.choice([1, -1])
    z = rng.random()
    if z < 0.3:
        p = [a, b, -a, -b]
    elif z < 0.5:
        p = [a] + [b] * 2 + [-a] + [-b] * 2
    elif z < 0.6:
        p = [a, b, -a, -b] * 2
    elif z < 0.7:
        p = [a] * size[abs(a) - 1]
    else:
        p = [rng.choice([1, -1]) * rng.randint(1, nd) for i in range(rng.randint(1, 4))]
        back = [-x for x in p]
        rng.shuffle(back)
        p = p + back
    k = rng.randrange(len(p))
    return p[k:] + p[:k]


def plan(rng, size, steps):
    vol, nd = math.prod(size), len(size)
    t, n = rng.choice([('z', 2), ('z', 3), ('z', 3), ('c', 3)])
    order = 8 if n == 2 else 96
    recs = [op('group', t, n)]
    for r in range(3):
        recs.append(op('fill', r, rng.randrange(1000)))
    budget = 250000
    seed = lambda: rng.randrange(1000)
    while len(recs) < steps:
        r = rng.randrange(3)
        d = rng.randrange(nd)
        z = rng.choice(['fill', 'unit', 'link', 'trans', 'copy', 'reuni', 'get', 'plaq', 'plaq', 'impr', 'poly', 'stap', 'stap', 'wstap',
                        'wstap', 'rstap', 'staps', 'wline', 'wline', 'fwl', 'fwl', 'fplaq', 'fimpr', 'fclov', 'sclov', 'topo',
                        'gauss', 'degauss', 'over', 'smear', 'covar', 'block', 'block'])
        par = rng.choice('AEO')
        m = 2 * n * n
        one = vol * m
        cost = dict(get=one, stap=one * 3, wstap=one * 3, rstap=one * 3, staps=one * nd * 3, wline=one, fwl=one * nd * 2, fplaq=one * nd * 3,
                    fimpr=one * nd * 9, fclov=one * nd * (nd - 1) * 60, sclov=one * nd * nd, topo=one * nd * nd * 2, gauss=one * 3, over=one * 8,
                    smear=one * nd * 6, block=one).get(z, vol)
        if cost > budget:
            continue
        budget -= cost
        if z == 'fill':
            recs.append(op(z, r, seed()))
            if rng.random() < 0.2:
                recs.append(op('unit', r, rng.choice([0, rng.randrange(order)])))
                for _ in range(rng.randint(1, 4)):
                    recs.append(op('link', r, rng.randrange(nd), rng.randrange(vol), rng.randrange(order)))
        elif z == 'unit':
            if rng.random() < 0.3:
                recs.append(op(z, r, rng.randrange(order)))
        elif z == 'link':
            for _ in range(rng.randint(1, 3)):
                recs.append(op(z, r, rng.randrange(nd), rng.randrange(vol), rng.randrange(order)))
        elif z == 'trans':
            recs.append(op(z, r, seed()))
        elif z == 'copy':
            recs.append(op(z, r, rng.randrange(3)))
        elif z == 'reuni':
            recs += [op(z, r), op('get', r, d)]
        elif z in ('get', 'poly', 'rstap'):
            recs.append(op(z, r, d))
        elif z == 'plaq':
            recs.append(op(z, r, rng.randrange(3)))
        elif z == 'impr':
            recs.append(op(z, r, rng.randint(-3, 5), rng.randint(-3, 3)))
        elif z == 'stap':
            recs.append(op(z, r, d, par))
        elif z == 'wstap':
            recs.append(op(z, r, d, par, seed()))
        elif z in ('staps',):
            recs.append(op(z, r, rng.randrange(2)))
        elif z == 'wline':
            p = [rng.choice([1, -1]) * rng.randint(1, nd) for i in range(rng.choice([1, 2, 3, 4, 6]))] if rng.random() < 0.7 else closed(rng, size)
            recs.append(op(z, r, p))
        elif z == 'fwl':
            kind = rng.randrange(4)
            p = closed(rng, size) if kind < 2 or rng.random() < 0.5 else [rng.choice([1, -1]) * rng.randint(1, nd) for i in range(rng.randint(1, 4))]
            recs.append(op(z, r, p, rng.choice([1, 1, -1, 2, 3]), kind, seed()))
        elif z == 'fplaq':
            recs.append(op(z, r, rng.choice([1, -1, 2]), 0, rng.randrange(2), seed()))
        elif z == 'fimpr':
            recs.append(op(z, r, rng.choice([1, -1, 2]), rng.choice([0, 1, -2]), rng.randrange(2), seed()))
        elif z == 'fclov':
            recs.append(op(z, r, rng.choice([1, -1, 2]), 0, rng.randrange(2), seed()))
        elif z == 'sclov':
            recs.append(op(z, r))
        elif z == 'topo':
            recs.append(op(z, r))
        elif z in ('gauss', 'degauss'):
            if z == 'gauss' or (nd < 4 and rng.random() < 0.2):      # its steps are made for up to 3 directions
                recs.append(op(z, r, seed()))
        elif z == 'over':
            if n == 2:
                recs.append(op(z, r, d, rng.choice([0, 1, 3])))
        elif z == 'smear':
            if t == 'z':
                recs.append(op(z, r, rng.randrange(3)))
        elif z == 'covar':
            recs.append(op(z, r, rng.choice([0, 5, 10, 15]), rng.randint(1, 4), seed()))
        elif z == 'block':
            fac = [rng.choice([1, 2]) for k in range(nd)]
            if any(f > 1 for f in fac):
                recs.append(op(z, r, fac, d))
    return recs


def scenario(rng, variant, steps):
    np, size = fmgen.pick(rng, variant, maxvol=64)
    return Scenario(variant, np, 'x', size, plan(rng, size, steps))

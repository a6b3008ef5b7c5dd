"""Finds the (size, ranks) pairs which lay out, for the scenario generators: writes vlib/layouts.py"""
import sys, itertools
sys.path.insert(0, '/verif')
from vlib import build, fm, run
BASE = {
    'v1': [(8,), (5,), (13,), (12,)],
    'v2': [(4, 6), (8, 4), (5, 4), (3, 7), (6, 6), (9, 4), (2, 12)],
    'v3': [(4, 4, 4), (4, 6, 2), (2, 4, 8), (6, 5, 4), (3, 4, 5), (4, 3, 7), (6, 6, 4)],
    'v4': [(4, 2, 4, 2), (2, 4, 2, 6), (3, 2, 4, 2), (4, 4, 4, 2), (3, 5, 2, 2)],
    'a2': [(8, 8), (16, 8), (8, 4), (12, 8)],
    'a3': [(4, 4, 8), (8, 8, 4), (4, 4, 4), (4, 12, 4), (6, 4, 8)],
    'a4': [(4, 4, 4, 4), (4, 4, 4, 2), (8, 4, 4, 2)],
    'o3': [(4, 4, 4), (4, 6, 2), (3, 4, 5)],
}
ex = build.build([(v, 'fm') for v in BASE])
out = {}
for v, l in BASE.items():
    c = [(s, np) for b in l for s in sorted(set(itertools.permutations(b))) for np in (1, 2, 3, 4, 5, 6, 8)]
    if v == 'v4' or v == 'a4':
        c = [x for k, x in enumerate(c) if x[1] in (1, 2, 4) or k % 3 == 0]

    def t(x):
        s, np = x
        tr, p = fm.Scenario(v, np, 'dbl', s, [fm.op('set', 0, 'A', 1), fm.op('init', 0)]).execute(ex)
        return p is None
    ok = run.parallel(t, c, 6)
    d = {}
    for (s, np), o in zip(c, ok):
        if o:
            d.setdefault(np, []).append(s)
    out[v] = d
    print(v, {n: len(x) for n, x in d.items()}, sum(not o for o in ok), 'refused')
with open('/verif/vlib/layouts.py', 'w') as f:
    f.write('# made by tools/mklayouts.py: sizes that lay out, per variant and number of ranks\nLAYOUTS = {\n')
    for v in out:
        f.write('    %r: {\n' % v)
        for n in out[v]:
            f.write('        %d: %r,\n' % (n, out[v][n]))
        f.write('    },\n')
    f.write('}\n')

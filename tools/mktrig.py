"""Writes spec/TrigTable.tla: cosines and sines for all phases which occur with the lattice sizes in use."""
import math, itertools, sys
sys.path.insert(0, '/verif')
from vlib.layouts import LAYOUTS
Ns = {1, 2, 3, 4}
for v, l in LAYOUTS.items():
    if v[0] == 'v':
        for n, ss in l.items():
            for s in ss:
                for r in range(1, len(s) + 1):
                    for c in itertools.combinations(s, r):
                        Ns.add(math.lcm(*c))
Ns = sorted(Ns)
print(Ns)


def seq(f, n):
    return '<<' + ', '.join(str(int(math.floor(1e6 * f(2 * math.pi * j / n) + .5))) for j in range(n)) + '>>'


o = open('/verif/spec/TrigTable.tla', 'w')
o.write('------------------------------ MODULE TrigTable ------------------------------\n'
        '(* Cosines and sines in millionths: CosT[n][j + 1] = 10^6 cos(2 pi j / n).  Written by tools/mktrig.py;   *)\n'
        '(* FourierMC checks the tables.                                                                         *)\nEXTENDS Integers, TLC\n')
for nm, f in (('CosT', math.cos), ('SinT', math.sin)):
    o.write('%s ==\n  ' % nm + ' @@\n  '.join('(%d :> %s)' % (n, seq(f, n)) for n in Ns) + '\n')
o.write('Orders == {%s}\n' % ', '.join(map(str, Ns)))
o.write('=' * 78 + '\n')

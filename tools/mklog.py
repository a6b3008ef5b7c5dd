"""Writes spec/LogTable.tla."""
import math
L = [round(1e5 * math.log(n)) for n in range(256, 512)]
X = [round(1e6 * math.exp(-j / 8)) for j in range(0, 136)]


def seq(v):
    o, l = [], '  '
    for i, x in enumerate(v):
        t = str(x) + (', ' if i + 1 < len(v) else '')
        if len(l) + len(t) > 100:
            o.append(l.rstrip())
            l = '  '
        l += t
    return '\n'.join(o + [l])


open('/verif/spec/LogTable.tla', 'w').write("""------------------------------- MODULE LogTable -------------------------------
(* Logarithms and exponentials.  Written by tools/mklog.py.                                               *)
(* LogT[n - 255] = 10^5 ln n for n = 256..511, ExpT[j + 1] = 10^6 exp(-j / 8)                              *)
LogT == <<
%s>>
ExpT == <<
%s>>
=============================================================================
""" % (seq(L), seq(X)))

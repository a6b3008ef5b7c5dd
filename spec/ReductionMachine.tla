-------------------------- MODULE ReductionMachine --------------------------
(* Reductions over site loops.                                              *)
(*   pv   plain variables: value and who knows it ("all" ranks or "root")   *)
(*   off  all-reduce switched off for the next loop                         *)
(*   rd   Reduction<T> variables   vd  ReductionVector<T> variables         *)
(*   mm   fields for min and max: codes of values, ordered like the values  *)
(* Pending contributions are those of delayed loops not yet reduced.        *)
EXTENDS Lattice, TLC

NV == 4
Vars == 0..(NV - 1)
VARIABLES geo, pv, mixv, ext, off, rd, vd, mm
rvars == <<geo, pv, mixv, ext, off, rd, vd, mm>>

Plain(v, k) == [v |-> v, known |-> k]
NewR(v) == [v |-> v, known |-> "all", pend |-> FALSE, allr |-> TRUE, nb |-> FALSE, del |-> FALSE]
NewV(n, v) == [el |-> [i \in 1..n |-> v], add |-> [i \in 1..n |-> 0], mul |-> [i \in 1..n |-> 1], pend |-> "none",
               out |-> FALSE, known |-> "all", allr |-> TRUE, nb |-> FALSE, del |-> FALSE]

Start(sz) ==
  /\ geo' = Geometry(sz)
  /\ pv' = [k \in Vars |-> Plain(0, "all")]
  /\ mixv' = Plain(<<0, 0, 0>>, "all")
  /\ ext' = Plain(0, "all")
  /\ off' = FALSE
  /\ rd' = [k \in Vars |-> NewR(0)]
  /\ vd' = [k \in Vars |-> NewV(5, 0)]
  /\ mm' = [f \in {0, 1} |-> <<>>]

\* the contribution of site i (0-based index i - 1)
W(a, m, b, i) == a * ((i - 1) % m) + b

RECURSIVE SumW(_, _, _, _, _)
SumW(P, a, m, b, n) == IF n = 0 THEN 0
                       ELSE SumW(P, a, m, b, n - 1) + (IF InPar(geo, P, n) THEN W(a, m, b, n) ELSE 0)
Total(P, a, m, b) == SumW(P, a, m, b, geo.vol)

RECURSIVE SumC(_, _, _, _, _)
SumC(P, a, m, b, n) == IF n = 0 THEN 0
                       ELSE SumC(P, a, m, b, n - 1) +
                            (IF InPar(geo, P, n) /\ (n - 1) % m = 1 THEN a * (n - 1) + b ELSE 0)

RECURSIVE SumN(_, _, _, _, _)
SumN(P, a, m, b, n) == IF n = 0 THEN 0
                       ELSE SumN(P, a, m, b, n - 1) +
                            (IF InPar(geo, P, n)
                             THEN W(a, m, b, Neighbour(geo, n, 1)) + W(a, m, b, Neighbour(geo, n, -1)) ELSE 0)

F(m, r, i) == (IF (i - 1) % m = r THEN 2 ELSE 1) * (IF (i - 1) % 5 = 1 THEN -1 ELSE 1)
RECURSIVE Prod(_, _, _, _)
Prod(P, m, r, n) == IF n = 0 THEN 1
                    ELSE Prod(P, m, r, n - 1) * (IF InPar(geo, P, n) THEN F(m, r, n) ELSE 1)

\* sites of element e (1-based) of a vector of n elements
Bin(n, i) == (((i - 1) \div 2) % n) + 1
RECURSIVE SumB(_, _, _, _, _, _, _)
SumB(P, a, m, b, n, e, k) ==
  IF k = 0 THEN 0
  ELSE SumB(P, a, m, b, n, e, k - 1) + (IF InPar(geo, P, k) /\ Bin(n, k) = e THEN W(a, m, b, k) ELSE 0)
RECURSIVE SumX(_, _, _, _, _, _, _)
SumX(P, a, m, b, n, e, k) ==
  IF k = 0 THEN 0
  ELSE SumX(P, a, m, b, n, e, k - 1) +
       (IF InPar(geo, P, k) /\ (geo.cs[k][1] % n) + 1 = e THEN -2 * W(a, m, b, k) ELSE 0)
RECURSIVE ProdB(_, _, _, _, _, _)
ProdB(P, m, r, n, e, k) ==
  IF k = 0 THEN 1
  ELSE ProdB(P, m, r, n, e, k - 1) * (IF InPar(geo, P, k) /\ Bin(n, k) = e THEN F(m, r, k) ELSE 1)

Seen == IF off THEN "root" ELSE "all"
\* every site loop ends the effect of set_allreduce(false)
LoopDone == off' = FALSE

(* ------------------------------ plain variables ------------------------ *)
PlainAdd(S) ==     \* S: set of <<k, amount>>
  pv' = [k \in Vars |-> IF \E s \in S : s[1] = k
                        THEN Plain(pv[k].v + (CHOOSE s \in S : s[1] = k)[2], Seen) ELSE pv[k]]
SumLoop(S) == /\ PlainAdd(S) /\ LoopDone /\ UNCHANGED <<geo, mixv, ext, rd, vd, mm>>
MixLoop(P, a, m, b) ==
  LET t == Total(P, a, m, b)
  IN /\ mixv' = Plain(<<mixv.v[1] + t, mixv.v[2] + 2 * t, mixv.v[3] + 3 * t>>, Seen)
     /\ LoopDone /\ UNCHANGED <<geo, pv, ext, rd, vd, mm>>
ExtLoop(P, a, m, b) ==
  /\ ext' = Plain(ext.v + Total(P, a, m, b), Seen)
  /\ LoopDone /\ UNCHANGED <<geo, pv, mixv, rd, vd, mm>>
ProdLoop(k, P, m, r) ==        \* products are always known everywhere
  /\ pv' = [pv EXCEPT ![k] = Plain(@.v * Prod(P, m, r, geo.vol), "all")]
  /\ LoopDone /\ UNCHANGED <<geo, mixv, ext, rd, vd, mm>>
Assign(k, x, kn) == /\ pv' = [pv EXCEPT ![k] = Plain(x, kn)] /\ UNCHANGED <<geo, mixv, ext, off, rd, vd, mm>>
AssignLoop(k, x, kn) == /\ pv' = [pv EXCEPT ![k] = Plain(x, kn)] /\ LoopDone /\ UNCHANGED <<geo, mixv, ext, rd, vd, mm>>
AllReduce(b) == /\ off' = (b = 0) /\ UNCHANGED <<geo, pv, mixv, ext, rd, vd, mm>>
EmptyLoop == LoopDone /\ UNCHANGED <<geo, pv, mixv, ext, rd, vd, mm>>

(* ------------------------------ Reduction ------------------------------ *)
RAdd(q, x) == [q EXCEPT !.v = @ + x, !.pend = q.del,
                        !.known = IF q.del THEN @ ELSE IF q.allr THEN "all" ELSE "root"]
RDone(q) == IF q.pend THEN [q EXCEPT !.pend = FALSE, !.known = IF q.allr THEN "all" ELSE "root"] ELSE q

RLoop(S, A) ==        \* S: set of <<k, amount>> for Reductions, A for plain variables
  /\ rd' = [k \in Vars |-> IF \E s \in S : s[1] = k THEN RAdd(rd[k], (CHOOSE s \in S : s[1] = k)[2]) ELSE rd[k]]
  /\ PlainAdd(A) /\ LoopDone
  /\ UNCHANGED <<geo, mixv, ext, vd, mm>>
RNew(k, x) == /\ rd' = [rd EXCEPT ![k] = NewR(x)] /\ UNCHANGED <<geo, pv, mixv, ext, off, vd, mm>>
RSet(k, x) == /\ rd' = [rd EXCEPT ![k].v = x, ![k].pend = FALSE, ![k].known = "all"]
              /\ UNCHANGED <<geo, pv, mixv, ext, off, vd, mm>>
RMode(k, a, n, d) == /\ rd' = [rd EXCEPT ![k].allr = (a = 1), ![k].nb = (n = 1), ![k].del = (d = 1)]
                     /\ UNCHANGED <<geo, pv, mixv, ext, off, vd, mm>>
RReduce(k) == /\ rd' = [rd EXCEPT ![k] = RDone(@)] /\ UNCHANGED <<geo, pv, mixv, ext, off, vd, mm>>

(* ------------------------------ ReductionVector ------------------------ *)
VKnown(q) == IF q.allr THEN "all" ELSE "root"
\* all pending contributions go into the elements
VFlush(q) == IF q.pend = "none" THEN q
             ELSE LET n == Len(q.el)
                  IN [q EXCEPT !.el = [i \in 1..n |-> q.el[i] * q.mul[i] + q.add[i]],
                               !.add = [i \in 1..n |-> 0], !.mul = [i \in 1..n |-> 1], !.pend = "none",
                               !.known = VKnown(q), !.out = q.nb]
VAdd(q, x) == LET n == Len(q.el)
                  p == [q EXCEPT !.add = [i \in 1..n |-> @[i] + x[i]], !.pend = "sum", !.out = FALSE]
              IN IF q.del THEN p ELSE VFlush(p)
VMul(q, x) == LET n == Len(q.el)
                  p == [q EXCEPT !.mul = [i \in 1..n |-> @[i] * x[i]], !.pend = "prod", !.out = FALSE]
              IN IF q.del THEN p ELSE VFlush(p)
VLoop(S, A) ==
  /\ vd' = [k \in Vars |-> IF \E s \in S : s[1] = k THEN VAdd(vd[k], (CHOOSE s \in S : s[1] = k)[2]) ELSE vd[k]]
  /\ PlainAdd(A) /\ LoopDone /\ UNCHANGED <<geo, mixv, ext, rd, mm>>
VProd(k, x) == /\ vd' = [vd EXCEPT ![k] = VMul(@, x)] /\ LoopDone /\ UNCHANGED <<geo, pv, mixv, ext, rd, mm>>
VBins(k, P, a, m, b) == LET n == Len(vd[k].el) IN [e \in 1..n |-> SumB(P, a, m, b, n, e, geo.vol)]
VBinsX(k, P, a, m, b) == LET n == Len(vd[k].el) IN [e \in 1..n |-> SumX(P, a, m, b, n, e, geo.vol)]
VProds(k, P, m, r) == LET n == Len(vd[k].el) IN [e \in 1..n |-> ProdB(P, m, r, n, e, geo.vol)]

VSame == UNCHANGED <<geo, pv, mixv, ext, off, rd, mm>>
VPut(k, s) ==       \* the elements become s, nothing pending
  /\ vd' = [vd EXCEPT ![k] = [@ EXCEPT !.el = s, !.add = [i \in 1..Len(s) |-> 0], !.mul = [i \in 1..Len(s) |-> 1],
                                       !.pend = "none", !.out = FALSE]]
  /\ VSame
VQuiet(k) == vd[k].pend = "none" /\ ~vd[k].out
VNew(k, n, x) == vd' = [vd EXCEPT ![k] = NewV(n, x)] /\ VSame
VSet(k, x) == /\ vd' = [vd EXCEPT ![k] = [NewV(Len(@.el), x) EXCEPT !.allr = vd[k].allr, !.nb = vd[k].nb, !.del = vd[k].del]]
              /\ VSame
VMode(k, a, n, d) == /\ vd' = [vd EXCEPT ![k].allr = (a = 1), ![k].nb = (n = 1), ![k].del = (d = 1)] /\ VSame
VStart(k) == vd' = [vd EXCEPT ![k] = VFlush(@)] /\ VSame
VReduce(k) == vd' = [vd EXCEPT ![k] = [VFlush(@) EXCEPT !.out = FALSE]] /\ VSame
VWait(k) == vd' = [vd EXCEPT ![k].out = FALSE] /\ VSame
VResize(k, n, x) ==
  LET q == vd[k].el IN VPut(k, [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE x])

(* ------------------------------ min and max ---------------------------- *)
SetCodes(f, c) == mm' = [mm EXCEPT ![f] = c] /\ UNCHANGED <<geo, pv, mixv, ext, off, rd, vd>>
Extreme(f, P, mx, x) ==
  LET c == mm[f]
  IN /\ \E i \in 1..geo.vol : InPar(geo, P, i) /\ c[i] = x
     /\ \A i \in 1..geo.vol : InPar(geo, P, i) => IF mx = 1 THEN c[i] <= x ELSE c[i] >= x
=============================================================================

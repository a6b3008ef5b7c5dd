------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Geometry of a periodic rectangular lattice.  Sites are numbered 1..vol   *)
(* in lexicographic order of their coordinates, first coordinate fastest.   *)
(* A geometry is computed once and carried in a variable:                   *)
(*   sz   sizes, st strides, vol number of sites,                           *)
(*   cs   coordinates of each site, par parity (0 even, 1 odd) of each site *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Undef == -2000000002          \* a site that was never given a value

RECURSIVE ProdTo(_, _)
ProdTo(sz, k) == IF k = 0 THEN 1 ELSE sz[k] * ProdTo(sz, k - 1)

RECURSIVE SumSeq(_, _)
SumSeq(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumSeq(q, k - 1)

Geometry(sz) ==
  LET nd  == Len(sz)
      st  == [k \in 1..nd |-> ProdTo(sz, k - 1)]
      vol == ProdTo(sz, nd)
      cs  == [i \in 1..vol |-> [k \in 1..nd |-> ((i - 1) \div st[k]) % sz[k]]]
      par == [i \in 1..vol |-> SumSeq(cs[i], nd) % 2]
  IN [sz |-> sz, nd |-> nd, st |-> st, vol |-> vol, cs |-> cs, par |-> par]

NoGeometry == [sz |-> <<>>, nd |-> 0, st |-> <<>>, vol |-> 0, cs |-> <<>>, par |-> <<>>]

\* parities: "E", "O", "A"
InPar(g, P, i) == \/ P = "A"
                  \/ P = "E" /\ g.par[i] = 0
                  \/ P = "O" /\ g.par[i] = 1
Sites(g, P) == {i \in 1..g.vol : InPar(g, P, i)}
OppPar(P) == CASE P = "E" -> "O" [] P = "O" -> "E" [] OTHER -> "A"

Abs(d) == IF d < 0 THEN -d ELSE d

\* d in {-nd..-1, 1..nd}: the neighbour of i one step in direction |d|, up if d > 0
Neighbour(g, i, d) ==
  LET k == Abs(d)
      c == g.cs[i][k]
  IN IF d > 0 THEN (IF c = g.sz[k] - 1 THEN i - c * g.st[k] ELSE i + g.st[k])
              ELSE (IF c = 0 THEN i + (g.sz[k] - 1) * g.st[k] ELSE i - g.st[k])
\* does the step leave the lattice?
Crosses(g, i, d) ==
  LET k == Abs(d) IN IF d > 0 THEN g.cs[i][k] = g.sz[k] - 1 ELSE g.cs[i][k] = 0

RECURSIVE OffIdx(_, _, _, _)
OffIdx(g, i, v, k) ==
  IF k = 0 THEN 1 ELSE ((g.cs[i][k] + v[k]) % g.sz[k]) * g.st[k] + OffIdx(g, i, v, k - 1)
\* the site i + v
Offset(g, i, v) == OffIdx(g, i, v, g.nd)
RECURSIVE CrossCount(_, _, _, _, _)
\* number of crossings of edges with an antiperiodic boundary on the way from i to i + v
CrossCount(g, i, v, ab, k) ==
  IF k = 0 THEN 0
  ELSE CrossCount(g, i, v, ab, k - 1) +
       (IF ab[k] = 1 THEN Abs((g.cs[i][k] + v[k]) \div g.sz[k]) ELSE 0)

SiteOf(g, c) == OffIdx([g EXCEPT !.cs = [j \in 1..1 |-> [k \in 1..g.nd |-> 0]]], 1, c, g.nd)

(* Facts every geometry must satisfy; checked by TLC for many sizes (LatticeMC). *)
GeometryOK(g) ==
  /\ Cardinality({g.cs[i] : i \in 1..g.vol}) = g.vol
  /\ \A i \in 1..g.vol, k \in 1..g.nd :
        /\ Neighbour(g, i, k) \in 1..g.vol
        /\ Neighbour(g, Neighbour(g, i, k), -k) = i
        /\ Neighbour(g, Neighbour(g, i, -k), k) = i
        /\ Neighbour(g, i, k) = Offset(g, i, [j \in 1..g.nd |-> IF j = k THEN 1 ELSE 0])
        /\ Neighbour(g, i, -k) = Offset(g, i, [j \in 1..g.nd |-> IF j = k THEN -1 ELSE 0])
        /\ (g.sz[k] % 2 = 0) => g.par[Neighbour(g, i, k)] # g.par[i]
        /\ SiteOf(g, g.cs[i]) = i
=============================================================================

----------------------------- MODULE GaugeMachine -----------------------------
(***************************************************************************)
(* Gauge fields: a link per site and direction, an element of SU(N).  The   *)
(* links of the model are the monomial matrices of SU(2) and SU(3) with     *)
(* entries in {1, i, -1, -i}: a group in which every product, line and loop *)
(* of links stays, so that everything the gauge library derives from the    *)
(* links is a matrix of integers.                                           *)
(*                                                                          *)
(* An element e: a permutation (row -> column) and a phase in 0..3 of each  *)
(* row; the phase of the last row makes the determinant 1.                  *)
(* Directions 1..nd (up) and -nd..-1 (down).  Matrices of integers are      *)
(* sequences of 2 N^2 numbers, real and imaginary parts row by row.         *)
(***************************************************************************)
EXTENDS Lattice, TLC

VARIABLES geo,      \* geometry of the lattice
          grp,      \* the number of colours N (0: none yet)
          u         \* the gauge fields 0..2: direction -> site -> element
gvars == <<geo, grp, u>>

(* ---------------------------------------------------------------- the group *)
Perms2 == <<<<1, 2>>, <<2, 1>>>>
Perms3 == <<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>>>>
PermsOf(n) == IF n = 2 THEN Perms2 ELSE Perms3
Odd(n, p) == IF n = 2 THEN p = 2 ELSE p > 3
Order(n) == IF n = 2 THEN 8 ELSE 96
Elements(n) == 0..(Order(n) - 1)

Raw(n, e) ==
  LET p  == IF n = 2 THEN e \div 4 + 1 ELSE e \div 16 + 1
      k1 == IF n = 2 THEN e % 4 ELSE (e \div 4) % 4
      k2 == e % 4
      o  == IF Odd(n, p) THEN 2 ELSE 0
  IN [p |-> p, k |-> IF n = 2 THEN <<k1, (8 - k1 - o) % 4>> ELSE <<k1, k2, (12 - k1 - k2 - o) % 4>>]
Code(n, p, k) == IF n = 2 THEN (p - 1) * 4 + k[1] ELSE (p - 1) * 16 + k[1] * 4 + k[2]

El2 == [e \in Elements(2) |-> Raw(2, e)]
El3 == [e \in Elements(3) |-> Raw(3, e)]
El(n, e) == IF n = 2 THEN El2[e] ELSE El3[e]

Compose(n, p, q) == CHOOSE r \in 1..Len(PermsOf(n)) :
                      PermsOf(n)[r] = [i \in 1..n |-> PermsOf(n)[q][PermsOf(n)[p][i]]]
Comp2 == [p \in 1..2 |-> [q \in 1..2 |-> Compose(2, p, q)]]
Comp3 == [p \in 1..6 |-> [q \in 1..6 |-> Compose(3, p, q)]]

Times(n, a, b) ==
  LET x == El(n, a)
      y == El(n, b)
      r == PermsOf(n)[x.p]
  IN Code(n, (IF n = 2 THEN Comp2 ELSE Comp3)[x.p][y.p], [i \in 1..n |-> (x.k[i] + y.k[r[i]]) % 4])
Mul2 == [a \in Elements(2) |-> [b \in Elements(2) |-> Times(2, a, b)]]
Mul3 == [a \in Elements(3) |-> [b \in Elements(3) |-> Times(3, a, b)]]
Unit == 0
Inv2 == [a \in Elements(2) |-> CHOOSE b \in Elements(2) : Mul2[a][b] = Unit]
Inv3 == [a \in Elements(3) |-> CHOOSE b \in Elements(3) : Mul3[a][b] = Unit]
Mul(a, b) == IF grp = 2 THEN Mul2[a][b] ELSE Mul3[a][b]
Inv(a) == IF grp = 2 THEN Inv2[a] ELSE Inv3[a]

(* ---------------------------------------------------------------- matrices of integers *)
Re4(k) == CASE k = 0 -> 1 [] k = 2 -> -1 [] OTHER -> 0
Im4(k) == CASE k = 1 -> 1 [] k = 3 -> -1 [] OTHER -> 0
MatrixOf(n, e) ==
  [x \in 1..(2 * n * n) |->
     LET i == (x - 1) \div (2 * n) + 1
         j == ((x - 1) % (2 * n)) \div 2 + 1
     IN IF PermsOf(n)[El(n, e).p][i] # j THEN 0
        ELSE IF x % 2 = 1 THEN Re4(El(n, e).k[i]) ELSE Im4(El(n, e).k[i])]
Mat2 == [e \in Elements(2) |-> MatrixOf(2, e)]
Mat3 == [e \in Elements(3) |-> MatrixOf(3, e)]
Mat(e) == IF grp = 2 THEN Mat2[e] ELSE Mat3[e]
Width == 2 * grp * grp

ReAt(n, i, j) == (i - 1) * 2 * n + 2 * j - 1
RECURSIVE TraceTo(_, _, _, _)
\* real (off = 0) or imaginary (off = 1) part of the trace
TraceTo(n, m, off, k) == IF k = 0 THEN 0 ELSE m[ReAt(n, k, k) + off] + TraceTo(n, m, off, k - 1)
\* the projection to the algebra, times 2 N: N (m - m^dagger) - trace
Project2N(n, m) ==
  LET t == 2 * TraceTo(n, m, 1, n)
  IN [x \in 1..(2 * n * n) |->
        LET i == (x - 1) \div (2 * n) + 1
            j == ((x - 1) % (2 * n)) \div 2 + 1
            q == ReAt(n, j, i) + ((x - 1) % 2)
        IN IF x % 2 = 1 THEN n * (m[x] - m[q])
           ELSE n * (m[x] + m[q]) - (IF i = j THEN t ELSE 0)]
Pro2 == [e \in Elements(2) |-> Project2N(2, Mat2[e])]
Pro3 == [e \in Elements(3) |-> Project2N(3, Mat3[e])]
Pro(e) == IF grp = 2 THEN Pro2[e] ELSE Pro3[e]
ReTr2 == [e \in Elements(2) |-> TraceTo(2, Mat2[e], 0, 2)]
ReTr3 == [e \in Elements(3) |-> TraceTo(3, Mat3[e], 0, 3)]
ReTr(e) == IF grp = 2 THEN ReTr2[e] ELSE ReTr3[e]
ImTr(e) == TraceTo(grp, Mat(e), 1, grp)

\* sums over the sequence q of <<factor, element>> of their matrices, of their projections
RECURSIVE SumMat(_, _, _), SumPro(_, _, _)
SumMat(q, x, k) == IF k = 0 THEN 0 ELSE q[k][1] * Mat(q[k][2])[x] + SumMat(q, x, k - 1)
SumPro(q, x, k) == IF k = 0 THEN 0 ELSE q[k][1] * Pro(q[k][2])[x] + SumPro(q, x, k - 1)
MatSum(q) == [x \in 1..Width |-> SumMat(q, x, Len(q))]
ProSum(q) == [x \in 1..Width |-> SumPro(q, x, Len(q))]
AddM(a, b) == [x \in 1..Width |-> a[x] + b[x]]
ScaleM(c, a) == [x \in 1..Width |-> c * a[x]]

\* the product of an element and a matrix of integers, of a matrix of integers and an element
RECURSIVE Dot(_, _, _, _, _, _)
Dot(a, b, i, j, off, k) ==
  IF k = 0 THEN 0
  ELSE LET ar == a[ReAt(grp, i, k)]
           ai == a[ReAt(grp, i, k) + 1]
           br == b[ReAt(grp, k, j)]
           bi == b[ReAt(grp, k, j) + 1]
       IN (IF off = 0 THEN ar * br - ai * bi ELSE ar * bi + ai * br) + Dot(a, b, i, j, off, k - 1)
MulM(a, b) == [x \in 1..Width |->
                 Dot(a, b, (x - 1) \div (2 * grp) + 1, ((x - 1) % (2 * grp)) \div 2 + 1, (x - 1) % 2, grp)]

(* ---------------------------------------------------------------- lines *)
Dirs == 1..geo.nd
AllSites == 1..geo.vol
Nb(s, d) == Neighbour(geo, s, d)
RECURSIVE Walk(_, _, _), LineAcc(_, _, _, _, _)
\* the end of a path of k steps
Walk(s, p, k) == IF k = 0 THEN s ELSE Nb(Walk(s, p, k - 1), p[k])
LineAcc(f, s, p, k, acc) ==
  IF k > Len(p) THEN acc
  ELSE IF p[k] > 0 THEN LineAcc(f, Nb(s, p[k]), p, k + 1, Mul(acc, f[p[k]][s]))
       ELSE LET t == Nb(s, p[k]) IN LineAcc(f, t, p, k + 1, Mul(acc, Inv(f[-p[k]][t])))
\* the ordered product of the links along path p from site s
Line(f, s, p) == LineAcc(f, s, p, 1, Unit)

Plaquette(f, s, a, b) == Line(f, s, <<a, b, -a, -b>>)

(* ---------------------------------------------------------------- contents of the fields *)
Mix(s, d, seed) == ((s * s + 3 * s) * (seed + 2) + (d + 1) * (s + 7) * ((seed % 13) + 5) + seed * (d + 1) * (d + 2)) % 997
Content(d, seed) == [s \in AllSites |-> Mix(s - 1, d, seed) % Order(grp)]
\* algebra fields of the harness: projections of elements
AlgContent(seed) == [d \in Dirs |-> Content(d - 1, seed)]

RECURSIVE Cat(_, _, _)
Cat(f, ss, k) == IF k = 0 THEN <<>> ELSE Cat(f, ss, k - 1) \o f[ss[k]]
\* matrices at the sites of parity P in order
RECURSIVE SitesFrom(_, _)
SitesFrom(P, k) == IF k > geo.vol THEN <<>> ELSE (IF InPar(geo, P, k) THEN <<k>> ELSE <<>>) \o SitesFrom(P, k + 1)
At(f, P) == LET ss == SitesFrom(P, 1)
            IN [x \in 1..(Len(ss) * Width) |-> f[ss[(x - 1) \div Width + 1]][((x - 1) % Width) + 1]]
\* a vector of fields, one after the other
AllAt(v) == LET n == geo.vol * Width
            IN [x \in 1..(geo.nd * n) |-> v[(x - 1) \div n + 1][((x - 1) % n) \div Width + 1][((x - 1) % Width) + 1]]

RECURSIVE Total(_, _)
Total(f, k) == IF k = 0 THEN 0 ELSE f[k] + Total(f, k - 1)
SumSites(F(_)) == Total([s \in AllSites |-> F(s)], geo.vol)
\* pairs of directions a < b, ordered pairs
PlanesOf(nd) == {<<a, b>> \in (1..nd) \X (1..nd) : a < b}
RECURSIVE SumFun(_, _)
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFun(f, S \ {x})
SumSet(S, F(_)) == LET f == [x \in S |-> F(x)] IN SumFun(f, S)
Others(d) == SelectSeq([k \in Dirs |-> k], LAMBDA k : k # d)

(* ---------------------------------------------------------------- states *)
Init == geo = NoGeometry /\ grp = 0 /\ u = <<>>
Start(size) == geo' = Geometry(size) /\ grp' = 0 /\ u' = <<>>
Group(n) ==
  /\ grp' = n
  /\ u' = [r \in 0..2 |-> <<>>]
  /\ UNCHANGED geo
Set(r, f) == u' = [u EXCEPT ![r] = f] /\ UNCHANGED <<geo, grp>>
Same == UNCHANGED gvars

Fill(r, seed) == Set(r, [d \in Dirs |-> Content(d - 1, seed)])
UnitField(r, e) == Set(r, [d \in Dirs |-> [s \in AllSites |-> e]])
SetLink(r, d, s, e) == Set(r, [u[r] EXCEPT ![d + 1][s + 1] = e])
\* the gauge transformation g
Transformed(f, g) == [d \in Dirs |-> [s \in AllSites |-> Mul(Mul(g[s], f[d][s]), Inv(g[Nb(s, d)]))]]
Transform(r, seed) == Set(r, Transformed(u[r], Content(7, seed)))
Copy(r, q) == Set(r, u[q])
\* links which are in the group stay as they are
Reunitarize(r) == Same
Get(r, d, obs) == Same /\ obs = At([s \in AllSites |-> Mat(u[r][d + 1][s])], "A")

(* ---------------------------------------------------------------- what is measured, times N *)
PlaqSum(f) == SumSet(PlanesOf(geo.nd), LAMBDA p : SumSites(LAMBDA s : grp - ReTr(Plaquette(f, s, p[1], p[2]))))
PlaqMax(f) == LET S == {grp - ReTr(Plaquette(f, s, p[1], p[2])) : s \in AllSites, p \in PlanesOf(geo.nd)}
              IN CHOOSE x \in S : \A y \in S : y <= x
\* in one direction there are no plaquettes
Plaq(r, kind, obs) == Same /\ obs = IF kind = 2 THEN <<PlaqSum(u[r]), PlaqMax(u[r])>> ELSE <<PlaqSum(u[r])>>

RectSum(f) == SumSet({p \in Dirs \X Dirs : p[1] # p[2]},
                     LAMBDA p : SumSites(LAMBDA s : grp - ReTr(Line(f, s, <<p[1], p[2], p[2], -p[1], -p[2], -p[2]>>))))
Improved(r, a, b, obs) == Same /\ obs = <<a * PlaqSum(u[r]) + b * RectSum(u[r])>>

Polyakov(r, dd, obs) ==
  LET d == dd + 1
      p == [k \in 1..geo.sz[d] |-> d]
      B == {s \in AllSites : geo.cs[s][d] = 0}
  IN Same /\ obs = <<SumSet(B, LAMBDA s : ReTr(Line(u[r], s, p))), SumSet(B, LAMBDA s : ImTr(Line(u[r], s, p)))>>

\* the staples of link (s, d): paths around it
StapleList(f, d, s) ==
  LET o == Others(d)
  IN [k \in 1..(2 * Len(o)) |->
        IF k <= Len(o) THEN <<1, Line(f, s, <<o[k], d, -o[k]>>)>>
        ELSE <<1, Line(f, s, <<-o[k - Len(o)], d, o[k - Len(o)]>>)>>]
Staple(r, dd, P, obs) ==
  Same /\ obs = At([s \in AllSites |-> IF InPar(geo, P, s) THEN MatSum(StapleList(u[r], dd + 1, s)) ELSE <<>>], P)
\* with a weight for each plaquette: at the site of its lower corner
Weight(a, b, s, seed) == Mix(s - 1, 4 * (a - 1) + b - 1, seed) % 7
WeightedList(f, d, s, seed) ==
  LET o == Others(d)
  IN [k \in 1..(2 * Len(o)) |->
        IF k <= Len(o) THEN <<Weight(d, o[k], s, seed), Line(f, s, <<o[k], d, -o[k]>>)>>
        ELSE LET e == o[k - Len(o)] IN <<Weight(d, e, Nb(s, -e), seed), Line(f, s, <<-e, d, e>>)>>]
WeightedStaple(r, dd, P, seed, obs) ==
  Same /\ obs = At([s \in AllSites |-> IF InPar(geo, P, s) THEN MatSum(WeightedList(u[r], dd + 1, s, seed)) ELSE <<>>], P)
\* staples from the end of the link back to its beginning
BackList(f, d, s) ==
  LET o == Others(d)
      t == Nb(s, d)
  IN [k \in 1..(2 * Len(o)) |->
        IF k <= Len(o) THEN <<1, Line(f, t, <<o[k], -d, -o[k]>>)>>
        ELSE <<1, Line(f, t, <<-o[k - Len(o)], -d, o[k - Len(o)]>>)>>]
BackStaple(f, d, s) == MatSum(BackList(f, d, s))
ReverseStaple(r, dd, obs) == Same /\ obs = At([s \in AllSites |-> BackStaple(u[r], dd + 1, s)], "A")
AllStaples(r, obs) == Same /\ obs = AllAt([d \in Dirs |-> [s \in AllSites |-> BackStaple(u[r], d, s)]])

Reverse(p) == [k \in 1..Len(p) |-> -p[Len(p) + 1 - k]]
\* the line that ends at each site
WilsonLine(r, p, obs) ==
  Same /\ obs = At([s \in AllSites |-> Mat(Line(u[r], Walk(s, Reverse(p), Len(p)), p))], "A")

(* ---------------------------------------------------------------- forces, times 2 N *)
Rotate(p, k) == [j \in 1..Len(p) |-> p[((k + j - 2) % Len(p)) + 1]]
\* the derivative of the sum over all sites of Re Tr of the loop p with respect to link (s, d): for each link of the
\* path in direction d the loop that begins with the link, for each against it the loop that ends with it
LoopForceList(f, p, c, d, s) ==
  LET hit == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : Abs(p[k]) = d)
  IN [j \in 1..Len(hit) |->
        LET k == hit[j] IN IF p[k] > 0 THEN <<-c, Line(f, s, Rotate(p, k))>>
                           ELSE <<c, Line(f, s, Rotate(p, k + 1))>>]
\* the same from given matrices w at the end of the path: transported along the path
LineForceList(f, p, w, c, d, s) ==
  LET hit == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : Abs(p[k]) = d)
  IN [j \in 1..Len(hit) |->
        LET k == IF p[hit[j]] > 0 THEN hit[j] - 1 ELSE hit[j]      \* so many links are passed at s
            q == SubSeq(p, 1, k)
            t == Walk(s, Reverse(q), k)
            l == Line(f, t, q)
        IN <<IF p[hit[j]] > 0 THEN -c ELSE c, Mul(Mul(Inv(l), w[t]), l)>>]
\* kinds: 0, 2 anew, 1, 3 added to what is there; 0, 1 from the loop, 2, 3 from matrices
WithOld(add, q, seed, d, s) == IF add THEN <<<<1, AlgContent(seed)[d][s]>>>> \o q ELSE q
LoopForce(r, p, c, kind, seed, obs) ==
  LET w == Content(5, seed)
      L(d, s) == IF kind < 2 THEN LoopForceList(u[r], p, c, d, s) ELSE LineForceList(u[r], p, w, c, d, s)
  IN Same /\ obs = AllAt([d \in Dirs |-> [s \in AllSites |-> ProSum(WithOld(kind % 2 = 1, L(d, s), seed, d, s))]])

RECURSIVE PlanesList(_, _)
\* the loops of a force, as a sequence of <<path, factor>>
PlanesList(nd, c) ==
  IF nd < 2 THEN <<>> ELSE PlanesList(nd - 1, c) \o [k \in 1..(nd - 1) |-> <<<<k, nd, -k, -nd>>, c>>]
RECURSIVE Flat(_, _)
Flat(q, k) == IF k = 0 THEN <<>> ELSE Flat(q, k - 1) \o q[k]
RectList(nd, c) ==
  Flat([a \in 1..nd |-> Flat([b \in 1..nd |-> IF a = b THEN <<>> ELSE <<<<<<a, b, b, -a, -b, -b>>, c>>>>], nd)], nd)
ForceOf(f, loops, add, seed) ==
  AllAt([d \in Dirs |-> [s \in AllSites |->
     ProSum(WithOld(add, Flat([k \in 1..Len(loops) |-> LoopForceList(f, loops[k][1], loops[k][2], d, s)], Len(loops)), seed, d, s))]])
PlaqForce(r, c, add, seed, obs) == Same /\ obs = ForceOf(u[r], PlanesList(geo.nd, c), add = 1, seed)
ImprovedForce(r, a, b, add, seed, obs) ==
  Same /\ obs = ForceOf(u[r], PlanesList(geo.nd, a) \o RectList(geo.nd, b), add = 1, seed)

(* ---------------------------------------------------------------- clover *)
Leaves(a, b) == <<<<a, b, -a, -b>>, <<b, -a, -b, a>>, <<-a, -b, a, b>>, <<-b, a, b, -a>>>>
\* the field strength of plane (a, b) at s, times 8 N
Clover(f, a, b, s) == ProSum([k \in 1..4 |-> <<1, Line(f, s, Leaves(a, b)[k])>>])
SquareNorm(m) == Total([x \in 1..Width |-> m[x] * m[x]], Width)
CloverTable(f) == [p \in PlanesOf(geo.nd) |-> [s \in AllSites |-> Clover(f, p[1], p[2], s)]]
CloverAction(r, obs) ==
  LET C == CloverTable(u[r])
  IN Same /\ obs = <<SumSet(PlanesOf(geo.nd), LAMBDA p : SumSites(LAMBDA s : SquareNorm(C[p][s])))>>
ReTrProduct(a, b) == TraceTo(grp, MulM(a, b), 0, grp)
TopoCharge(r, obs) ==
  LET C == CloverTable(u[r])
      q == SumSites(LAMBDA s : ReTrProduct(C[<<1, 2>>][s], C[<<3, 4>>][s]) - ReTrProduct(C[<<1, 3>>][s], C[<<2, 4>>][s])
                               + ReTrProduct(C[<<1, 4>>][s], C[<<2, 3>>][s]))
      e == SumSet(PlanesOf(geo.nd), LAMBDA p : SumSites(LAMBDA s : SquareNorm(C[p][s])))
  IN Same /\ obs = IF geo.nd = 4 THEN <<q, e>> ELSE <<0, 0>>

\* the force, times 64 N^2: the leaf times the field strength, carried along the links of the leaf
CloverTerm(f, C, p, k, c, d, s) ==
  LET path == Leaves(p[1], p[2])[k]
      hit == SelectSeq([j \in 1..4 |-> j], LAMBDA j : Abs(path[j]) = d)
      T(j) == LET n == IF path[hit[j]] > 0 THEN hit[j] - 1 ELSE hit[j]
                  q == SubSeq(path, 1, n)
                  t == Walk(s, Reverse(q), n)
                  l == Line(f, t, q)
                  m == MulM(Mat(Mul(Inv(l), Line(f, t, path))), MulM(C[p][t], Mat(l)))
              IN ScaleM(IF path[hit[j]] > 0 THEN -c ELSE c, Project2N(grp, m))
  IN IF Len(hit) = 2 THEN AddM(T(1), T(2)) ELSE T(1)
RECURSIVE AddAll(_, _)
AddAll(q, k) == IF k = 0 THEN [x \in 1..Width |-> 0] ELSE AddM(q[k], AddAll(q, k - 1))
CloverForce(r, c, add, seed, obs) ==
  LET f == u[r]
      C == CloverTable(f)
      old(d, s) == IF add = 1 THEN ScaleM(32 * grp, Pro(AlgContent(seed)[d][s])) ELSE [x \in 1..Width |-> 0]
      K(d, s) == LET o == Others(d)
                 IN AddM(old(d, s), AddAll(Flat([j \in 1..Len(o) |->
                      LET p == IF o[j] < d THEN <<o[j], d>> ELSE <<d, o[j]>>
                      IN [k \in 1..4 |-> CloverTerm(f, C, p, k, c, d, s)]], Len(o)), 4 * Len(o)))
  IN Same /\ obs = AllAt([d \in Dirs |-> [s \in AllSites |-> K(d, s)]])

(* ---------------------------------------------------------------- electric fields *)
\* the violation of Gauss' law, times 2 N
Gauss(r, seed, obs) ==
  LET E == AlgContent(seed)
      L(s) == [k \in 1..(2 * geo.nd) |->
                 IF k <= geo.nd THEN <<1, E[k][s]>>
                 ELSE LET d == k - geo.nd
                          t == Nb(s, -d)
                          l == u[r][d][t]
                      IN <<-1, Mul(Mul(Inv(l), E[d][t]), l)>>]
  IN Same /\ obs = At([s \in AllSites |-> ProSum(L(s))], "A")
\* it can be removed
Degauss(r, seed, obs) == Same /\ obs = <<1>>

(* ---------------------------------------------------------------- updates of a link (two colours) *)
DaggerM(m) == [x \in 1..Width |->
                 LET i == (x - 1) \div (2 * grp) + 1
                     j == ((x - 1) % (2 * grp)) \div 2 + 1
                 IN IF x % 2 = 1 THEN m[ReAt(grp, j, i)] ELSE -m[ReAt(grp, j, i) + 1]]
ZeroM == [x \in 1..Width |-> 0]
\* overrelaxation reflects the link about the sum of its staples S: S U^dagger S / |S|^2; a heat bath without
\* temperature makes it S / |S|.  The results are multiplied by |S|^2, |S|
Overrelax(r, dd, kind, obs) ==
  LET d == dd + 1
      S(s) == MatSum(StapleList(u[r], d, s))
      New(s) == LET m == S(s) IN IF kind = 3 THEN m ELSE MulM(m, MulM(Mat(Inv(u[r][d][s])), m))
  IN Same /\ obs = At([s \in AllSites |-> New(s)], "A")

(* ---------------------------------------------------------------- smearing *)
\* for a small coefficient the change of the link, in units of the coefficient and times 2 N
Smear(r, obs) ==
  LET f == u[r]
      D(d, s) == MulM(ScaleM(1, ProSum([k \in 1..(2 * (geo.nd - 1)) |->
                    LET b == BackList(f, d, s)[k] IN <<-b[1], Mul(f[d][s], b[2])>>])), Mat(f[d][s]))
  IN Same /\ obs = AllAt([d \in Dirs |-> [s \in AllSites |-> D(d, s)]])
\* smearing commutes with gauge transformations
Covariant(r, obs) == Same /\ obs = <<1>>

(* ---------------------------------------------------------------- blocking: long links of the coarse lattice *)
CanBlock(fac) == \A k \in Dirs : geo.sz[k] % fac[k] = 0
\* the coarse sites in order, and their links
Block(r, fac, dd, obs) ==
  LET d == dd + 1
      B == SelectSeq([s \in AllSites |-> s], LAMBDA s : \A k \in Dirs : geo.cs[s][k] % fac[k] = 0)
      link(s) == IF fac[d] = 1 THEN u[r][d][s] ELSE Line(u[r], s, <<d, d>>)
  IN Same /\ \/ obs = <<1>> \o [x \in 1..(Len(B) * Width) |-> Mat(link(B[(x - 1) \div Width + 1]))[((x - 1) % Width) + 1]]
             \/ ~CanBlock(fac) /\ obs = <<0>>

(* ---------------------------------------------------------------- facts about the model itself (GaugeMC) *)
GroupOK(n) ==
  LET M(a, b) == IF n = 2 THEN Mul2[a][b] ELSE Mul3[a][b]
      I(a) == IF n = 2 THEN Inv2[a] ELSE Inv3[a]
  IN \A a \in Elements(n) : M(a, I(a)) = Unit /\ M(I(a), a) = Unit /\ M(a, Unit) = a /\ M(Unit, a) = a
Invariant(f, g) ==
  LET h == Transformed(f, g)
  IN /\ PlaqSum(h) = PlaqSum(f)
     /\ RectSum(h) = RectSum(f)
     /\ \A d \in Dirs, s \in AllSites :
          \A k \in 1..(2 * (geo.nd - 1)) :
             BackList(h, d, s)[k][2] = Mul(Mul(g[Nb(s, d)], BackList(f, d, s)[k][2]), Inv(g[s]))
=============================================================================

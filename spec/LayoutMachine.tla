--------------------------- MODULE LayoutMachine ---------------------------
(***************************************************************************)
(* The lattice seen through its public interface: the distribution of the   *)
(* sites over the ranks, the lattice levels made by blocking, and fields    *)
(* that live on these levels.                                               *)
(*   lats  the lattices made so far; 1 is the base lattice.  dist is the    *)
(*         observed distribution: for each rank the sites (1..vol) in index *)
(*         order.  The specification does not prescribe the distribution,   *)
(*         it prescribes what every distribution has to fulfil.             *)
(*   cur   the active lattice                                               *)
(*   fld   fields, gau gauge fields (one number per direction and site; the *)
(*         product of two links is the sum of the numbers)                  *)
(***************************************************************************)
EXTENDS Lattice

CONSTANTS NF, NG, CanBlock
VARIABLES lats, cur, fld, gau
lvars == <<lats, cur, fld, gau>>

Fields == 0..(NF - 1)
Gauges == 0..(NG - 1)
None == [lat |-> 0, v |-> <<>>]
Init == lats = <<>> /\ cur = 0 /\ fld = [k \in Fields |-> None] /\ gau = [k \in Gauges |-> None]

NewLat(sz, p, b) == [g |-> Geometry(sz), parent |-> p, b |-> b, dist |-> <<>>]
Ones(n) == [k \in 1..n |-> 1]
Start(sz) == /\ lats' = <<NewLat(sz, 0, Ones(Len(sz)))>> /\ cur' = 1
             /\ fld' = [k \in Fields |-> None] /\ gau' = [k \in Gauges |-> None]

g == lats[cur].g
\* ------------------------------------------------------------ distributions
RECURSIVE SumLen(_, _)
SumLen(q, k) == IF k = 0 THEN 0 ELSE Len(q[k]) + SumLen(q, k - 1)
\* every site on exactly one rank at exactly one index
IsDistribution(q) == /\ SumLen(q, Len(q)) = g.vol
                     /\ UNION {{q[n][i] : i \in 1..Len(q[n])} : n \in 1..Len(q)} = 0..(g.vol - 1)
\* the ranks own rectangular boxes
LowAt(s, k) == CHOOSE x \in {g.cs[i + 1][k] : i \in s} : \A j \in s : x <= g.cs[j + 1][k]
HighAt(s, k) == CHOOSE x \in {g.cs[i + 1][k] : i \in s} : \A j \in s : x >= g.cs[j + 1][k]
Elems(q) == {q[i] : i \in 1..Len(q)}
IsBox(q) == LET s == Elems(q) IN
   IF s = {} THEN TRUE
   ELSE LET lo == [k \in 1..g.nd |-> LowAt(s, k)]
            hi == [k \in 1..g.nd |-> HighAt(s, k)]
        IN Cardinality(s) = ProdTo([k \in 1..g.nd |-> hi[k] - lo[k] + 1], g.nd)
Distribute(q) ==
   /\ IsDistribution(q) /\ \A n \in 1..Len(q) : IsBox(q[n])
   /\ lats[cur].dist \in {<<>>, q}              \* the same whenever one looks
   /\ lats' = [lats EXCEPT ![cur].dist = q] /\ UNCHANGED <<cur, fld, gau>>

dist == lats[cur].dist
NR == Len(dist)
ParOf(i) == g.par[i + 1]
NPar(q, p) == Cardinality({i \in 1..Len(q) : ParOf(q[i]) = p})
Iota(n) == [i \in 1..n |-> i - 1]
BackOK(obs) == obs = [n \in 1..NR |-> Iota(Len(dist[n]))]
CoordOK(obs) == obs = dist
ParityOK(obs) == obs = [n \in 1..NR |-> [i \in 1..Len(dist[n]) |-> ParOf(dist[n][i])]]
OwnerOK(obs) == /\ Len(obs) = g.vol
                /\ \A n \in 1..NR : \A i \in 1..Len(dist[n]) : obs[dist[n][i] + 1] = n - 1
MineOK(obs) == \A n \in 1..NR : LET s == Elems(dist[n]) IN
                  obs[n] = [i \in 1..g.vol |-> IF (i - 1) \in s THEN 1 ELSE 0]
\* o = min, size, .. as reported; the box they describe holds the sites of q
BoxOK(o, off, q) ==
   LET s == Elems(q)
       mn(k) == o[off + k]
       sz(k) == o[off + g.nd + k]
   IN IF s = {} THEN ProdTo([k \in 1..g.nd |-> sz(k)], g.nd) = 0
      ELSE \A k \in 1..g.nd : mn(k) = LowAt(s, k) /\ sz(k) = HighAt(s, k) - LowAt(s, k) + 1
InfoOK(obs) == \A n \in 1..NR :
   /\ BoxOK(obs[n], 0, dist[n])
   /\ obs[n][2 * g.nd + 1] = Len(dist[n])
   /\ obs[n][2 * g.nd + 2] = NPar(dist[n], 0)
   /\ obs[n][2 * g.nd + 3] = NPar(dist[n], 1)
   /\ obs[n][2 * g.nd + 4] = n - 1
NodeInfoOK(obs) == /\ Len(obs) = NR * (2 * g.nd + 2)
   /\ \A n \in 1..NR : LET off == (n - 1) * (2 * g.nd + 2) IN
        /\ BoxOK(obs, off, dist[n])
        /\ obs[off + 2 * g.nd + 1] = NPar(dist[n], 0)
        /\ obs[off + 2 * g.nd + 2] = NPar(dist[n], 1)
\* the loop ranges of EVEN, ODD, ALL cover exactly the sites of that parity (if ranges are used at all)
RangeOK(obs) == \A n \in 1..NR : IF Len(obs[n]) = 0 THEN TRUE ELSE
   \A p \in 1..3 : LET lo == obs[n][2 * p - 1] hi == obs[n][2 * p]
                       want == {i \in 1..Len(dist[n]) : p = 3 \/ ParOf(dist[n][i]) = p - 1}
                   IN want = (lo + 1)..hi
SizeOK(obs) == obs = g.sz \o <<g.vol, IF cur = 1 THEN 1 ELSE 0>>

\* what loops see
Masked(P, F(_), other) == [i \in 1..g.vol |-> IF InPar(g, P, i) THEN F(i) ELSE other]
VisitOK(P, obs) == obs = Masked(P, LAMBDA i : 1, 0)
XCoordOK(P, obs) == obs = Masked(P, LAMBDA i : i - 1, -1)
XParOK(P, obs) == obs = Masked(P, LAMBDA i : g.par[i], -1)
NbOK(P, d, obs) == obs = Masked(P, LAMBDA i : Neighbour(g, i, d) - 1, -7)
CountOK(P, obs) == obs = <<Cardinality(Sites(g, P))>>

\* ------------------------------------------------------------ levels
Divides(b) == \A k \in 1..g.nd : b[k] > 0 /\ g.sz[k] % b[k] = 0
MayBlock(b) == CanBlock /\ Divides(b)
Blocked(b) == [k \in 1..g.nd |-> g.sz[k] \div b[k]]
Child(b) == {j \in 1..Len(lats) : lats[j].parent = cur /\ lats[j].g.sz = Blocked(b)}
GoTo(j) == cur' = j /\ UNCHANGED <<lats, fld, gau>>
Block(b) ==
   /\ MayBlock(b)
   /\ IF b = Ones(g.nd) THEN GoTo(cur)
      ELSE IF Child(b) # {} THEN GoTo(CHOOSE j \in Child(b) : TRUE)
      ELSE /\ lats' = Append(lats, NewLat(Blocked(b), cur, b)) /\ cur' = Len(lats) + 1
           /\ UNCHANGED <<fld, gau>>
HasParent == lats[cur].parent # 0
Unblock == HasParent /\ GoTo(lats[cur].parent)
Base == GoTo(1)
SwitchTo(k) == fld[k].lat # 0 /\ GoTo(fld[k].lat)

\* the fine site of coarse site i of lattice L
Fine(L, i) == LET p == lats[lats[L].parent].g
              IN SiteOf(p, [k \in 1..p.nd |-> lats[L].g.cs[i][k] * lats[L].b[k]])

\* ------------------------------------------------------------ fields
Put(k, L, v) == fld' = [fld EXCEPT ![k] = [lat |-> L, v |-> v]] /\ UNCHANGED <<lats, cur, gau>>
Here(k) == fld[k].lat = cur
Old(k) == IF fld[k].lat = 0 THEN [i \in 1..g.vol |-> Undef] ELSE fld[k].v
MayWrite(k) == fld[k].lat \in {0, cur}
FSet(k, P, a, b) == MayWrite(k) /\ Put(k, cur, [i \in 1..g.vol |-> IF InPar(g, P, i) THEN a * (i - 1) + b ELSE Old(k)[i]])
FAdd(k, P, c) == Here(k) /\ Put(k, cur, [i \in 1..g.vol |-> IF InPar(g, P, i) THEN fld[k].v[i] + c ELSE fld[k].v[i]])
FCopy(k, j) == Here(j) /\ MayWrite(k) /\ Put(k, cur, fld[j].v)
FNb(k, P, j, d) == Here(j) /\ MayWrite(k) /\
   Put(k, cur, [i \in 1..g.vol |-> IF InPar(g, P, i) THEN fld[j].v[Neighbour(g, i, d)] ELSE Old(k)[i]])
FNbA(k, P, j, d) == Here(j) /\ Here(k) /\
   Put(k, cur, [i \in 1..g.vol |-> fld[k].v[i] + IF InPar(g, P, i) THEN fld[j].v[Neighbour(g, i, d)] ELSE 0])
FShift(k, j, v) == Here(j) /\ MayWrite(k) /\ Put(k, cur, [i \in 1..g.vol |-> fld[j].v[Offset(g, i, v)]])
FEl(k, s, x) == Here(k) /\ Put(k, cur, [fld[k].v EXCEPT ![s + 1] = x])
FClear(k) == Put(k, 0, <<>>)
RECURSIVE SumV(_, _, _)
SumV(v, P, i) == IF i = 0 THEN 0 ELSE SumV(v, P, i - 1) + IF InPar(g, P, i) THEN v[i] ELSE 0

BlockFrom(k, j) ==
   LET L == IF fld[k].lat = 0 THEN cur ELSE fld[k].lat IN
   \/ fld[j].lat = L /\ Put(k, L, fld[j].v)
   \/ /\ fld[j].lat = lats[L].parent /\ fld[j].lat # 0
      /\ Put(k, L, [i \in 1..lats[L].g.vol |-> fld[j].v[Fine(L, i)]])
UnblockTo(k, j) ==
   LET L == fld[k].lat IN LET p == lats[L].parent IN
   /\ L # 0 /\ p # 0 /\ fld[j].lat \in {0, p}
   /\ LET old == IF fld[j].lat = 0 THEN [i \in 1..lats[p].g.vol |-> Undef] ELSE fld[j].v
          co == [f \in {Fine(L, i) : i \in 1..lats[L].g.vol} |-> CHOOSE i \in 1..lats[L].g.vol : Fine(L, i) = f]
      IN Put(j, p, [f \in 1..lats[p].g.vol |-> IF f \in DOMAIN co THEN fld[k].v[co[f]] ELSE old[f]])
BlockToCur(k) ==
   \/ fld[k].lat \in {0, cur} /\ UNCHANGED lvars
   \/ /\ fld[k].lat # 0 /\ fld[k].lat = lats[cur].parent
      /\ Put(k, cur, [i \in 1..g.vol |-> fld[k].v[Fine(cur, i)]])

\* gauge fields: v = one sequence per direction
GPut(k, L, v) == gau' = [gau EXCEPT ![k] = [lat |-> L, v |-> v]] /\ UNCHANGED <<lats, cur, fld>>
GSet(k, a, b) == gau[k].lat \in {0, cur} /\ GPut(k, cur, [d \in 1..g.nd |-> [i \in 1..g.vol |-> a * (i - 1) + b + d - 1]])
Long(L, v) == LET p == lats[lats[L].parent].g IN
   [d \in 1..p.nd |-> [i \in 1..lats[L].g.vol |->
        LET f == Fine(L, i) IN v[d][f] + IF lats[L].b[d] = 2 THEN v[d][Neighbour(p, f, d)] ELSE 0]]
ByTwo(L) == \A k \in 1..g.nd : lats[L].b[k] \in {1, 2}
GBlock(k, j) == LET L == IF gau[k].lat = 0 THEN cur ELSE gau[k].lat IN
   gau[j].lat # 0 /\ gau[j].lat = lats[L].parent /\ ByTwo(L) /\ GPut(k, L, Long(L, gau[j].v))
GBlockToCur(k) == \/ gau[k].lat = cur /\ UNCHANGED lvars
                  \/ gau[k].lat # 0 /\ gau[k].lat = lats[cur].parent /\ ByTwo(cur) /\ GPut(k, cur, Long(cur, gau[k].v))
GUnblock(k, j) ==
   LET L == gau[k].lat IN LET p == lats[L].parent IN
   /\ L # 0 /\ p # 0 /\ gau[j].lat = p
   /\ LET co == [f \in {Fine(L, i) : i \in 1..lats[L].g.vol} |-> CHOOSE i \in 1..lats[L].g.vol : Fine(L, i) = f]
      IN GPut(j, p, [d \in 1..g.nd |-> [f \in 1..lats[p].g.vol |->
               IF f \in DOMAIN co THEN gau[k].v[d][co[f]] ELSE gau[j].v[d][f]]])
GClear(k) == GPut(k, 0, <<>>)
Show(k, obs) == Here(k) /\ Len(obs) = g.vol /\ \A i \in 1..g.vol : fld[k].v[i] \in {Undef, obs[i]}
GShow(k, obs) == /\ gau[k].lat = cur /\ Len(obs) = g.vol * g.nd
                 /\ \A d \in 1..g.nd : \A i \in 1..g.vol : obs[(d - 1) * g.vol + i] = gau[k].v[d][i]
=============================================================================

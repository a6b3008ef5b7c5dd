---------------------------- MODULE SelectMachine ----------------------------
(***************************************************************************)
(* Site selections (SiteSelect, SiteValueSelect) and clusters.               *)
(*                                                                           *)
(* typ, val : the classification of the sites and the values offered         *)
(* own      : sites of each rank                                             *)
(* sel      : selection variable -> what it holds:                           *)
(*    st   "none", "new" (no loop yet), "full"                               *)
(*    max  most sites it may hold (-1: all), auto whether joined by the loop  *)
(*    set  sites chosen by the last loop, v their values                     *)
(*    joined  the list is on rank 0                                          *)
(* A loop starts its selection anew; a site chosen several times in a loop    *)
(* appears once, with the last value.                                        *)
(***************************************************************************)
EXTENDS Lattice, TLC

CONSTANT NS
VARIABLES geo, own, typ, val, sel, cl
svars == <<geo, own, typ, val, sel, cl>>

None == [st |-> "none"]
NoClusters == [comp |-> <<>>, list |-> <<>>, idx |-> <<>>, typed |-> FALSE]
Names == {"s", "w"} \X (1..NS)
Init == /\ geo = NoGeometry /\ own = <<>> /\ typ = <<>> /\ val = <<>> /\ cl = NoClusters
        /\ sel = [n \in Names |-> None]
Start(sz) == /\ geo' = Geometry(sz) /\ UNCHANGED <<own, typ, val, sel, cl>>

Elems(q) == {q[i] : i \in 1..Len(q)}
Owned(obs) ==
  /\ \A i \in 1..Len(obs) : \A k \in 1..Len(obs[i]) : obs[i][k] \in 0..(geo.vol - 1)
  /\ SumSeq([i \in 1..Len(obs) |-> Len(obs[i])], Len(obs)) = geo.vol
  /\ UNION {Elems(obs[i]) : i \in 1..Len(obs)} = 0..(geo.vol - 1)
  /\ own' = [i \in 1..Len(obs) |-> {s + 1 : s \in Elems(obs[i])}]
  /\ UNCHANGED <<geo, typ, val, sel, cl>>

Types(t) == typ' = t /\ UNCHANGED <<geo, own, val, sel, cl>>
Values(a, m, b) == /\ val' = [i \in 1..geo.vol |-> a * ((i - 1) % m) + b]
                   /\ UNCHANGED <<geo, own, typ, sel, cl>>

Put(n, x) == sel' = [sel EXCEPT ![n] = x] /\ UNCHANGED <<geo, own, typ, val, cl>>
New(n, max, nojoin) == Put(n, [st |-> "new", max |-> max, auto |-> (nojoin = 0), set |-> {}, v |-> <<>>, joined |-> FALSE])

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the sites and values a loop of form f chooses with class c
Chosen(P, f, c) ==
  {i \in Sites(geo, P) : CASE f = 0 -> typ[i] = c
                           [] f = 1 -> typ[i] >= c
                           [] f = 2 -> \E k \in 1..geo.nd : typ[Neighbour(geo, i, k)] = c
                           [] f = 3 -> TRUE}
Value(f, c, i) ==
  CASE f \in {0, 3} -> val[i]
    [] f = 1 -> IF typ[i] = c THEN 2 * val[i] ELSE val[i]
    [] f = 2 -> val[Neighbour(geo, i, Max({k \in 1..geo.nd : typ[Neighbour(geo, i, k)] = c}))]
Loop(s, S, V) == [s EXCEPT !.st = "full", !.set = S, !.v = V, !.joined = s.auto]
Select(n, P, f, c) ==
  /\ sel[n].st # "none"
  /\ LET S == Chosen(P, f, c) IN Put(n, Loop(sel[n], S, [i \in S |-> Value(f, c, i)]))
Select2(n, m, P, c) ==
  LET S == Chosen(P, 0, c)
      R == Sites(geo, P) \ S
  IN /\ sel' = [sel EXCEPT ![n] = Loop(@, S, [i \in S |-> val[i]]), ![m] = Loop(@, R, [i \in R |-> val[i]])]
     /\ UNCHANGED <<geo, own, typ, val, cl>>
Copy(n, m) == sel[m].st # "none" /\ Put(n, sel[m])
Clear(n) == Put(n, [sel[n] EXCEPT !.set = {}, !.v = <<>>, !.st = "clear"])
Join(n) == sel[n].st = "full" /\ Put(n, [sel[n] EXCEPT !.joined = TRUE])

Least(max, k) == IF max >= 0 /\ max < k THEN max ELSE k
\* the list q of sites: distinct, from S, as many as allowed
ListOf(q, S, max) == /\ Len(q) = Least(max, Cardinality(S))
                     /\ Cardinality(Elems(q)) = Len(q)
                     /\ \A i \in 1..Len(q) : q[i] + 1 \in S
\* obs: per rank, <<overflow, sites>> with the values in between for the kind w
SitesIn(n, b) == IF n[1] = "s" THEN Tail(b) ELSE [i \in 1..((Len(b) - 1) \div 2) |-> b[2 * i]]
ValuesOK(n, b) == n[1] = "s" \/ \A i \in 1..((Len(b) - 1) \div 2) : b[2 * i + 1] = sel[n].v[b[2 * i] + 1]
Get(n, obs) ==
  LET s == sel[n] IN
  CASE s.st \in {"new", "clear"} -> \A r \in 1..Len(obs) : Len(obs[r]) = 1
    [] s.st = "full" /\ s.joined ->
         /\ ListOf(SitesIn(n, obs[1]), s.set, s.max) /\ ValuesOK(n, obs[1])
         /\ obs[1][1] = Cardinality(s.set) - Least(s.max, Cardinality(s.set))
         /\ \A r \in 2..Len(obs) : Len(obs[r]) = 1
    [] s.st = "full" /\ ~s.joined ->
         \A r \in 1..Len(obs) :
           LET S == s.set \cap own[r] IN
           /\ ListOf(SitesIn(n, obs[r]), S, s.max) /\ ValuesOK(n, obs[r])
           /\ obs[r][1] = Cardinality(S) - Least(s.max, Cardinality(S))
\* moved out: the list alone, overflow not told
Moved(n, obs) ==
  LET s == sel[n] IN
  IF s.joined THEN /\ ListOf(Tail(obs[1]), s.set, s.max)
                   /\ \A r \in 2..Len(obs) : Len(obs[r]) = 1
  ELSE \A r \in 1..Len(obs) : ListOf(Tail(obs[r]), s.set \cap own[r], s.max)

----------------------------------------------------------------------------
(* Clusters: connected components *)
Background == 255
Dirs == {d \in -geo.nd..geo.nd : d # 0}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* representative of each site (0: background), from the relation Joined(i, d): i and its neighbour in direction d
RECURSIVE Spread(_, _)
Spread(c, N) ==
  LET d == [i \in DOMAIN c |-> IF c[i] = 0 THEN 0 ELSE MinOf({c[i]} \cup {c[j] : j \in N[i]})]
      e == [i \in DOMAIN c |-> IF d[i] = 0 THEN 0 ELSE d[d[i]]]
  IN IF e = c THEN c ELSE Spread(e, N)
\* t: the class of each site
ByType(t) ==
  LET N == [i \in 1..geo.vol |-> {j \in {Neighbour(geo, i, d) : d \in Dirs} : t[j] = t[i]}]
  IN Spread([i \in 1..geo.vol |-> IF t[i] = Background THEN 0 ELSE i], N)
\* b[d][i]: sites i and i + d are connected
ByLink(b) ==
  LET N == [i \in 1..geo.vol |-> {Neighbour(geo, i, k) : k \in {k \in 1..geo.nd : b[k][i] # 0}} \cup
                                 {Neighbour(geo, i, -k) : k \in {k \in 1..geo.nd : b[k][Neighbour(geo, i, -k)] # 0}}]
  IN Spread([i \in 1..geo.vol |-> IF N[i] = {} THEN 0 ELSE i], N)
LinksOf(q) == [k \in 1..geo.nd |-> [i \in 1..geo.vol |-> q[(k - 1) * geo.vol + i]]]

Reps(c) == {c[i] : i \in 1..geo.vol} \ {0}
Count(c, r) == Cardinality({i \in 1..geo.vol : c[i] = r})
\* the cluster list: <<size, type>> one after the other
Found(c, t, typed, obs) ==
  LET n == Len(obs) \div 2 IN
  /\ Len(obs) = 2 * n /\ n = Cardinality(Reps(c))
  /\ SumSeq([k \in 1..n |-> obs[2 * k - 1]], n) = Cardinality({i \in 1..geo.vol : c[i] # 0})
  /\ cl' = [comp |-> c, list |-> [k \in 1..n |-> [size |-> obs[2 * k - 1], type |-> obs[2 * k]]], idx |-> <<>>,
            typed |-> typed, t |-> t]
  /\ UNCHANGED <<geo, own, typ, val, sel>>
FindType(t, obs) == Found(ByType(t), t, TRUE, obs)
FindLink(q, obs) == Found(ByLink(LinksOf(q)), <<>>, FALSE, obs)
\* which cluster each site belongs to: this fixes what the numbers of the list mean
Labels(obs) ==
  /\ Len(obs) = geo.vol
  /\ \A i \in 1..geo.vol : IF cl.comp[i] = 0 THEN obs[i] = -1
                           ELSE /\ obs[i] + 1 \in 1..Len(cl.list)
                                /\ obs[i] = obs[cl.comp[i]]
                                /\ cl.typed => cl.list[obs[i] + 1].type = cl.t[i]
                                /\ cl.list[obs[i] + 1].size = Count(cl.comp, cl.comp[i])
  /\ Cardinality({obs[r] : r \in Reps(cl.comp)}) = Len(cl.list)
  /\ cl' = [cl EXCEPT !.idx = obs]
  /\ UNCHANGED <<geo, own, typ, val, sel>>
SizesOf(obs) == obs = [k \in 1..Len(cl.list) |-> cl.list[k].size]
Members(i) == {s \in 1..geo.vol : cl.idx[s] = i}
AreaOf(i, obs) ==
  obs = <<SumSeq([s \in 1..geo.vol |-> IF cl.idx[s] # i THEN 0
                                       ELSE Cardinality({d \in Dirs : cl.idx[Neighbour(geo, s, d)] # i})], geo.vol)>>
SitesOf(i, obs) == /\ Cardinality(Elems(obs)) = Len(obs)
                   /\ {x + 1 : x \in Elems(obs)} = Members(i)
=============================================================================

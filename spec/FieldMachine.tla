---------------------------- MODULE FieldMachine ----------------------------
(***************************************************************************)
(* What a program does to its fields: the sequential meaning every           *)
(* execution on any number of ranks, any target and any message timing must  *)
(* have.  One action per public operation.                                   *)
(*                                                                           *)
(* geo : geometry of the lattice (module Lattice)                            *)
(* val : field -> values of its sites (<<>> : the field is not allocated,    *)
(*       Undef : the site was never assigned)                                *)
(* bc  : field -> boundary condition per direction (0 periodic, 1 anti-      *)
(*       periodic)                                                           *)
(*                                                                           *)
(* Field elements are integers; the harness maps integer v to the linear      *)
(* encoding v*(1,-2,3,..) of the element type.                                *)
(***************************************************************************)
EXTENDS Lattice, TLC

CONSTANT Fields
VARIABLES geo, val, bc
fmvars == <<geo, val, bc>>

NoBC(g) == [k \in 1..g.nd |-> 0]

Start(sz) ==
  /\ geo' = Geometry(sz)
  /\ val' = [f \in Fields |-> <<>>]
  /\ bc' = [f \in Fields |-> [k \in 1..Len(sz) |-> 0]]

V(f, i) == IF val[f] = <<>> THEN Undef ELSE val[f][i]

\* value of field f seen from site i in direction d (0: at i itself)
Seen(f, i, d) ==
  IF d = 0 THEN V(f, i)
  ELSE LET v == V(f, Neighbour(geo, i, d))
       IN IF v = Undef THEN Undef
          ELSE IF bc[f][Abs(d)] = 1 /\ Crosses(geo, i, d) THEN -v ELSE v
\* value of f seen from site i at displacement v
SeenOff(f, i, v) ==
  LET w == V(f, Offset(geo, i, v))
  IN IF w = Undef THEN Undef
     ELSE IF CrossCount(geo, i, v, bc[f], geo.nd) % 2 = 1 THEN -w ELSE w

Add(a, b) == IF a = Undef \/ b = Undef THEN Undef ELSE a + b
Mul(c, a) == IF a = Undef THEN Undef ELSE c * a

\* assignment of E(i) to the sites i of parity P
AssignSites(f, P, E(_)) ==
  /\ val' = [val EXCEPT ![f] = [i \in 1..geo.vol |-> IF InPar(geo, P, i) THEN E(i) ELSE V(f, i)]]
  /\ UNCHANGED <<geo, bc>>

AssignConst(f, P, c)      == AssignSites(f, P, LAMBDA i : c)
AssignLinear(f, P, a, b)  == AssignSites(f, P, LAMBDA i : a * (i - 1) + b)
AssignSeen(f, P, g, d)    == AssignSites(f, P, LAMBDA i : Seen(g, i, d))
AssignTwo(f, P, g, d1, h, d2, s) ==
  AssignSites(f, P, LAMBDA i : Add(Seen(g, i, d1), Mul(s, Seen(h, i, d2))))
RECURSIVE SumSeen(_, _, _)
SumSeen(g, i, k) ==
  IF k = 0 THEN 0 ELSE Add(SumSeen(g, i, k - 1), Add(Seen(g, i, k), Seen(g, i, -k)))
AssignStar(f, P, g) ==
  AssignSites(f, P, LAMBDA i : Add(SumSeen(g, i, geo.nd), Mul(-2 * geo.nd, V(g, i))))
AddSeen(f, P, g, d)  == AssignSites(f, P, LAMBDA i : Add(V(f, i), Seen(g, i, d)))
RECURSIVE Weighted(_, _)
Weighted(i, k) == IF k = 0 THEN 0 ELSE k * geo.cs[i][k] + Weighted(i, k - 1)
AssignIf(f, P, g, d, m, r) ==
  AssignSites(f, P, LAMBDA i : IF Weighted(i, geo.nd) % m = r THEN Seen(g, i, d) ELSE V(f, i))
SwapSites(f, P, g) ==
  /\ val' = [val EXCEPT
       ![f] = [i \in 1..geo.vol |-> IF InPar(geo, P, i) THEN V(g, i) ELSE V(f, i)],
       ![g] = [i \in 1..geo.vol |-> IF InPar(geo, P, i) THEN V(f, i) ELSE V(g, i)]]
  /\ UNCHANGED <<geo, bc>>

\* communication operations are invisible
Communicate(f, d, P) == UNCHANGED fmvars

AssignAll(f, E(_)) == AssignSites(f, "A", E)
Copy(f, g) == AssignAll(f, LAMBDA i : V(g, i))     \* the boundary condition of f stays
\* moving hands over everything, the source is unallocated afterwards
Move(f, g) ==
  IF f = g THEN UNCHANGED fmvars
  ELSE /\ val' = [val EXCEPT ![f] = val[g], ![g] = <<>>]
       /\ bc' = [bc EXCEPT ![f] = bc[g], ![g] = NoBC(geo)]
       /\ UNCHANGED geo
Swap(f, g) ==
  /\ val' = [val EXCEPT ![f] = val[g], ![g] = val[f]]
  /\ bc' = [bc EXCEPT ![f] = bc[g], ![g] = bc[f]]
  /\ UNCHANGED geo
Clear(f) ==
  /\ val' = [val EXCEPT ![f] = <<>>]
  /\ bc' = [bc EXCEPT ![f] = NoBC(geo)]
  /\ UNCHANGED geo
\* a new field, constructed from g, replaces f
Construct(f, E(_)) ==
  /\ val' = [val EXCEPT ![f] = [i \in 1..geo.vol |-> E(i)]]
  /\ bc' = [bc EXCEPT ![f] = NoBC(geo)]
  /\ UNCHANGED geo
ConstructMove(f, g) ==
  IF f = g THEN UNCHANGED fmvars ELSE Move(f, g)
\* f = g (op) h by way of a temporary field, which is moved into f
AssignTemp(f, E(_)) == Construct(f, E)

\* element access; s is a site number 0..vol-1
SetElement(f, s, v) ==
  /\ val[f] # <<>>
  /\ val' = [val EXCEPT ![f][s + 1] = v]
  /\ UNCHANGED <<geo, bc>>
AddElement(f, s, v) == SetElement(f, s, Add(V(f, s + 1), v))
RECURSIVE SetMany(_, _, _, _)
SetMany(q, ss, vs, k) ==
  IF k = 0 THEN q ELSE [SetMany(q, ss, vs, k - 1) EXCEPT ![ss[k] + 1] = vs[k]]
SetElements(f, ss, vs) ==
  /\ val[f] # <<>>
  /\ val' = [val EXCEPT ![f] = SetMany(val[f], ss, vs, Len(ss))]
  /\ UNCHANGED <<geo, bc>>

Alloc(q) == IF q = <<>> THEN [i \in 1..geo.vol |-> Undef] ELSE q
SetBC(f, k, b) ==
  /\ bc' = [bc EXCEPT ![f][k] = b]
  /\ val' = [val EXCEPT ![f] = Alloc(val[f])]
  /\ UNCHANGED geo
CopyBC(f, g) ==
  /\ bc' = [bc EXCEPT ![f] = bc[g]]
  /\ val' = [val EXCEPT ![f] = Alloc(val[f])]
  /\ UNCHANGED geo

ShiftTo(f, P, g, v) == AssignSites(f, P, LAMBDA i : SeenOff(g, i, v))

\* ------------------------------------------------------------------ observations
Agrees(x, v) == v = Undef \/ x = v
FieldIs(f, obs) ==
  /\ Len(obs) = geo.vol
  /\ \A i \in 1..geo.vol : Agrees(obs[i], V(f, i))
ElementsAre(f, ss, obs) ==
  /\ Len(obs) = Len(ss)
  /\ \A k \in 1..Len(ss) : Agrees(obs[k], V(f, ss[k] + 1))
\* sites of a box in lexicographic order
RECURSIVE BoxSites(_, _, _)
BoxSites(lo, hi, k) ==   \* offsets (0-based site numbers) of the box in directions 1..k
  IF k = 0 THEN <<0>>
  ELSE LET q == BoxSites(lo, hi, k - 1)
           n == Len(q)
       IN [j \in 1..(n * (hi[k] - lo[k] + 1)) |->
             q[((j - 1) % n) + 1] + (lo[k] + (j - 1) \div n) * geo.st[k]]
Box(lo, hi) == BoxSites(lo, hi, geo.nd)
RECURSIVE SumField(_, _, _)
SumField(f, P, i) ==
  IF i = 0 THEN 0
  ELSE SumField(f, P, i - 1) + (IF InPar(geo, P, i) THEN V(f, i) ELSE 0)
=============================================================================

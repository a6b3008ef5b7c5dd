---------------------------- MODULE LoopMachine ----------------------------
(***************************************************************************)
(* The meaning of a site loop (onsites, f[P] = ...), given as the syntax     *)
(* tree of its body: every site of the loop's parity runs the body once, in   *)
(* sequential order of its statements, seeing its own writes, reading the     *)
(* neighbours' values from before the loop; sums collect the contributions    *)
(* of all sites; nothing else changes.  Whatever hilapp makes of the loop     *)
(* (scalar, vectorized, OpenMP, with functions specialised) and however it is *)
(* distributed over ranks must agree.                                        *)
(*                                                                           *)
(* geo: geometry; fld: values of the fields; bc: boundary condition of each   *)
(* field and direction; ex: the constants the loop takes from outside.        *)
(***************************************************************************)
EXTENDS Lattice, TLC

CONSTANT NF
VARIABLES geo, fld, bc, ex, defs
lvars == <<geo, fld, bc, ex, defs>>

Init == /\ geo = NoGeometry /\ fld = <<>> /\ bc = <<>> /\ ex = <<>> /\ defs = <<>>
Start(sz, d) ==
  /\ geo' = Geometry(sz) /\ defs' = d
  /\ fld' = [f \in 1..NF |-> <<>>]
  /\ bc' = [f \in 1..NF |-> [k \in 1..Len(sz) |-> 0]]
  /\ ex' = [c |-> <<0, 0, 0>>, ca |-> <<0, 0, 0, 0>>, n |-> 0, dd |-> 1]

Const(c, ca, n, dd) == ex' = [c |-> c, ca |-> ca, n |-> n, dd |-> dd] /\ UNCHANGED <<geo, fld, bc, defs>>
Fill(f, a, m, b) == /\ fld' = [fld EXCEPT ![f] = [i \in 1..geo.vol |-> a * ((i - 1) % m) + b]]
                    /\ UNCHANGED <<geo, bc, ex, defs>>
SetBC(f, d, b) == bc' = [bc EXCEPT ![f][d] = b] /\ UNCHANGED <<geo, fld, ex, defs>>

\* the neighbour's value from before the loop
Read(f, i, d) == LET v == fld[f][Neighbour(geo, i, d)]
                 IN IF bc[f][Abs(d)] = 1 /\ Crosses(geo, i, d) THEN -v ELSE v

(* State of one site within the body:                                       *)
(*   v variables, w own values of the fields, s contributions to the sums,    *)
(*   g "" running, "break", "continue"                                       *)
RECURSIVE Ex(_, _, _), Run(_, _, _, _), St(_, _, _), Loop(_, _, _, _, _), Dirs(_, _, _, _), Call(_, _, _)

Ex(e, t, x) ==
  CASE e.k = "num" -> e.v
    [] e.k = "var" -> t.v[e.n]
    [] e.k = "fld" -> t.w[e.f]
    [] e.k = "nb"  -> Read(e.f, x, e.d)
    [] e.k = "nbv" -> Read(e.f, x, e.s * (IF e.n = "dd" THEN ex.dd ELSE t.v[e.n]))
    [] e.k = "ext" -> ex.c[e.i]
    [] e.k = "n"   -> ex.n
    [] e.k = "ca"  -> ex.ca[Ex(e.i, t, x) + 1]
    [] e.k = "co"  -> geo.cs[x][e.d]
    [] e.k = "add" -> Ex(e.a, t, x) + Ex(e.b, t, x)
    [] e.k = "sub" -> Ex(e.a, t, x) - Ex(e.b, t, x)
    [] e.k = "mul" -> Ex(e.a, t, x) * Ex(e.b, t, x)
    [] e.k = "mod" -> Ex(e.a, t, x) % e.m
    [] e.k = "tern" -> IF Ex(e.c, t, x) THEN Ex(e.a, t, x) ELSE Ex(e.b, t, x)
    [] e.k = "call" -> Call(defs[e.f], [i \in 1..Len(e.a) |-> Ex(e.a[i], t, x)], x)
    [] e.k = "lt"  -> Ex(e.a, t, x) < Ex(e.b, t, x)
    [] e.k = "eq"  -> Ex(e.a, t, x) = Ex(e.b, t, x)
    [] e.k = "not" -> ~Ex(e.a, t, x)
    [] e.k = "and" -> Ex(e.a, t, x) /\ Ex(e.b, t, x)
    [] e.k = "or"  -> Ex(e.a, t, x) \/ Ex(e.b, t, x)
    [] e.k = "even" -> geo.par[x] = 0

\* a function sees its arguments only
Call(d, a, x) ==
  LET t == [v |-> [p \in {d.p[i] : i \in 1..Len(d.p)} |-> a[CHOOSE i \in 1..Len(d.p) : d.p[i] = p]],
            w |-> <<>>, s |-> <<0, 0>>, g |-> ""]
  IN Ex(d.ret, Run(d.body, 1, t, x), x)

Upd(o, old, e) == CASE o = "=" -> e [] o = "+=" -> old + e [] o = "-=" -> old - e
Bind(t, n, a) == [t EXCEPT !.v = (n :> a) @@ t.v]

Run(b, k, t, x) == IF k > Len(b) \/ t.g # "" THEN t ELSE Run(b, k + 1, St(b[k], t, x), x)

Loop(s, i, m, t, x) ==
  IF i = m \/ t.g = "break" THEN [t EXCEPT !.g = ""]
  ELSE Loop(s, i + 1, m, Run(s.a, 1, Bind([t EXCEPT !.g = ""], s.n, i), x), x)
Dirs(s, d, t, x) == IF d > geo.nd THEN t ELSE Dirs(s, d + 1, Run(s.a, 1, Bind(t, s.n, d), x), x)

St(s, t, x) ==
  CASE s.k = "asgf" -> [t EXCEPT !.w[s.f] = Upd(s.o, @, Ex(s.e, t, x))]
    [] s.k = "asgv" -> Bind(t, s.n, Upd(s.o, t.v[s.n], Ex(s.e, t, x)))
    [] s.k = "sum"  -> [t EXCEPT !.s[s.i] = Upd(s.o, @, Ex(s.e, t, x))]
    [] s.k = "decl" -> Bind(t, s.n, Ex(s.e, t, x))
    [] s.k = "if"   -> Run(IF Ex(s.c, t, x) THEN s.a ELSE s.b, 1, t, x)
    [] s.k = "for"  -> Loop(s, 0, Ex(s.c, t, x), t, x)
    [] s.k = "dirs" -> Dirs(s, 1, t, x)
    [] s.k = "ref"  -> [t EXCEPT !.w[s.f] = Call(defs[s.g], <<t.w[s.f], Ex(s.e, t, x)>>, x)]
    [] s.k = "break" -> [t EXCEPT !.g = "break"]
    [] s.k = "continue" -> [t EXCEPT !.g = "continue"]

Site(body, x) == Run(body, 1, [v |-> <<>>, w |-> [f \in 1..NF |-> IF fld[f] = <<>> THEN Undef ELSE fld[f][x]],
                               s |-> <<0, 0>>, g |-> ""], x)

RECURSIVE Total(_, _, _)
Total(res, i, k) == IF i = 0 THEN 0 ELSE res[i].s[k] + Total(res, i - 1, k)

\* the loop over parity P started with sums s0; obs: the sums it leaves, on all ranks
Kernel(body, P, s0, t0, obs) ==
  LET res == [i \in 1..geo.vol |-> IF InPar(geo, P, i) THEN Site(body, i)
                                   ELSE [w |-> [f \in 1..NF |-> IF fld[f] = <<>> THEN Undef ELSE fld[f][i]], s |-> <<0, 0>>]]
      new == [f \in 1..NF |-> [i \in 1..geo.vol |-> res[i].w[f]]]
  IN /\ obs = <<s0 + Total(res, geo.vol, 1), t0 + Total(res, geo.vol, 2)>>
     /\ fld' = [f \in 1..NF |-> IF \A i \in 1..geo.vol : new[f][i] = Undef THEN <<>> ELSE new[f]]
     /\ UNCHANGED <<geo, bc, ex, defs>>

Show(f, obs) == \A i \in 1..geo.vol : fld[f][i] = Undef \/ fld[f][i] = obs[i]
=============================================================================

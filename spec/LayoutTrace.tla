----------------------------- MODULE LayoutTrace -----------------------------
(* Trace validation for harness lay. *)
EXTENDS LayoutMachine, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED lvars
\* an operation that is allowed tells the new size; one that is not stops the program
Now(ok, A) == IF ok THEN A /\ r.obs = lats'[cur'].g.sz ELSE r.obs = <<>> /\ UNCHANGED lvars

Step ==
  \/ Is("start")    /\ Start(r.sz)
  \/ Is("refused")  /\ r.badnp /\ Obs
  \/ Is("sites")    /\ Distribute(r.obs)
  \/ Is("back")     /\ BackOK(r.obs) /\ Obs
  \/ Is("coord")    /\ CoordOK(r.obs) /\ Obs
  \/ Is("spar")     /\ ParityOK(r.obs) /\ Obs
  \/ Is("owner")    /\ OwnerOK(r.obs) /\ Obs
  \/ Is("mine")     /\ MineOK(r.obs) /\ Obs
  \/ Is("info")     /\ InfoOK(r.obs) /\ Obs
  \/ Is("nodeinfo") /\ NodeInfoOK(r.obs) /\ Obs
  \/ Is("range")    /\ RangeOK(r.obs) /\ Obs
  \/ Is("size")     /\ SizeOK(r.obs) /\ Obs
  \/ Is("visit")    /\ VisitOK(r.P, r.obs) /\ Obs
  \/ Is("xcoord")   /\ XCoordOK(r.P, r.obs) /\ Obs
  \/ Is("xdir")     /\ XCoordOK(r.P, r.obs) /\ Obs
  \/ Is("xpar")     /\ XParOK(r.P, r.obs) /\ Obs
  \/ Is("nb")       /\ NbOK(r.P, r.d, r.obs) /\ Obs
  \/ Is("fcnt")     /\ CountOK(r.P, r.obs) /\ Obs
  \/ Is("block")    /\ Now(MayBlock(r.b), Block(r.b))
  \/ Is("blocki")   /\ IF r.n \in {0, 1} THEN r.obs = g.sz /\ Obs
                       ELSE LET b == [k \in 1..g.nd |-> r.n] IN Now(MayBlock(b), Block(b))
  \/ Is("canblock") /\ r.obs = <<IF MayBlock(r.b) THEN 1 ELSE 0>> /\ Obs
  \/ Is("unblock")  /\ Now(HasParent, Unblock)
  \/ Is("base")     /\ Now(TRUE, Base)
  \/ Is("goto")     /\ Now(TRUE, SwitchTo(r.k))
  \/ Is("fclear")   /\ FClear(r.k)
  \/ Is("fset")     /\ FSet(r.k, r.P, r.a, r.c)
  \/ Is("fadd")     /\ FAdd(r.k, r.P, r.c)
  \/ Is("fcopy")    /\ FCopy(r.k, r.j)
  \/ Is("fnb")      /\ FNb(r.k, r.P, r.j, r.d)
  \/ Is("fnba")     /\ FNbA(r.k, r.P, r.j, r.d)
  \/ Is("fshift")   /\ FShift(r.k, r.j, r.u)
  \/ Is("fel")      /\ FEl(r.k, r.s, r.v)
  \/ Is("bfrom")    /\ BlockFrom(r.k, r.j)
  \/ Is("unto")     /\ UnblockTo(r.k, r.j)
  \/ Is("bcur")     /\ BlockToCur(r.k)
  \/ Is("fdump")    /\ Show(r.k, r.obs) /\ Obs
  \/ Is("fsum")     /\ Here(r.k) /\ r.obs = <<SumV(fld[r.k].v, r.P, g.vol)>> /\ Obs
  \/ Is("fget")     /\ Here(r.k) /\ r.obs = <<fld[r.k].v[r.s + 1]>> /\ Obs
  \/ Is("gset")     /\ GSet(r.k, r.a, r.c)
  \/ Is("gblock")   /\ GBlock(r.k, r.j)
  \/ Is("gbcur")    /\ GBlockToCur(r.k)
  \/ Is("gunto")    /\ GUnblock(r.k, r.j)
  \/ Is("gclear")   /\ GClear(r.k)
  \/ Is("gdump")    /\ GShow(r.k, r.obs) /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

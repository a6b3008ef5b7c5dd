------------------------------ MODULE AlgebraTrace ------------------------------
(* Trace validation for harness alg. *)
EXTENDS AlgebraMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start") /\ Start
  \/ Op("group") /\ Group(r.t, r.n)
  \/ Op("put")   /\ Put(r.q, r.v)
  \/ Op("get")   /\ Get(r.q, r.obs)
  \/ Op("bin")   /\ Bin(r.f, r.d, r.a, r.b, r.obs)
  \/ Op("una")   /\ Una(r.f, r.d, r.a, r.obs)
  \/ Op("inp")   /\ Inp(r.f, r.a, r.b, r.obs)
  \/ Op("ter")   /\ Ter(r.f, r.d, r.a, r.b, r.obs)
  \/ Op("part")  /\ PartOf(r.f, r.a, r.i, r.j, r.b, r.obs)
  \/ Op("perm")  /\ Perm(r.f, r.a, r.p, r.obs)
  \/ Op("sort")  /\ Sort(r.a, r.desc, r.obs)
  \/ Op("two")   /\ Two(r.f, r.a, r.p, r.q, r.z, r.obs)
  \/ Op("inex")  /\ Inexact(r.f, r.a, r.b, r.den, r.obs)
  \/ Op("loop")  /\ Loop(r.f, r.a, r.b, r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, l>>
TraceAccepted ==
  LET k == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(k)) /\ k = Len(Trace)
=============================================================================

---------------------------- MODULE LoopRulesTrace ----------------------------
(* Trace validation: what hilapp says about generated loops. *)
EXTENDS LoopRules, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ LInit
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start") /\ UNCHANGED st
  \/ Op("loop")  /\ Begin(r.P, r.safe)
  \/ Op("put")   /\ PutField(r.f, r.o, r.R)
  \/ Op("local") /\ Local(r.n, r.kind, r.R)
  \/ Op("setl")  /\ SetLocal(r.n, r.R)
  \/ Op("outer") /\ Outer(r.n, r.b, r.how, r.R)
  \/ Op("ref")   /\ Ref(r.kind, r.what, r.n, r.o)
  \/ Op("never") /\ Never1(r.what)
  \/ Op("always") /\ Always(r.what)
  \/ Op("cond")  /\ Cond(r.R)
  \/ Op("end")   /\ End(r.obs[1])

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

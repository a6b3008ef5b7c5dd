------------------------------- MODULE MucaTrace -------------------------------
(* Trace validation for harness muc. *)
EXTENDS MucaMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start")   /\ Start
  \/ Op("init")    /\ Initialise(r.k, r, r.obs)
  \/ Op("wfun")    /\ WFun(r.k, r.x, r.obs)
  \/ Op("ar")      /\ Decide(r.k, r.x, r.y, r.obs)
  \/ Op("iter")    /\ Iterate(r.k, r.x, r.obs)
  \/ Op("cont")    /\ Continuous(r.k, r.y)
  \/ Op("flag")    /\ Flag(r.k, r.obs)
  \/ Op("setflag") /\ SetFlag(r.k, r.y)
  \/ Op("finish")  /\ UserFinish(r.k)
  \/ Op("write")   /\ Write(r.k, r.j, r.obs)
  \/ Op("take")    /\ Take(r.j)
  \/ Op("make")    /\ Make(r.j, r.kind, r.lim, r.w)
  \/ Op("drop")    /\ Drop(r.j)
  \/ Op("file")    /\ File(r.j, r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

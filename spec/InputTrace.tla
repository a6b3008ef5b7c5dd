----------------------------- MODULE InputTrace -----------------------------
(* Trace validation for harness inp. *)
EXTENDS InputMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start") /\ Start(r.files, r.over, r.ifile, r.nd)
  \/ Op("open")  /\ Open(r.f, r.must = 1, r.obs)
  \/ Op("openc") /\ Open(r.f, TRUE, r.obs)
  \/ Op("close") /\ Close(r.obs)
  \/ Op("drop")  /\ Close(r.obs)
  \/ Op("quiet") /\ UNCHANGED ivars
  \/ Op("get")   /\ Read(r.t, r.key, TRUE, r.obs)
  \/ Op("val")   /\ Read(r.t, r.key, FALSE, r.obs)
  \/ Op("val0")  /\ Read(r.t, r.key, FALSE, r.obs)
  \/ Op("item")  /\ Item(r.key, r.its, TRUE, r.obs)
  \/ Op("item0") /\ Item(r.key, r.its, FALSE, r.obs)
  \/ r.op \in {"get", "val", "val0", "item", "item0"} /\ Lost(r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

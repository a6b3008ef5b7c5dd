----------------------------- MODULE TimeTrace -----------------------------
(* Trace validation for harness tim. *)
EXTENDS TimeMachine, Json, IOUtils, TLC

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ TInit
r == Trace[l]
Op(o) == r.op = o

AllRanks(obs, v) == Len(obs) = np /\ \A i \in 1..np : obs[i] = <<v>>
Step ==
  \/ /\ Op("start")
     /\ np' = r.np /\ now' = 0 /\ seen' = <<0>> /\ sigs' = {} /\ ended' = FALSE
     /\ limit' = (IF r.t = <<>> THEN 0 ELSE 4 * Seconds(r.t))
  \/ /\ ~ended
     /\ \/ Op("adv")    /\ Advance(r.d)
        \/ Op("limit")  /\ SetLimit(r.q) /\ r.obs = <<1>>
        \/ Op("limits") /\ LimitText(r.w, r.obs)
        \/ Op("sig")    /\ Signal(r.r)
                        /\ Len(r.obs) = np
                        /\ \A i \in 1..np : r.obs[i] = <<IF (i - 1) \in sigs' THEN 1 ELSE 0>>
        \/ Op("check")  /\ Ask /\ AllRanks(r.obs, IF Finish THEN 1 ELSE 0)
        \/ Op("now")    /\ AllRanks(r.obs, now) /\ UNCHANGED tvars

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

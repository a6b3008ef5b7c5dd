----------------------------- MODULE PoolTrace -----------------------------
(* Trace validation for harness pool. *)
EXTENDS PoolMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED pvars
Range(s) == {s[i] : i \in DOMAIN s}

Step ==
  \/ Is("start")  /\ Fresh
  \/ Is("new")    /\ Fresh
  \/ Is("alloc")  /\ r.obs[2] = 1 /\ Alloc(r.h + 1, r.size, r.obs[1])
  \/ Is("free")   /\ r.obs = <<1>> /\ Free(r.h + 1)
  \/ Is("purge")  /\ Len(r.obs) = Cardinality(Range(r.obs)) /\ Purge(Range(r.obs))
  \/ Is("stat")   /\ Stat(r.obs) /\ Obs
  \/ Is("check")  /\ r.obs = <<>> /\ Obs
  \* a block that is not in use, or not of the pool: the program stops with a message
  \/ Is("badfree") /\ r.obs = <<>> /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

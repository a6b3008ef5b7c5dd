------------------------------ MODULE LoopTrace ------------------------------
(* Trace validation for generated loops (harness lp). *)
EXTENDS LoopMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED lvars

Step ==
  \/ Is("start") /\ Start(r.sz, r.defs)
  \/ Is("init")  /\ Fill(r.f + 1, r.a, r.m, r.b)
  \/ Is("const") /\ Const(r.c, r.ca, r.n, r.dd)
  \/ Is("bc")    /\ SetBC(r.f + 1, r.d, r.b)
  \/ Is("run")   /\ Kernel(r.body, r.par, r.s, r.t, r.obs)
  \/ Is("dump")  /\ Show(r.f + 1, r.obs) /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

----------------------------- MODULE FourierTrace -----------------------------
(* Trace validation for harness fft. *)
EXTENDS FourierMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]
Sign == IF r.sg = 0 THEN 1 ELSE -1

Step ==
  \/ Op("start")   /\ Start(r.sz)
  \/ Op("set")     /\ Set(r.t, r.k, r.seed)
  \/ Op("fft")     /\ Fft(r.t, r.k, r.j, r.D, Sign)
  \/ Op("fftin")   /\ Fft(r.t, r.k, r.k, r.D, Sign)
  \/ Op("fftall")  /\ Fft(r.t, r.k, r.j, Ones, Sign)
  \/ Op("ref")     /\ Reflect(r.t, r.k, r.j, r.D)
  \/ Op("refdir")  /\ Reflect(r.t, r.k, r.j, [d \in 1..ND |-> IF d = r.d + 1 THEN 1 ELSE 0])
  \/ Op("refall")  /\ Reflect(r.t, r.k, r.j, Ones)
  \/ Op("copy")    /\ Copy(r.t, r.k, r.j)
  \/ Op("r2c")     /\ RToC(r.t, r.k, r.j, Sign)
  \/ Op("c2r")     /\ CToR(r.t, r.k, r.j, Sign)
  \/ Op("get")     /\ Get(r.t, r.k, r.obs)
  \/ Op("wave")    /\ Wave(r.c, r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

----------------------------- MODULE SpectralTrace -----------------------------
(* Trace validation for harness sd. *)
EXTENDS SpectralMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ SInit
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start")   /\ SStart(r.sz)
  \/ Op("new")     /\ NewBin(r.b, r.n)
  \/ Op("copy")    /\ CopyBin(r.b, r.j)
  \/ Op("bins")    /\ Bins(r.b, r.n)
  \/ Op("kmax")    /\ KMax(r.b, Frac(r.x, r.y))
  \/ Op("width")   /\ Width(r.b, Frac(r.x, r.y))
  \/ Op("power")   /\ Power(r.b, r.p)
  \/ Op("show")    /\ Show(r.b, r.obs)
  \/ Op("counts")  /\ Counts(r.b, r.obs)
  \/ Op("count")   /\ Count(r.b, r.i, r.obs)
  \/ Op("avg")     /\ Avg(r.b, r.i, r.obs)
  \/ Op("limits")  /\ Limits(r.b, r.i, r.obs)
  \/ Op("modes")   /\ Modes(r.b, r.obs)
  \/ Op("set")     /\ SetS(r.t, r.k, r.seed)
  \/ Op("bin")     /\ BinField(r.b, r.t, r.k, r.obs)
  \/ Op("sqn")     /\ SquareNorm(r.b, r.t, r.k, r.obs)
  \/ Op("sd")      /\ Density(r.b, r.t, r.k, r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

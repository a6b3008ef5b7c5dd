------------------------------ MODULE GaugeTrace ------------------------------
(* Trace validation for harness gau. *)
EXTENDS GaugeMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start")   /\ Start(r.sz)
  \/ Op("group")   /\ Group(r.n)
  \/ Op("fill")    /\ Fill(r.r, r.seed)
  \/ Op("unit")    /\ UnitField(r.r, r.e)
  \/ Op("link")    /\ SetLink(r.r, r.d, r.s, r.e)
  \/ Op("trans")   /\ Transform(r.r, r.seed)
  \/ Op("copy")    /\ Copy(r.r, r.q)
  \/ Op("reuni")   /\ Reunitarize(r.r)
  \/ Op("get")     /\ Get(r.r, r.d, r.obs)
  \/ Op("plaq")    /\ Plaq(r.r, r.kind, r.obs)
  \/ Op("impr")    /\ Improved(r.r, r.a, r.b, r.obs)
  \/ Op("poly")    /\ Polyakov(r.r, r.d, r.obs)
  \/ Op("stap")    /\ Staple(r.r, r.d, r.par, r.obs)
  \/ Op("wstap")   /\ WeightedStaple(r.r, r.d, r.par, r.seed, r.obs)
  \/ Op("rstap")   /\ ReverseStaple(r.r, r.d, r.obs)
  \/ Op("staps")   /\ AllStaples(r.r, r.obs)
  \/ Op("wline")   /\ WilsonLine(r.r, r.p, r.obs)
  \/ Op("fwl")     /\ LoopForce(r.r, r.p, r.a, r.kind, r.seed, r.obs)
  \/ Op("fplaq")   /\ PlaqForce(r.r, r.a, r.add, r.seed, r.obs)
  \/ Op("fimpr")   /\ ImprovedForce(r.r, r.a, r.b, r.add, r.seed, r.obs)
  \/ Op("fclov")   /\ CloverForce(r.r, r.a, r.add, r.seed, r.obs)
  \/ Op("sclov")   /\ CloverAction(r.r, r.obs)
  \/ Op("topo")    /\ TopoCharge(r.r, r.obs)
  \/ Op("gauss")   /\ Gauss(r.r, r.seed, r.obs)
  \/ Op("degauss") /\ Degauss(r.r, r.seed, r.obs)
  \/ Op("over")    /\ Overrelax(r.r, r.d, r.kind, r.obs)
  \/ Op("smear")   /\ Smear(r.r, r.obs)
  \/ Op("covar")   /\ Covariant(r.r, r.obs)
  \/ Op("block")   /\ Block(r.r, r.fac, r.d, r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, l>>
TraceAccepted ==
  LET k == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(k)) /\ k = Len(Trace)
=============================================================================

---------------------------- MODULE ExtendedTrace ----------------------------
(* Trace validation for harness ext. *)
EXTENDS ExtendedMachine, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ XInit
Op(o) == Trace[l].op = o
r == Trace[l]

Step ==
  \/ Op("start") /\ XStart(r.sz, r.np)
  \/ Op("set")   /\ Put(r.k, Unit(r.s, r.v))
  \/ Op("add")   /\ Put(r.k, Plus(R[r.k], Unit(r.s, r.v)))
  \/ Op("sub")   /\ Put(r.k, Minus(R[r.k], Unit(r.s, r.v)))
  \/ Op("radd")  /\ Put(r.k, Plus(R[r.l], Unit(r.s, r.v)))
  \/ Op("ladd")  /\ Put(r.k, Plus(Unit(r.s, r.v), R[r.l]))
  \/ Op("rsub")  /\ Put(r.k, Minus(R[r.l], Unit(r.s, r.v)))
  \/ Op("lsub")  /\ Put(r.k, Minus(Unit(r.s, r.v), R[r.l]))
  \/ Op("rcmp")  /\ Everywhere(r.obs, <<Rel(R[r.k], Unit(r.s, r.v))>>) /\ See
  \/ Op("lcmp")  /\ Everywhere(r.obs, <<Rel(Unit(r.s, r.v), R[r.k])>>) /\ See
  \/ Op("mul")   /\ Put(r.k, Mul(r.v, R[r.k]))
  \/ Op("rmul")  /\ Put(r.k, Mul(r.v, R[r.l]))
  \/ Op("lmul")  /\ Put(r.k, Mul(r.v, R[r.l]))
  \/ Op("addr")  /\ Put(r.k, Plus(R[r.k], R[r.l]))
  \/ Op("subr")  /\ Put(r.k, Minus(R[r.k], R[r.l]))
  \/ Op("copy")  /\ Put(r.k, R[r.l])
  \/ Op("pos")   /\ Put(r.k, R[r.l])
  \/ Op("neg")   /\ Put(r.k, Neg(R[r.l]))
  \/ Op("sum")   /\ Put(r.k, Plus(R[r.l], R[r.m]))
  \/ Op("dif")   /\ Put(r.k, Minus(R[r.l], R[r.m]))
  \/ Op("cmp")   /\ Everywhere(r.obs, <<Rel(R[r.k], R[r.l])>>) /\ See
  \/ Op("show")  /\ Everywhere(r.obs, R[r.k]) /\ See
  \/ Op("dbl")   /\ LET d == Lead(R[r.k]) IN Everywhere(r.obs, d \o d \o d) /\ See
  \/ Op("fill")  /\ Fill(r.f, r.s, r.t, r.seed)
  \/ Op("loop")  /\ Loop(r.k, r.f, r.P)
  \/ Op("two")   /\ Two(r.k, r.l, r.f, r.h, r.P)
  \/ Op("flt")   /\ Floats(r.k, r.v, r.P)
  \/ Op("node")  /\ Nodes1(r.k, r.s, r.v)
  \/ Op("nodes") /\ Nodes2(r.k, r.l)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

------------------------------ MODULE SmallTrace ------------------------------
(* Trace validation for harness small. *)
EXTENDS SmallMachine, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ SInit
Op(o) == Trace[l].op = o
r == Trace[l]

TStep ==
  \/ Op("start") /\ SStart(Len(r.sz), r.np)
  \/ Op("qset") /\ QSet(r.P, r.k, <<r.a, r.b, r.c, r.d>>, r.how)
  \/ Op("qq")   /\ QQ(r.P, r.k, r.l, r.m, r.how)
  \/ Op("qs")   /\ QS(r.P, r.k, r.l, r.s, r.how)
  \/ Op("qnum") /\ QNum(r.obs, r.k, r.l, r.how)
  \/ Op("qsee") /\ QSee(r.obs, r.k)
  \/ Op("qmat") /\ QMat(r.obs, r.k, r.i, r.j)
  \/ Op("qpro") /\ QPro(r.P, r.k, r.l, r.m)
  \/ Op("qprj") /\ QPrj(r.P, r.k, r.s, r.i, r.j)
  \/ Op("qvec") /\ QVec(r.obs, r.k, r.x, r.y, r.z, r.v, r.side, r.i)
  \/ Op("qnor") /\ QNor(r.obs, r.P, r.k, r.l, r.s, r.i)
  \/ Op("qrnd") /\ Everywhere(r.obs, <<0>>) /\ See
  \/ Op("aset") /\ ASet(r.P, r.k, <<r.a, r.b, r.c>>, r.how)
  \/ Op("aa")   /\ AA(r.P, r.k, r.l, r.m, r.how)
  \/ Op("as")   /\ AS(r.P, r.k, r.l, r.s, r.how)
  \/ Op("anum") /\ ANum(r.obs, r.k, r.l, r.how)
  \/ Op("asee") /\ ASee(r.obs, r.k)
  \/ Op("pro")  /\ Pro(r.P, r.k, r.l, r.s)
  \/ Op("xpd")  /\ Xpd(r.P, r.k, r.l, r.s)
  \/ Op("con")  /\ Con(r.P, r.k, r.l, r.side, <<r.a, r.b, r.c, r.d>>)
  \/ Op("exp")  /\ Exp(r.obs, r.how, r.n, r.m, <<r.x, r.y, r.z>>)
  \/ Op("log")  /\ Log(r.obs, r.j, <<r.x, r.y, r.z>>)
  \/ Op("uset") /\ USet(r.P, r.k, r.n)
  \/ Op("uu")   /\ UU(r.P, r.k, r.l, r.m, r.how)
  \/ Op("unum") /\ UNum(r.obs, r.k, r.how, r.x, r.y)
  \/ Op("dir")  /\ Dirs(r.obs, r.d1, r.d2, r.i, r.c, r.m)
  \/ Op("par")  /\ Pars(r.obs, r.P)

TraceNext == l <= Len(Trace) /\ TStep /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

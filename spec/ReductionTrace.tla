--------------------------- MODULE ReductionTrace ---------------------------
(* Trace validation for harness red: what every rank sees of reductions.    *)
EXTENDS ReductionMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == /\ l = 1 /\ geo = NoGeometry /\ pv = <<>> /\ mixv = <<>> /\ ext = <<>> /\ off = FALSE
             /\ rd = <<>> /\ vd = <<>> /\ mm = <<>>
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED rvars

\* obs: one sequence per rank, rank 0 first
Ranks(obs, x, known) == \A b \in 1..Len(obs) : (b = 1 \/ known = "all") => obs[b] = x

Step ==
  \/ Is("start")  /\ Start(r.sz)
  \/ Is("assign") /\ Assign(r.k, r.v, "all")
  \/ Is("allred") /\ AllReduce(r.x)
  \/ Is("sum")    /\ SumLoop({<<r.k, Total(r.P, r.a, r.m, r.b)>>})
  \/ Is("sub")    /\ SumLoop({<<r.k, -Total(r.P, r.a, r.m, r.b)>>})
  \/ Is("cnd")    /\ SumLoop({<<r.k, SumC(r.P, r.a, r.m, r.b, geo.vol)>>})
  \/ Is("two")    /\ LET t == Total(r.P, r.a, r.m, r.b) IN SumLoop({<<r.k, t>>, <<r.l, -2 * t>>})
  \/ Is("fld")    /\ pv' = [pv EXCEPT ![r.k] = Plain(@.v + SumN(r.P, r.a, r.m, r.b, geo.vol), "all")]   \* a first loop clears off
                  /\ LoopDone /\ UNCHANGED <<geo, mixv, ext, rd, vd, mm>>
  \/ Is("mix")    /\ MixLoop(r.P, r.a, r.m, r.b)
  \/ Is("ext")    /\ ExtLoop(r.P, r.a, r.m, r.b)
  \/ Is("fsum")   /\ AssignLoop(r.k, Total(r.P, r.a, r.m, r.b), "all")
  \/ Is("fsumr")  /\ AssignLoop(r.k, Total(r.P, r.a, r.m, r.b), "root")
  \/ Is("prod")   /\ ProdLoop(r.k, r.P, r.m, r.r)
  \/ Is("fprod")  /\ AssignLoop(r.k, Prod(r.P, r.m, r.r, geo.vol), "all")
  \/ Is("nop")    /\ EmptyLoop
  \/ Is("show")   /\ Ranks(r.obs, <<pv[r.k].v>>, pv[r.k].known) /\ Obs
  \/ Is("showm")  /\ Ranks(r.obs, mixv.v, mixv.known) /\ Obs
  \/ Is("showx")  /\ Ranks(r.obs, <<ext.v>>, ext.known) /\ Obs
  \/ Is("rnew")   /\ RNew(r.k, r.v)
  \/ Is("rset")   /\ RSet(r.k, r.v)
  \/ Is("rmode")  /\ RMode(r.k, r.a, r.n, r.d)
  \/ Is("rloop")  /\ RLoop({<<r.k, Total(r.P, r.a, r.m, r.b)>>}, {})
  \/ Is("rtwo")   /\ LET t == Total(r.P, r.a, r.m, r.b) IN RLoop({<<r.k, t>>, <<r.l, -2 * t>>}, {})
  \/ Is("rsum")   /\ LET t == Total(r.P, r.a, r.m, r.b) IN RLoop({<<r.k, t>>}, {<<r.l, -2 * t>>})
  \/ Is("rstart") /\ RReduce(r.k)
  \/ Is("rred")   /\ RReduce(r.k)
  \/ Is("rval")   /\ RReduce(r.k) /\ Ranks(r.obs, <<rd'[r.k].v>>, rd'[r.k].known)
  \/ Is("vnew")   /\ VNew(r.k, r.n, r.v)
  \/ Is("vset")   /\ VSet(r.k, r.v)
  \/ Is("vzero")  /\ VSet(r.k, 0)
  \/ Is("vel")    /\ VQuiet(r.k) /\ VPut(r.k, [vd[r.k].el EXCEPT ![r.i + 1] = r.v])
  \/ Is("vmode")  /\ VMode(r.k, r.a, r.n, r.d)
  \/ Is("vloop")  /\ VLoop({<<r.k, VBins(r.k, r.P, r.a, r.m, r.b)>>}, {})
  \/ Is("vtwo")   /\ VLoop({<<r.k, VBins(r.k, r.P, r.a, r.m, r.b)>>, <<r.l, VBinsX(r.l, r.P, r.a, r.m, r.b)>>},
                           {<<0, Total(r.P, r.a, r.m, r.b)>>})
  \/ Is("vprod")  /\ VProd(r.k, VProds(r.k, r.P, r.m, r.r))
  \/ Is("vstart") /\ VStart(r.k)
  \/ Is("vred")   /\ VReduce(r.k)
  \/ Is("vwait")  /\ VWait(r.k)
  \/ Is("vpush")  /\ VQuiet(r.k) /\ VPut(r.k, Append(vd[r.k].el, r.v))
  \/ Is("vpop")   /\ VQuiet(r.k) /\ VPut(r.k, SubSeq(vd[r.k].el, 1, Len(vd[r.k].el) - 1))
  \/ Is("vsize")  /\ VQuiet(r.k) /\ VResize(r.k, r.n, r.v)
  \/ Is("vval")   /\ VQuiet(r.k) /\ Ranks(r.obs, vd[r.k].el, vd[r.k].known) /\ Obs
  \/ Is("mset")   /\ SetCodes(r.f, r.c)
  \/ Is("mm")     /\ (\A b \in 1..Len(r.obs) : r.obs[b] = r.obs[1])
                  /\ Extreme(r.f, r.P, r.x, r.obs[1][1])
                  /\ (r.loc # 0 => /\ r.obs[1][2] \in 0..(geo.vol - 1)
                                   /\ InPar(geo, r.P, r.obs[1][2] + 1)
                                   /\ mm[r.f][r.obs[1][2] + 1] = r.obs[1][1])
                  /\ off' = FALSE /\ UNCHANGED <<geo, pv, mixv, ext, rd, vd, mm>>

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

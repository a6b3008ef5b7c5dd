------------------------------ MODULE IoTrace ------------------------------
(* Trace validation for harness io. *)
EXTENDS IoMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
r == Trace[l]
Op(o) == r.op = o

Live ==
  \/ Op("set")    /\ Set(r.k, r.a, r.b)
  \/ Op("clear")  /\ Clear(r.k)
  \/ Op("dump")   /\ Dump(r.k, r.obs)
  \/ Op("nbr")    /\ Nbr(r.k, r.d, r.obs)
  \/ Op("write")  /\ Write(r.k, r.f)
  \/ Op("writet") /\ WriteText(r.k, r.f, r.p)
  \/ Op("read")   /\ Read(r.k, r.f, r.obs)
  \/ Op("wfields") /\ WriteFields(r.f, r.ks)
  \/ Op("rfields") /\ ReadFields(r.f, r.ks, r.obs)
  \/ Op("so")     /\ OpenOut(r.f)
  \/ Op("sw")     /\ PutField(r.k)
  \/ Op("swg")    /\ PutGauge(r.k)
  \/ Op("sws")    /\ PutBox(r.k, r.lo, r.hi, r.mode)
  \/ Op("sc")     /\ CloseOut
  \/ Op("ro")     /\ OpenIn(r.f, r.obs)
  \/ Op("rr")     /\ GetField(r.k)
  \/ Op("rin")    /\ GetSized(r.k, r.src)
  \/ Op("rg")     /\ GetGauge(r.k)
  \/ Op("rc")     /\ CloseIn(r.obs)
  \/ Op("gset")   /\ GSet(r.k, r.a, r.b)
  \/ Op("gneed")  /\ GNeed(r.k, r.a, r.b)
  \/ Op("gclear") /\ GClear(r.k)
  \/ Op("gdump")  /\ GDump(r.k, r.obs)
  \/ Op("gwrite") /\ GWrite(r.k, r.f)
  \/ Op("gread")  /\ GRead(r.k, r.f, r.obs)
  \/ Op("cwrite") /\ CWrite(r.k, r.f)
  \/ Op("cread")  /\ CRead(r.k, r.f, r.obs)
  \/ Op("sub")    /\ Sub(r.k, r.f, r.lo, r.hi, r.mode, r.p)
  \/ Op("slice")  /\ Slice(r.k, r.f, r.sl, r.mode, r.p)
  \/ Op("bytes")  /\ Bytes(r.f, r.obs)
  \/ Op("text")   /\ Text(r.f, r.obs)
  \/ Op("trunc")  /\ Truncate(r.f, r.n)
  \/ Op("poke")   /\ Poke(r.f, r.i, r.v)
  \/ Op("ren")    /\ Rename(r.f, r.g)
  \/ Op("del")    /\ Delete(r.f)
  \/ Op("blk")    /\ Block(r.v, r.obs)
  \/ Op("unb")    /\ Unblock
  \/ Op("ckpt")   /\ "disk" \notin DOMAIN r /\ Checkpoint(r.k, r.f, r.n, r.tr, r.keep = 1, r.obs)
  \/ Op("ckpt")   /\ "disk" \in DOMAIN r /\ Crash(r.k, r.f, r.n, r.tr, r.keep = 1, r.disk[1], r.disk[2], r.disk[3])
  \/ Op("rest")   /\ Restore(r.k, r.f, r.n, r.obs)
  \/ Op("status") /\ Status(r.obs)
  \/ Op("edit")   /\ Edit(r.n)
  \/ Op("dels")   /\ DeleteStatus
  \/ Op("seed")   /\ Seed
  \/ Op("draw")   /\ Draw(r.obs)

Step ==
  \/ Op("start")   /\ Start(r.t, r.sz, r.np)
  \/ Op("restart") /\ Restart(r.t, r.sz, r.np)
  \/ ~dead /\ Live

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<iovars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

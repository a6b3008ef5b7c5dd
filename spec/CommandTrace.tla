----------------------------- MODULE CommandTrace -----------------------------
(* Trace validation for harness cmd. *)
EXTENDS CommandMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Op(o) == Trace[l].op = o
r == Trace[l]
S == {r.on[i] : i \in DOMAIN r.on}

Step ==
  \/ Op("start")  /\ Start(r.np, r.words, r.user, r.files, r.nodirs)
  \/ Op("begin")  /\ (IF r.obs = <<>> THEN bad ELSE ~bad) /\ UNCHANGED cvars
  \/ Op("conf")   /\ Conf(S, r.obs)
  \/ Op("cwd")    /\ Cwd(S, r.obs)
  \/ Op("flag")   /\ Flag(S, r.f, r.obs)
  \/ Op("vals")   /\ Vs(S, r.f, r.obs)
  \/ Op("int")    /\ IntOf(S, r.f, r.i, r.obs)
  \/ Op("dbl")    /\ DecOf(S, r.f, r.i, r.obs)
  \/ Op("str")    /\ StrOf(S, r.f, r.i, r.obs)
  \/ Op("say")    /\ Say(S, r.k, r.obs)
  \/ Op("sayall") /\ SayAll(S, r.k, r.obs)
  \/ Op("write")  /\ Write(S, r.f, r.k, r.obs)
  \/ Op("inp")    /\ Input(S, r.f, r.key, r.obs)
  \/ Op("setup")  /\ Setup(S, r.sz, r.obs)
  \/ Op("bcast")  /\ Bcast(S, r.root, r.v, r.obs)
  \/ Op("sum")    /\ Sum(S, r.v, r.obs)
  \/ Op("send")   /\ Send(S, r.v, r.obs)
  \/ Op("field")  /\ FieldOp(S, r.d, r.v, r.obs)
  \/ Op("coll")   /\ Coll(S, r.d, r.v, r.obs)
  \/ Op("seed")   /\ Seed(S, r.obs)
  \/ Op("fin")    /\ Fin(S, r.obs)
  \/ Op("disk")   /\ Disk(r.obs)

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

----------------------------- MODULE SelectTrace -----------------------------
(* Trace validation for harness sel. *)
EXTENDS SelectMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED svars
S(k) == <<"s", k + 1>>
W(k) == <<"w", k + 1>>

Step ==
  \/ Is("start")  /\ Start(r.sz)
  \/ Is("own")    /\ Owned(r.obs)
  \/ Is("types")  /\ Types(r.v)
  \/ Is("vals")   /\ Values(r.a, r.m, r.b)
  \/ Is("snew")   /\ New(S(r.k), r.max, r.nj)
  \/ Is("wnew")   /\ New(W(r.k), r.max, r.nj)
  \/ Is("ssel")   /\ Select(S(r.k), r.P, r.f, r.c)
  \/ Is("wsel")   /\ Select(W(r.k), r.P, r.f, r.c)
  \/ Is("sel2")   /\ Select2(S(r.k), W(r.j), r.P, r.c)
  \/ Is("scopy")  /\ Copy(S(r.k), S(r.j))
  \/ Is("wcopy")  /\ Copy(W(r.k), W(r.j))
  \/ Is("sclear") /\ Clear(S(r.k))
  \/ Is("wclear") /\ Clear(W(r.k))
  \/ Is("sjoin")  /\ Join(S(r.k))
  \/ Is("wjoin")  /\ Join(W(r.k))
  \/ Is("sget")   /\ Get(S(r.k), r.obs) /\ Obs
  \/ Is("wget")   /\ Get(W(r.k), r.obs) /\ Obs
  \/ Is("smove")  /\ Moved(S(r.k), r.obs) /\ Put(S(r.k), None)
  \/ Is("find")   /\ FindType(r.v, r.obs)
  \/ Is("findl")  /\ FindLink(r.v, r.obs)
  \/ Is("clab")   /\ Labels(r.obs)
  \/ Is("citer")  /\ SizesOf(r.obs) /\ Obs
  \/ Is("carea")  /\ (IF r.i < Len(cl.list) THEN AreaOf(r.i, r.obs) ELSE r.obs = <<0>>) /\ Obs
  \/ Is("csites") /\ (IF r.i < Len(cl.list) THEN SitesOf(r.i, r.obs) ELSE r.obs = <<>>) /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

------------------------------ MODULE ComTrace ------------------------------
(* Trace validation for harness com. *)
EXTENDS ComMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED cvars
One == <<1>>

Step ==
  \/ Is("start") /\ Start(r.np)
  \/ Is("set")   /\ Set(r)
  \/ Is("get")   /\ Len(r.obs) = np /\ (\A q \in Ranks : reg[r.k][q] # Unknown => r.obs[q] = reg[r.k][q]) /\ Obs
  \/ Is("who")   /\ Each(r.obs, LAMBDA q : <<q - 1, np>>) /\ Obs
  \/ Is("bcs")   /\ Each(r.obs, LAMBDA q : <<reg[r.k][r.root + 1][1]>>) /\ BcastN(r.k, 1, r.root + 1)
  \/ Is("bcc")   /\ Has(r.k, 1) /\ Each(r.obs, LAMBDA q : <<reg[r.k][r.root + 1][1], reg[r.k][q][1]>>) /\ Obs
  \/ Is("bc0")   /\ BcastN(r.k, 1, 1)
  \/ Is("bcv")   /\ Each(r.obs, LAMBDA q : One) /\ BcastAll(r.k, r.root + 1)
  \/ Is("bca")   /\ Each(r.obs, LAMBDA q : One) /\ BcastN(r.k, r.n, r.root + 1)
  \/ Is("bcr")   /\ BcastN(r.k, 3, r.root + 1)
  \/ Is("bct")   /\ Each(r.obs, LAMBDA q : One) /\ BcastAll(r.k, r.root + 1)
  \/ Is("bcl")   /\ BcastList(r.m, r.d, r.root + 1, r.obs)
  \/ Is("bc2")   /\ Bcast2(r.k, r.j, r.root + 1)
  \/ Is("rsum")  /\ Sum(r.k, r.n, r.all)
  \/ Is("rsum1") /\ Returned(r.obs, r.k, r.all, Total) /\ Sum(r.k, 1, r.all)
  \/ Is("rsum0") /\ Sum(r.k, 1, 1)
  \/ Is("rprod") /\ Prod(r.k, r.n, r.all)
  \/ Is("rprod1") /\ Returned(r.obs, r.k, r.all, Product) /\ Prod(r.k, 1, r.all)
  \/ Is("ext")   /\ Sum(r.k, r.n, r.all)
  \/ Is("batch") /\ Batch(r.all, r.ks)
  \/ Is("send")  /\ Send(r.k, r.from + 1, r.to + 1, r.j)
  \/ Is("sendv") /\ SendVector(r.k, r.from + 1, r.to + 1, r.j)
  \/ Is("big")   /\ Each(r.obs, LAMBDA q : <<r.n + r.d * r.root, 0>>) /\ Obs
  \/ Is("ring")  /\ Each(r.obs, LAMBDA q : <<r.n + Left(q) - 1, 0>>) /\ Obs
  \/ (Is("sync") \/ Is("bar")) /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

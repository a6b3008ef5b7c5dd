------------------------------ MODULE RngTrace ------------------------------
(* Trace validation for harness rng. *)
EXTENDS RngMachine, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ Init
Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED rvars
RECURSIVE Prod(_, _)
Prod(q, i) == IF i = 0 THEN 1 ELSE q[i] * Prod(q, i - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

Loop(o, k, n) == /\ Count(r.obs, np) = n * k            \* every site draws its own
              /\ Draw(o, r.obs, -1)
Vol == Prod(sz, Len(sz))
\* sites of a parity: half of them when any size is even, else as given
Sites == IF r.p = 2 THEN Vol
         ELSE IF \E i \in DOMAIN sz : sz[i] % 2 = 0 THEN Vol \div 2
         ELSE IF r.p = 0 THEN (Vol + 1) \div 2 ELSE Vol \div 2

TStep ==
  \/ Is("start")   /\ Start(r.np, r.sz)
  \/ Is("restart") /\ Restart
  \/ Is("seed")    /\ Seed(r.s)
  \/ Is("is")      /\ r.obs = <<IF cur = 0 THEN 0 ELSE 1>> /\ Obs
  \/ Is("u")       /\ Draw(<<"u", r.n>>, r.obs, r.n)
  \/ Is("g")       /\ Draw(<<"g", r.n>>, r.obs, r.n)
  \/ Is("g2")      /\ Draw(<<"g2", r.n>>, r.obs, 2 * r.n)
  \/ Is("zc")      /\ Draw(<<"zc">>, r.obs, 7)
  \* without a seed the loops refuse to run
  \/ (Is("lu") \/ Is("lg")) /\ (IF cur = 0 THEN r.obs = <<>> /\ Obs ELSE Loop(<<r.op, r.p>>, 1, Sites))
  \/ (Is("lc") \/ Is("lgc")) /\ (IF cur = 0 THEN r.obs = <<>> /\ Obs ELSE Loop(<<r.op, r.p>>, 2, Sites))
  \/ Is("lv")      /\ (IF cur = 0 THEN r.obs = <<>> /\ Obs ELSE Loop(<<r.op, r.p>>, 3, Sites))
  \/ Is("lh")      /\ Loop(<<r.op>>, 1, (Vol \div sz[1]) * ((sz[1] + 1) \div 2))
  \/ Is("lf")      /\ Loop(<<r.op>>, 1, Vol)
  \/ Is("lfg")     /\ Loop(<<r.op>>, 2, Vol)
  \/ Is("sh")      /\ Shuffle(<<"sh", r.n>>, r.obs, r.n)
  \/ Is("sha")     /\ Shuffle(<<"sha">>, r.obs, 5)
  \/ Is("sdp")     /\ Common(<<"sdp">>, r.obs, 2 * nd)
  \/ Is("sd")      /\ Common(<<"sd">>, r.obs, nd)
  \/ Is("sp")      /\ Common(<<"sp">>, r.obs, 2)
  \/ Is("mass")    /\ cur # 0 /\ Len(r.obs) = np
                   /\ (\A q \in 1..np : r.obs[q][1] = 0 /\ \A i \in 2..11 : Near(r.obs[q][i], r.n, 100))
                   /\ Step(<<"mass", r.t, r.n>>, r.obs, <<>>)
  \/ Is("massg")   /\ cur # 0 /\ Len(r.obs) = np
                   /\ (\A q \in 1..np : /\ Near(r.obs[q][1], r.n, 383) /\ Near(r.obs[q][2], r.n, 683)
                                        /\ Near(r.obs[q][3], r.n, 954) /\ Near(r.obs[q][4], r.n, 500))
                   /\ Step(<<"massg", r.t, r.n>>, r.obs, <<>>)
  \/ Is("masss")   /\ cur # 0 /\ Len(r.obs) = np
                   /\ (\A q \in 1..np : Len(r.obs[q]) = r.n * r.n
                                        /\ \A i \in 1..(r.n * r.n) : Near(r.obs[q][i], r.k, 1000 \div r.n))
                   /\ Step(<<"masss", r.n, r.k>>, r.obs, <<>>)
  \* so many shuffles that every order turns up
  \/ Is("orders")  /\ cur # 0 /\ r.obs = <<Fact(nd), 2>>
                   /\ Step(<<"orders", r.k>>, r.obs, <<>>)

TraceNext == l <= Len(Trace) /\ TStep /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

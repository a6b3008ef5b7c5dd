----------------------------- MODULE FieldTrace -----------------------------
(* Trace validation: every line of the trace is one operation of a script executed by the real code *)
(* (harness fm), with what was observed; it must be an action of FieldMachine.                     *)
EXTENDS FieldMachine, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == l = 1 /\ geo = NoGeometry /\ val = [f \in Fields |-> <<>>] /\ bc = [f \in Fields |-> <<>>]

Is(o) == Trace[l].op = o
r == Trace[l]
Obs == UNCHANGED fmvars
Par == r.P

Step ==
  \/ Is("start")  /\ Start(r.sz)
  \/ Is("set")    /\ AssignConst(r.f, r.P, r.v)
  \/ Is("cset")   /\ AssignLinear(r.f, r.P, r.x, r.y)
  \/ Is("cp")     /\ AssignSeen(r.f, r.P, r.g, r.d)
  \/ Is("self")   /\ AssignSeen(r.f, r.P, r.f, r.d)
  \/ Is("two")    /\ AssignTwo(r.f, r.P, r.g, r.d, r.h, r.e, r.s)
  \/ Is("fix")    /\ AssignTwo(r.f, r.P, r.g, 1, r.g, -1, -1)
  \/ Is("star")   /\ AssignStar(r.f, r.P, r.g)
  \/ Is("add")    /\ AddSeen(r.f, r.P, r.g, r.d)
  \/ Is("cond")   /\ AssignIf(r.f, r.P, r.g, r.d, r.m, r.r)
  \/ Is("swp")    /\ SwapSites(r.f, r.P, r.g)
  \/ Is("gat")    /\ Communicate(r.f, r.d, r.P)
  \/ Is("gwait")  /\ Communicate(r.f, r.d, r.P)
  \/ Is("asgv")   /\ AssignConst(r.f, "A", r.v)
  \/ Is("copy")   /\ Copy(r.f, r.g)
  \/ Is("move")   /\ Move(r.f, r.g)
  \/ Is("swap")   /\ Swap(r.f, r.g)
  \/ Is("conv")   /\ Copy(r.f, r.g)
  \/ Is("clear")  /\ Clear(r.f)
  \/ Is("del")    /\ Clear(r.f)
  \/ Is("ctor")   /\ Construct(r.f, LAMBDA i : V(r.g, i))
  \/ Is("ctorm")  /\ ConstructMove(r.f, r.g)
  \/ Is("ctorv")  /\ Construct(r.f, LAMBDA i : r.v)
  \/ Is("plus")   /\ AssignTemp(r.f, LAMBDA i : Add(V(r.g, i), V(r.h, i)))
  \/ Is("neg")    /\ AssignTemp(r.f, LAMBDA i : Mul(-1, V(r.g, i)))
  \/ Is("pluseq") /\ AddSeen(r.f, "A", r.g, 0)
  \/ Is("mineq")  /\ AssignSites(r.f, "A", LAMBDA i : Add(V(r.f, i), Mul(-1, V(r.g, i))))
  \/ Is("setel")  /\ SetElement(r.f, r.s, r.v)
  \/ Is("setelb") /\ SetElement(r.f, r.s, r.v)
  \/ Is("addel")  /\ AddElement(r.f, r.s, r.v)
  \/ Is("subel")  /\ AddElement(r.f, r.s, -r.v)
  \/ Is("mulel")  /\ SetElement(r.f, r.s, Mul(r.k, V(r.f, r.s + 1)))
  \/ Is("cmpel")  /\ SetElement(r.f, r.s, V(r.f, r.s + 1))
  \/ Is("setels") /\ SetElements(r.f, r.ss, r.vs)
  \/ Is("setloc") /\ AssignLinear(r.f, "A", r.x, r.y)
  \/ Is("bc")     /\ SetBC(r.f, Abs(r.d), r.b)
  \/ Is("cpbc")   /\ CopyBC(r.f, r.g)
  \/ Is("shift")  /\ AssignTemp(r.f, LAMBDA i : SeenOff(r.g, i, r.u))
  \/ Is("shiftp") /\ ShiftTo(r.f, r.P, r.g, r.u)
  \/ Is("off")    /\ ShiftTo(r.f, r.P, r.g, r.u)
  \/ Is("off2")   /\ AssignSites(r.f, r.P, LAMBDA i : Add(SeenOff(r.g, i, r.u), Seen(r.g, i, r.d)))
  \/ Is("off3")   /\ AssignSites(r.f, r.P, LAMBDA i :
                        Add(Add(SeenOff(r.g, i, r.u), SeenOff(r.g, i, r.w)), Mul(-1, SeenOff(r.g, i, r.z))))
  \* a program that reads a field without values has to stop, any other goes on
  \/ Is("stopped") /\ val[r.g] = <<>> /\ Obs
  \/ Is("wenton")  /\ val[r.g] # <<>> /\ Obs
  \* observations
  \/ Is("dump")     /\ FieldIs(r.f, r.obs) /\ Obs
  \/ Is("getel")    /\ ElementsAre(r.f, <<r.s>>, r.obs) /\ Obs
  \/ Is("getelb")   /\ ElementsAre(r.f, <<r.s>>, r.obs) /\ Obs
  \/ Is("getels")   /\ ElementsAre(r.f, r.ss, r.obs) /\ Obs
  \/ Is("getsub")   /\ ElementsAre(r.f, Box(r.lo, r.hi), r.obs) /\ Obs
  \/ Is("getslice") /\ LET lo == [k \in 1..geo.nd |-> IF r.c[k] < 0 THEN 0 ELSE r.c[k]]
                           hi == [k \in 1..geo.nd |-> IF r.c[k] < 0 THEN geo.sz[k] - 1 ELSE r.c[k]]
                       IN ElementsAre(r.f, Box(lo, hi), r.obs) /\ Obs
  \* rank-local blocks, one per rank: <<site, value, site, value, ...>> in the order of the local box
  \/ Is("getloc")   /\ /\ \A b \in 1..Len(r.obs) :
                            LET q == r.obs[b] n == Len(q) \div 2
                            IN \A k \in 1..n : /\ q[2*k-1] \in 0..(geo.vol - 1)
                                               /\ Agrees(q[2*k], V(r.f, q[2*k-1] + 1))
                       /\ UNION {{r.obs[b][2*k-1] : k \in 1..(Len(r.obs[b]) \div 2)} : b \in 1..Len(r.obs)}
                            = 0..(geo.vol - 1)
                       /\ Obs
  \* rank-local boxes with one layer of neighbours around, periodic sites with the sign of the boundary
  \/ Is("gethalo")  /\ \A b \in 1..Len(r.obs) :
                         LET o == r.obs[b] IN
                         \A k \in 1..(Len(o) - 2 * geo.nd) :
                           LET ext(j) == o[geo.nd + j] + 2
                               RECURSIVE vol(_)
                               vol(j) == IF j = 0 THEN 1 ELSE vol(j - 1) * ext(j)
                               c == [j \in 1..geo.nd |-> (((k - 1) \div vol(j - 1)) % ext(j)) - 1 + o[j]]
                               i0 == [j \in 1..geo.nd |-> c[j]]
                           IN Agrees(o[2 * geo.nd + k], SeenOff(r.f, 1, i0))
                    /\ Obs
  \/ Is("getbc")    /\ r.obs = [j \in 1..(2 * geo.nd) |-> bc[r.f][(j + 1) \div 2]] /\ Obs
  \/ Is("init")     /\ \A q \in {0, 1} :
                          LET S == {i \in 1..geo.vol : geo.par[i] = q}
                              any == \E i \in S : V(r.f, i) # Undef
                          IN /\ any => r.obs[q + 1] = 1
                             /\ val[r.f] = <<>> => r.obs[q + 1] = 0
                    /\ (r.obs[3] = 1 <=> val[r.f] # <<>>)
                    /\ Obs
  \/ Is("eq")       /\ (r.obs[1] = 1 <=> \A i \in 1..geo.vol : V(r.f, i) = V(r.g, i)) /\ Obs
  \/ Is("sum")      /\ r.obs[1] = SumField(r.f, r.P, geo.vol) /\ Obs

TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_<<fmvars, l>>

TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN PrintT("TRACE_MATCHED " \o ToString(n)) /\ n = Len(Trace)
=============================================================================

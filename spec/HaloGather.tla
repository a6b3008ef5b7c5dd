---------------------------- MODULE HaloGather ----------------------------
(***************************************************************************)
(* The distributed algorithm behind neighbour reads: ranks on a ring, each    *)
(* running the same program of writes, gather starts and reads at its own     *)
(* speed; messages are delivered at any time once sent and posted; until then *)
(* the place they go to is undefined; the send buffer is read at delivery.    *)
(* Checked: a read sees the neighbour's values of this point of the program,   *)
(* nobody deadlocks, buffers in flight are not touched.                       *)
(*                                                                            *)
(* Sites of parity p carry the number of the last operation that wrote them.  *)
(***************************************************************************)
EXTENDS HaloStatus

CONSTANTS N, MaxOps, Fault   \* Fault: "none" or a deliberately broken variant (vacuity check)

Ranks == 0..(N - 1)
Src(r) == (r + 1) % N         \* whose values r needs
Dst(r) == (r + N - 1) % N     \* who needs r's values
Undefined == -1

VARIABLES prog,     \* the program, chosen while it runs
          pc, ph,   \* next operation, phase of it (0 begin, 1 started, waiting)
          st,       \* status
          own,      \* rank -> parity of site -> version
          halo,     \* rank -> reading parity -> version of the neighbour's sites, as stored here
          sbuf,     \* rank -> reading parity -> packed send buffer
          tag,      \* rank -> message tags used
          recvs,    \* posted receives: [rk, kind, tag]
          sends,    \* sends in flight: [rk, kind, tag]
          bad
vars == <<prog, pc, ph, st, own, halo, sbuf, tag, recvs, sends, bad>>

Parts(k) == IF k = "A" THEN {"E", "O"} ELSE {k}

Init ==
  /\ prog = <<>>
  /\ pc = [r \in Ranks |-> 1] /\ ph = [r \in Ranks |-> 0]
  /\ st = [r \in Ranks |-> Fresh]
  /\ own = [r \in Ranks |-> [E |-> 0, O |-> 0]]
  /\ halo = [r \in Ranks |-> [E |-> Undefined, O |-> Undefined]]
  /\ sbuf = [r \in Ranks |-> [E |-> Undefined, O |-> Undefined]]
  /\ tag = [r \in Ranks |-> 0]
  /\ recvs = {} /\ sends = {} /\ bad = {}

\* the program grows only when somebody has finished it
Extend ==
  /\ Len(prog) < MaxOps
  /\ \E r \in Ranks : pc[r] = Len(prog) + 1
  /\ \E o \in Ops : prog' = Append(prog, o)
  /\ UNCHANGED <<pc, ph, st, own, halo, sbuf, tag, recvs, sends, bad>>

Op(r) == prog[pc[r]]
Busy(r) == pc[r] <= Len(prog)

\* start_gather(q) on rank r: the tag counter advances whether or not anything is sent
StartNow(r, q) ==
  LET c == Check(st[r], q) IN
  /\ tag' = [tag EXCEPT ![r] = @ + 1]
  /\ IF c[1] # "GO"
     THEN UNCHANGED <<st, halo, sbuf, recvs, sends, bad>>
     ELSE LET k == c[2] IN
          /\ st' = [st EXCEPT ![r][k] = "S"]
          /\ halo' = [halo EXCEPT ![r] = [x \in {"E", "O"} |-> IF x \in Parts(k) THEN Undefined ELSE @[x]]]
          /\ sbuf' = [sbuf EXCEPT ![r] =
                        [x \in {"E", "O"} |-> IF x \in Parts(k) THEN own[r][Opp(x)] ELSE @[x]]]
          /\ recvs' = recvs \cup {[rk |-> r, kind |-> k, tag |-> tag[r]]}
          /\ sends' = sends \cup {[rk |-> r, kind |-> k, tag |-> tag[r]]}
          /\ bad' = bad \cup
               (IF \E s \in sends : s.rk = r /\ Parts(s.kind) \cap Parts(k) # {} THEN {"send buffer reused"} ELSE {})
               \cup
               (IF \E s \in recvs : s.rk = r /\ Parts(s.kind) \cap Parts(k) # {} THEN {"receive posted twice"} ELSE {})

Pending(r, ks) == \/ \E m \in recvs : m.rk = r /\ m.kind \in ks
                  \/ \E m \in sends : m.rk = r /\ m.kind \in ks

Begin(r) ==
  /\ Busy(r) /\ ph[r] = 0
  /\ CASE Op(r)[1] = "S" -> StartNow(r, Op(r)[2]) /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<ph, own>>
       [] Op(r)[1] = "R" -> StartNow(r, Op(r)[2]) /\ ph' = [ph EXCEPT ![r] = 1] /\ UNCHANGED <<pc, own>>
       [] Op(r)[1] = "W" ->
            LET p == Op(r)[2]
                drop == CASE Fault = "nodrop" -> {}
                          [] Fault = "dropsame" /\ p # "A" -> {k \in {"A", p} : st[r][k] = "S"}
                          [] OTHER -> DropSet(st[r], p)
            IN /\ ~Pending(r, drop)
               /\ st' = [st EXCEPT ![r] = IF Fault = "keepall" /\ p # "A" THEN [@ EXCEPT ![Opp(p)] = "N"]
                                          ELSE Changed(@, p)]
               /\ own' = [own EXCEPT ![r] = [x \in {"E", "O"} |-> IF x \in Parts(p) THEN pc[r] ELSE @[x]]]
               /\ pc' = [pc EXCEPT ![r] = @ + 1]
               /\ UNCHANGED <<ph, halo, sbuf, tag, recvs, sends, bad>>
  /\ UNCHANGED prog

\* version of parity p at point n of the program
RECURSIVE Version(_, _)
Version(p, n) ==
  IF n = 0 THEN 0
  ELSE IF prog[n][1] = "W" /\ prog[n][2] \in {"A", p} THEN n ELSE Version(p, n - 1)

Finish(r) ==
  /\ Busy(r) /\ ph[r] = 1
  /\ LET q == Op(r)[2] IN
     /\ ~Pending(r, Resolve(st[r], q)) \/ Fault = "nowait"
     /\ st' = [st EXCEPT ![r] = Waited(@, q)]
     /\ bad' = bad \cup (IF \E x \in Parts(q) : halo[r][x] # Version(Opp(x), pc[r] - 1)
                         THEN {"wrong value read"} ELSE {})
  /\ ph' = [ph EXCEPT ![r] = 0] /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<prog, own, halo, sbuf, tag, recvs, sends>>

Deliver ==
  \E m \in recvs, s \in sends :
    /\ s.rk = Src(m.rk) /\ s.tag = m.tag
    /\ recvs' = recvs \ {m} /\ sends' = sends \ {s}
    /\ halo' = [halo EXCEPT ![m.rk] = [x \in {"E", "O"} |-> IF x \in Parts(m.kind) THEN sbuf[s.rk][x] ELSE @[x]]]
    /\ bad' = bad \cup (IF s.kind # m.kind THEN {"different messages matched"} ELSE {})
    /\ UNCHANGED <<prog, pc, ph, st, own, sbuf, tag>>

Next == Extend \/ Deliver \/ \E r \in Ranks : Begin(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars

Correct == bad = {}
\* whatever is marked as gathered is the neighbour's current value
StatusHonest ==
  \A r \in Ranks : ph[r] = 0 =>
    \A x \in {"E", "O"} : Gathered(st[r], x) => halo[r][x] = Version(Opp(x), pc[r] - 1)
NoDeadlock ==
  (\E r \in Ranks : Busy(r)) =>
     \/ \E m \in recvs, s \in sends : s.rk = Src(m.rk) /\ s.tag = m.tag
     \/ \E r \in Ranks : Busy(r) /\ (ph[r] = 0 => (Op(r)[1] = "W" => ~Pending(r, DropSet(st[r], Op(r)[2]))))
                                 /\ (ph[r] = 1 => ~Pending(r, Resolve(st[r], Op(r)[2])))
=============================================================================

---------------------------- MODULE TimeMachine ----------------------------
(***************************************************************************)
(* The time limit of a run.  Times are in quarters of a second since the     *)
(* start of the program.                                                     *)
(*   now     the time                                                        *)
(*   limit   0: none                                                         *)
(*   seen    the times at which it was asked whether to finish; 0 counts     *)
(*   sigs    ranks which received the signal to finish                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES np, now, limit, seen, sigs, ended
tvars == <<np, now, limit, seen, sigs, ended>>

Margin == 4 * 120
TInit == np = 1 /\ now = 0 /\ limit = 0 /\ seen = <<0>> /\ sigs = {} /\ ended = FALSE

(* ---- strings: s, m:s, h:m:s, d-h:m:s; blanks before it ---- *)
Digit(c) == c \in 48..57
RECURSIVE Strip(_)
Strip(w) == IF w # <<>> /\ w[1] = 32 THEN Strip(Tail(w)) ELSE w
Seps(w) == SelectSeq(w, LAMBDA c : ~Digit(c))
IsTime(w) == /\ w # <<>>
             /\ Seps(w) \in {<<>>, <<58>>, <<58, 58>>, <<45, 58, 58>>}
             /\ Digit(w[1]) /\ Digit(w[Len(w)])
             /\ \A i \in 1..(Len(w) - 1) : Digit(w[i]) \/ Digit(w[i + 1])
RECURSIVE Nums(_, _)
\* the numbers between the separators
Nums(w, cur) == IF w = <<>> THEN <<cur>>
                ELSE IF Digit(w[1]) THEN Nums(Tail(w), (cur * 10) + (w[1] - 48))
                ELSE <<cur>> \o Nums(Tail(w), 0)
Unit == <<1, 60, 3600, 86400>>
RECURSIVE Secs(_)
Secs(q) == IF q = <<>> THEN 0 ELSE (Head(q) * Unit[Len(q)]) + Secs(Tail(q))
Seconds(w) == Secs(Nums(w, 0))

(* ---- actions ---- *)
Advance(d) == now' = now + d /\ UNCHANGED <<np, limit, seen, sigs, ended>>
SetLimit(q) == limit' = q /\ UNCHANGED <<np, now, seen, sigs, ended>>
LimitText(w, obs) ==
  LET t == Strip(w)
  IN /\ ended' = ~IsTime(t)
     /\ obs = IF IsTime(t) THEN <<1>> ELSE <<>>
     /\ limit' = IF IsTime(t) THEN 4 * Seconds(t) ELSE limit
     /\ UNCHANGED <<np, now, seen, sigs>>
Signal(r) ==
  /\ sigs' = sigs \cup (IF r < 0 THEN 0..(np - 1) ELSE {r})
  /\ UNCHANGED <<np, now, limit, seen, ended>>

Intervals(s) == {s[i + 1] - s[i] : i \in 1..(Len(s) - 1)}
Longest(s) == CHOOSE x \in Intervals(s) : \A y \in Intervals(s) : y <= x
\* the signal has to reach rank 0
Finish == \/ 0 \in sigs
          \/ limit > 0 /\ limit - now < Longest(Append(seen, now)) + Margin
Ask == seen' = Append(seen, now) /\ UNCHANGED <<np, now, limit, sigs, ended>>
=============================================================================

------------------------------ MODULE TimeMC ------------------------------
(***************************************************************************)
(* The algorithm of the time check, which keeps two numbers on rank 0 and    *)
(* broadcasts the answer, against the definition by the whole history of     *)
(* checks in TimeMachine, for all histories of at most MaxSteps steps.       *)
(***************************************************************************)
EXTENDS TimeMachine, TLC
CONSTANTS MaxSteps, Limits, Steps
VARIABLES previous, longest, answer, right, n
mvars == <<tvars, previous, longest, answer, right, n>>

MInit == /\ np = 2 /\ now = 0 /\ limit = 0 /\ seen = <<0>> /\ sigs = {} /\ ended = FALSE
         /\ previous = 0 /\ longest = 0 /\ answer = <<FALSE, FALSE>> /\ right = FALSE /\ n = 0

Check ==
  LET d == now - previous
      l == IF d > longest THEN d ELSE longest
      a == 0 \in sigs \/ (limit > 0 /\ limit - now < l + Margin)
  IN /\ longest' = l /\ previous' = now
     /\ answer' = [r \in 1..2 |-> a] /\ right' = Finish
     /\ Ask
Other == /\ \/ \E d \in Steps : Advance(d)
            \/ \E q \in Limits : SetLimit(q)
            \/ \E r \in {-1, 0, 1} : Signal(r)
         /\ UNCHANGED <<previous, longest, answer, right>>
MNext == n < MaxSteps /\ n' = n + 1 /\ (Check \/ Other)
MSpec == MInit /\ [][MNext]_mvars

Agree == \A r \in 1..2 : answer[r] = right
\* once the end is near it stays so, unless the limit is changed
Stays == [][(right /\ limit' = limit) => right']_mvars
=============================================================================

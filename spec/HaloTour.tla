----------------------------- MODULE HaloTour -----------------------------
(* Enumerates, for the replay on the real code, the transitions of the gather bookkeeping: a shortest    *)
(* history reaching every status and every operation in it; with Full, every program of up to MaxOps.    *)
EXTENDS HaloStatus
CONSTANTS MaxOps, Full
VARIABLES s, h
Init == s = Fresh /\ h = <<>>
Next == \E o \in Ops :
          /\ Len(h) < MaxOps
          /\ s' = After(s, o) /\ h' = Append(h, o)
          /\ PrintT(<<"TOUR", h'>>)
View == IF Full THEN <<s, h>> ELSE <<s, <<>>>>
=============================================================================

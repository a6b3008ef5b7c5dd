--------------------------- MODULE ReductionRanks ---------------------------
(***************************************************************************)
(* How the ranks keep one Reduction variable (reduction.h), or one element  *)
(* of a ReductionVector: every rank has a value; only rank 1 (rank 0 of     *)
(* MPI) carries what was reduced before; delayed contributions stay on the  *)
(* ranks until a reduction; a non-blocking reduction lands when waited for. *)
(* tot is what the property says the value is.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* ranks
          MaxOps,
          Fault     \* "none", or a wrong implementation
VARIABLES val, res, comm, delay, allr, nb, del, tot, known, n, h
vars == <<val, res, comm, delay, allr, nb, del, tot, known, n, h>>
Ranks == 1..N
Garbage == -999999

Init == /\ val = [r \in Ranks |-> 0] /\ res = [r \in Ranks |-> 0] /\ comm = FALSE /\ delay = FALSE
        /\ allr = TRUE /\ nb = FALSE /\ del = FALSE /\ tot = 0 /\ known = "all" /\ n = 0 /\ h = <<>>

RECURSIVE Sum(_, _)
Sum(v, k) == IF k = 0 THEN 0 ELSE v[k] + Sum(v, k - 1)
Share(r) == r            \* what rank r contributes in a loop

\* values after waiting for the communication under way
Landed == IF comm /\ Fault # "nowait" THEN res ELSE val
\* the reduction of values v: what every rank has when it is complete
Reduced(v) == [r \in Ranks |-> IF r = 1 \/ allr THEN Sum(v, N) ELSE v[r]]
Begin(v) ==      \* do_reduce_operation
  IF nb THEN /\ comm' = TRUE /\ res' = Reduced(v) /\ val' = [r \in Ranks |-> Garbage]
        ELSE /\ comm' = FALSE /\ val' = Reduced(v) /\ UNCHANGED res

Log(o) == n < MaxOps /\ n' = n + 1 /\ h' = Append(h, o)
Mode == UNCHANGED <<allr, nb, del>>
Now == IF allr THEN "all" ELSE "root"

Set ==
  /\ Log("set") /\ Mode
  /\ val' = [r \in Ranks |-> 7] /\ comm' = FALSE /\ UNCHANGED res
  /\ delay' = IF Fault = "setkeeps" THEN delay ELSE FALSE
  /\ tot' = 7 /\ known' = "all"
Loop ==
  LET b == Landed
      keep(r) == r = 1 \/ (IF Fault = "addall" THEN del ELSE delay)
      v == [r \in Ranks |-> (IF keep(r) THEN b[r] ELSE 0) + Share(r)]
  IN /\ Log("loop") /\ Mode
     /\ tot' = tot + Sum([r \in Ranks |-> Share(r)], N)
     /\ IF del THEN /\ val' = v /\ delay' = TRUE /\ comm' = FALSE /\ UNCHANGED res /\ known' = known
               ELSE /\ Begin(v) /\ delay' = (IF Fault = "keepdelay" THEN delay ELSE FALSE) /\ known' = Now
StartUp(o) ==
  /\ Log(o) /\ Mode
  /\ IF delay /\ ~comm THEN Begin(val) /\ delay' = FALSE /\ known' = Now
                       ELSE UNCHANGED <<val, res, comm, delay, known>>
  /\ UNCHANGED tot
Reduce ==       \* also value()
  /\ Log("red") /\ Mode
  /\ IF delay /\ ~comm THEN val' = Reduced(val) /\ known' = Now ELSE val' = Landed /\ known' = known
  /\ comm' = FALSE /\ delay' = (IF comm THEN delay ELSE FALSE) /\ UNCHANGED <<res, tot>>
SetMode(a, b, d) ==
  /\ <<a, b, d>> # <<allr, nb, del>>
  /\ Log("m" \o (IF a THEN "1" ELSE "0") \o (IF b THEN "1" ELSE "0") \o (IF d THEN "1" ELSE "0"))
  /\ allr' = a /\ nb' = b /\ del' = d
  /\ UNCHANGED <<val, res, comm, delay, tot, known>>

Next == Set \/ Loop \/ StartUp("start") \/ Reduce \/ \E a, b, d \in BOOLEAN : SetMode(a, b, d)
Spec == Init /\ [][Next]_vars

\* with nothing pending and nothing under way the value is there
Right == (~comm /\ ~delay) => /\ val[1] = tot
                              /\ known = "all" => \A r \in Ranks : val[r] = tot
\* both never hold: start_reduce and reduce look at one of them only
Exclusive == ~(comm /\ delay)

\* enumeration for replay: every transition of the abstract status with a shortest history
Concrete == <<val, res, comm, delay, allr, nb, del, tot, known, n>>
Abstract == <<comm, delay, allr, nb, del, known>>
NextTour == Next /\ PrintT(<<"TOUR", h'>>)
=============================================================================

---------------------------- MODULE HaloStatus ----------------------------
(***************************************************************************)
(* The bookkeeping of neighbour gathers of one Field in one direction, as   *)
(* kept by every rank (field_comm.h).  A gather for parity q ("E","O","A")   *)
(* fetches what loops over sites of parity q read from their neighbours: on  *)
(* lattices of even size these are neighbour sites of the opposite parity.   *)
(*                                                                           *)
(* A status is a record of "N" (not done), "S" (started), "D" (done) for     *)
(* the three kinds of gathers.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"E", "O", "A"}
Opp(q) == CASE q = "E" -> "O" [] q = "O" -> "E" [] OTHER -> "A"
Fresh == [E |-> "N", O |-> "N", A |-> "N"]

Gathered(s, q) == s[q] = "D" \/ s["A"] = "D" \/ (q = "A" /\ s["E"] = "D" /\ s["O"] = "D")

\* what start_gather(q) does: <<"DONE">>, <<"STARTED">> or <<"GO", par>>
Check(s, q) ==
  IF Gathered(s, q) THEN <<"DONE">>
  ELSE IF s[q] # "N" \/ s["A"] # "N" THEN <<"STARTED">>
  ELSE IF q = "A" /\ s["E"] # "N" /\ s["O"] # "N" THEN <<"STARTED">>
  ELSE IF q = "A" /\ s["E"] # "N" THEN <<"GO", "O">>
  ELSE IF q = "A" /\ s["O"] # "N" THEN <<"GO", "E">>
  ELSE <<"GO", q>>

\* the gathers that waiting for q has to wait for
Resolve(s, q) ==
  IF Gathered(s, q) THEN {}
  ELSE IF q # "A" /\ s["A"] = "S" THEN {"A"}
  ELSE IF s[q] = "S" THEN {q}
  ELSE {k \in {"E", "O"} : s[k] = "S"}

Started(s, q) == IF Check(s, q)[1] = "GO" THEN [s EXCEPT ![Check(s, q)[2]] = "S"] ELSE s
Waited(s, q) == [k \in Kinds |-> IF k \in Resolve(s, q) THEN "D" ELSE s[k]]

\* sites of parity p ("E","O","A") change: which gathers must be finished first, and the status afterwards
DropSet(s, p) ==
  IF p = "A" THEN {k \in Kinds : s[k] = "S"}
  ELSE {k \in {"A", Opp(p)} : s[k] = "S"}
Changed(s, p) ==
  IF p = "A" THEN Fresh ELSE [s EXCEPT !["A"] = "N", ![Opp(p)] = "N"]

Ops == {<<o, q>> : o \in {"W", "S", "R"}, q \in Kinds}
\* status after an operation: Write, Start, Read (start, wait, use)
After(s, op) ==
  CASE op[1] = "W" -> Changed(s, op[2])
    [] op[1] = "S" -> Started(s, op[2])
    [] op[1] = "R" -> Waited(Started(s, op[2]), op[2])
=============================================================================

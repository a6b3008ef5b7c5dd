------------------------------ MODULE LoopRules ------------------------------
(* Which site loops have a meaning.  A loop runs over the sites in any order and on any number of ranks, so   *)
(* it must not matter what other sites have done: hilapp has to refuse a loop where it would, and must not     *)
(* refuse one where it does not.  A loop is a sequence of statements; the state is what they did so far.       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES st
NoLoop == [on |-> FALSE]
LInit == st = NoLoop
\* P: parity "E", "O", "A" or "V" (a variable, one parity at a time); safe: fields declared not to matter
Begin(P, safe) ==
  /\ st' = [on |-> TRUE, P |-> P, safe |-> {safe[i] : i \in 1..Len(safe)},
            wr |-> {},      \* fields written
            rd |-> {},      \* fields read at neighbouring sites
            acc |-> {},     \* variables and elements from outside the loop: <<name, kind of access>>
            loc |-> {},     \* local variables
            bad |-> FALSE]

(* ---- what is read: a sequence of terms ---- *)
\* F field, E variable from outside, L local variable, A element of an array from outside, W element of one that
\* depends on the site, R reduction variable,
\* V element of a reduction vector, N random number, P parity or coordinate of the site, C constant
Near == {"up", "dn", "var", "mvar", "ldir"}      \* a neighbour in a constant, variable or local direction
Far == {"cv"}                                    \* any other offset, read before the loop
Never == {"lcv"}                                 \* an offset which is not known before the loop
RdOf(R) == {R[i].n : i \in {j \in 1..Len(R) : R[j].k = "F" /\ R[j].o \in Near}}
WrOf(R) == {R[i].n : i \in {j \in 1..Len(R) : R[j].k = "F" /\ R[j].fn = "bump"}}
AccOf(R) == {<<R[i].n, "read">> : i \in {j \in 1..Len(R) : R[j].k \in {"E", "A", "R", "V"}}}
            \cup {<<R[i].n, "whole">> : i \in {j \in 1..Len(R) : R[j].k = "W"}}
\* functions called from loops must depend on their arguments only, and change no other than those of this site
BadFn == {"useglob", "static", "usefield"}
BadTerm(t) ==
  \/ t.k = "F" /\ t.o \in Never
  \/ t.k = "F" /\ t.fn = "bump" /\ t.o # "here"
  \/ t.fn \in BadFn
  \/ t.k = "E" /\ t.fn = "bump"
  \/ t.k \in {"bare", "par", "addr"}
BadIn(R) == \E i \in 1..Len(R) : BadTerm(R[i])
Reads(s, R) == [s EXCEPT !.rd = @ \cup RdOf(R), !.wr = @ \cup WrOf(R), !.acc = @ \cup AccOf(R), !.bad = @ \/ BadIn(R)]

(* ---- statements ---- *)
\* a field is given a value at this site; at any other it is refused
PutField(f, o, R) == st' = [Reads(st, R) EXCEPT !.wr = @ \cup {f}, !.bad = @ \/ o # "here"]
Local(n, kind, R) == st' = [Reads(st, R) EXCEPT !.loc = @ \cup {n}, !.bad = @ \/ kind \notin {"dbl", "int", "dir", "cv", "arr"}]
SetLocal(n, R) == n \in st.loc /\ st' = Reads(st, R)
\* a variable from outside, or an element of the array b
Outer(n, b, how, R) == st' = [Reads(st, R) EXCEPT !.acc = @ \cup {<<n, how>>} \cup IF b = "" \/ b = "rv" THEN {} ELSE {<<b, "part">>}]
\* a reference to something: to change it, or not
Ref(kind, what, n, o) ==
  st' = CASE what = "F" /\ kind = "mut" -> [st EXCEPT !.wr = @ \cup {n}, !.bad = @ \/ o # "here"]
          [] what = "F" -> Reads(st, <<[k |-> "F", n |-> n, o |-> o, fn |-> "none"]>>)
          [] what = "E" /\ kind = "mut" -> [st EXCEPT !.bad = TRUE]
          [] what = "E" -> [st EXCEPT !.acc = @ \cup {<<n, "read">>}]
          [] OTHER -> st
\* things that cannot be done in a loop at all
Never1(what) == st' = [st EXCEPT !.bad = TRUE]
\* things that can
Always(what) == st' = st
Cond(R) == st' = Reads(st, R)

Names == {a[1] : a \in st.acc}
Kinds(n) == {a[2] : a \in {b \in st.acc : b[1] = n}}
Refused ==
  \/ st.bad
  \* a field is changed at some sites while others read it from there
  \/ st.P = "A" /\ ((st.wr \cap st.rd) \ st.safe) # {}
  \* a variable is more than read, or more than summed or multiplied up
  \/ \E n \in Names : Kinds(n) \notin {{"read"}, {"+="}, {"*="}, {"whole"}, {"part"}}
End(accepted) == accepted = (IF Refused THEN 0 ELSE 1) /\ st' = NoLoop
=============================================================================

----------------------------- MODULE ExtendedMC -----------------------------
(* The algorithm of datatypes/extended.h: a sum kept as three floating point numbers (value, compensation     *)
(* and compensation of the compensation), here with p bits each and round to nearest even.  For numbers as    *)
(* in ExtendedMachine, nothing is lost.  Fault: "one" leaves out the second compensation, "order" does not     *)
(* compare sizes, "first" adds the leading part of another sum first.                                         *)
EXTENDS Integers, Sequences, TLC

CONSTANTS P,      \* bits
          Gap,    \* ratio of scales: 2^Gap
          Max,    \* largest number of units of each scale
          Depth,
          Fault

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* smallest step of numbers as large as x
RECURSIVE Step(_)
Step(x) == IF x < Pow(P) THEN 1 ELSE 2 * Step(x \div 2)
Rnd(x) ==
  LET a == Abs(x)
      u == Step(a)
      q == a \div u
      r == a % u
      m == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q
  IN IF x < 0 THEN -(m * u) ELSE m * u
Fl(x, y) == Rnd(x + y)

\* the rounding error of a + b
Err(a, b) ==
  LET t == Fl(a, b)
  IN IF Abs(a) >= Abs(b) \/ Fault = "order" THEN Fl(Fl(a, -t), b) ELSE Fl(Fl(b, -t), a)
AddTo(e, x) ==
  LET c == Err(e[1], x)
      cc == Err(e[2], c)
  IN <<Fl(e[1], x), Fl(e[2], c), IF Fault = "one" THEN e[3] ELSE Fl(e[3], cc)>>
AddExt(e, f) == IF Fault = "first" THEN AddTo(AddTo(<<Fl(e[1], f[1]), e[2], e[3]>>, f[2]), f[3])
                ELSE AddTo(AddTo(AddTo(e, f[3]), f[2]), f[1])
Exact(e) == e[1] + e[2] + e[3]

VARIABLES e,    \* two sums
          t,    \* what they are
          n
vars == <<e, t, n>>

Numbers == {k * Pow(s * Gap) : k \in -Max..Max, s \in 0..2} \ {0}
Init == e = <<<<0, 0, 0>>, <<0, 0, 0>>>> /\ t = <<0, 0>> /\ n = 0
Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ \E k \in 1..2 :
       \/ \E x \in Numbers : e' = [e EXCEPT ![k] = AddTo(@, x)] /\ t' = [t EXCEPT ![k] = @ + x]
       \/ \E j \in 1..2 : /\ e' = [e EXCEPT ![k] = AddExt(@, e[j])]
                          /\ t' = [t EXCEPT ![k] = @ + t[j]]
       \/ \E j \in 1..2 : /\ e' = [e EXCEPT ![k] = AddExt(@, <<-e[j][1], -e[j][2], -e[j][3]>>)]
                          /\ t' = [t EXCEPT ![k] = @ - t[j]]
Spec == Init /\ [][Next]_vars
\* nothing is lost
Faithful == \A k \in 1..2 : Exact(e[k]) = t[k]
\* sign of the sum of the parts, as a double, is that of the number
Signs == \A k \in 1..2 : LET d == Fl(Fl(e[k][1], e[k][2]), e[k][3]) IN (d > 0 <=> t[k] > 0) /\ (d < 0 <=> t[k] < 0)
=============================================================================

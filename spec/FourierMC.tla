------------------------------ MODULE FourierMC ------------------------------
(* The algebra FourierMachine uses, against repeated sums: g is the field transformed step by step with   *)
(* the definition of the transform, f the form of FourierMachine.                                        *)
EXTENDS FourierMachine
CONSTANTS K, DEPTH
SIZE == <<<<3, 2>>, <<4, 3>>, <<5>>, <<8>>, <<2, 2, 3>>, <<6, 5>>>>[K]
VARIABLES f, g, n
mvars == <<fvars, f, g, n>>

Form0 == [set |-> TRUE, base |-> [s \in 1..V |-> <<Val(s - 1, 0, 3), Val(s - 1, 1, 3)>>], sg |-> [d \in 1..ND |-> 0], sc |-> 1, ex |-> TRUE]
\* one direction, in hundredths
OneDir(h, d, sign) ==
  [s \in 1..V |->
     FoldLeft(LAMBDA a, y : LET x == Index([co[s] EXCEPT ![d] = y])
                                p == ((sign * co[s][d] * y) % sz[d]) + 1
                                c == CosT[sz[d]][p] \div 1000
                                e == SinT[sz[d]][p] \div 1000
                            IN <<a[1] + (h[x][1] * c) + (h[x][2] * e), a[2] + (h[x][2] * c) - (h[x][1] * e)>>,
              <<0, 0>>, [y \in 1..sz[d] |-> y - 1])]
Div(h) == [s \in 1..V |-> <<h[s][1] \div 1000, h[s][2] \div 1000>>]
RECURSIVE Direct(_, _, _, _)
Direct(h, D, sign, d) == IF d > ND THEN h ELSE Direct(IF D[d] = 1 THEN Div(OneDir(h, d, sign)) ELSE h, D, sign, d + 1)
Start0 == /\ sz = SIZE /\ co = Sites(SIZE) /\ slots = [k \in {} |-> None] /\ n = 0
          /\ f = Form0
          /\ g = [s \in 1..V |-> <<100 * Val(s - 1, 0, 3), 100 * Val(s - 1, 1, 3)>>]
Dirs == [1..Len(SIZE) -> {0, 1}]
Next ==
  /\ n < DEPTH /\ n' = n + 1 /\ UNCHANGED fvars
  /\ \E D \in Dirs :
       \/ \E s \in {1, -1} : f' = Transformed(f, D, s) /\ g' = Direct(g, D, s, 1)
       \/ f' = [f EXCEPT !.base = Reflected(@, D)] /\ g' = Reflected(g, D)
Spec == Start0 /\ [][Next]_mvars

Tol == 2 * V * f.sc
Value(s) == LET N == Order(f) IN IF Plain(f) THEN <<100 * f.sc * f.base[s][1], 100 * f.sc * f.base[s][2]>>
                                ELSE LET S == Sum(f, N, s, 1) IN <<f.sc * (S[1] \div 10000), f.sc * (S[2] \div 10000)>>
Agree == \A s \in 1..V : /\ Abs(Value(s)[1] - g[s][1]) <= Tol
                         /\ Abs(Value(s)[2] - g[s][2]) <= Tol
\* reflection twice is nothing, and symmetric fields have real transforms
Involution == \A D \in Dirs : Reflected(Reflected(f.base, D), D) = f.base
RealTransform ==
  ((\A d \in 1..ND : sz[d] % 2 = 0) /\ n = 0) =>
     LET h == Transformed([f EXCEPT !.base = Symmetric(@)], Ones, 1)
     IN \A s \in 1..V : Abs(Sum(h, Order(h), s, 1)[2]) <= 10 * V
\* the tables
ASSUME \A N \in Orders : \A a \in 0..(N - 1) :
         /\ CosT[N][a + 1] = CosT[N][((N - a) % N) + 1]
         /\ SinT[N][a + 1] = -SinT[N][((N - a) % N) + 1]
         /\ \A b \in {1, 2, N \div 2} : b < N =>
              Abs(((CosT[N][a + 1] \div 100) * (CosT[N][b + 1] \div 100)) - ((SinT[N][a + 1] \div 100) * (SinT[N][b + 1] \div 100))
                  - (100 * CosT[N][((a + b) % N) + 1])) <= 60000
=============================================================================

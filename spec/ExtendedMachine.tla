--------------------------- MODULE ExtendedMachine ---------------------------
(* Extended precision numbers (datatypes/extended.h): registers hold exact numbers.  A number is            *)
(* a 2^100 + b 2^50 + c in some unit, with small a, b, c, written <<a, b, c>>; what is lost when such         *)
(* numbers are added as doubles is everything but the leading part.  All ranks hold the same numbers.        *)
EXTENDS Lattice, SequencesExt

VARIABLES g,      \* geometry
          np,     \* number of ranks
          R,      \* registers
          fl      \* fields of numbers: contents of each site
xvars == <<g, np, R, fl>>

Zero == <<0, 0, 0>>
Unit(s, v) == [i \in 1..3 |-> IF i = s + 1 THEN v ELSE 0]
Plus(x, y) == [i \in 1..3 |-> x[i] + y[i]]
Mul(n, x) == [i \in 1..3 |-> n * x[i]]
Neg(x) == Mul(-1, x)
Minus(x, y) == Plus(x, Neg(y))
Sign(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
\* the sign is that of the leading part
Sgn(x) == IF x[1] # 0 THEN Sign(x[1]) ELSE IF x[2] # 0 THEN Sign(x[2]) ELSE Sign(x[3])
Lead(x) == IF x[1] # 0 THEN <<0, x[1]>> ELSE IF x[2] # 0 THEN <<1, x[2]>> ELSE <<2, x[3]>>
Rel(x, y) == LET d == Sgn(Minus(x, y))
             IN CASE d = 0 -> 1 + 16 + 32 [] d < 0 -> 2 + 4 + 16 [] OTHER -> 2 + 8 + 32
Everywhere(o, v) == Len(o) = np /\ \A i \in 1..np : o[i] = v

XInit == g = NoGeometry /\ np = 0 /\ R = <<>> /\ fl = <<>>
XStart(size, n) == g' = Geometry(size) /\ np' = n /\ R' = [k \in 0..5 |-> Zero] /\ fl' = [f \in 0..2 |-> <<>>]
Put(k, x) == R' = [R EXCEPT ![k] = x] /\ UNCHANGED <<g, np, fl>>
See == UNCHANGED xvars

(* ---- sums over sites ---- *)
Weight(x, s, seed) == LET w == (x * (7 + (seed % 5)) + seed * (s + 3) + x * x * s) % 23
                      IN IF (x + s + seed) % 3 = 0 THEN 0 ELSE w - 11
Fill(f, s1, s2, seed) ==
  /\ fl' = [fl EXCEPT ![f] = [i \in 1..g.vol |-> LET s == IF (i - 1) % 2 = 1 THEN s2 ELSE s1 IN Unit(s, Weight(i - 1, s, seed))]]
  /\ UNCHANGED <<g, np, R>>
Over(P, W(_)) == FoldLeft(LAMBDA a, i : IF InPar(g, P, i) THEN Plus(a, W(i)) ELSE a, Zero, [i \in 1..g.vol |-> i])
Loop(k, f, P) == LET W(i) == fl[f][i] IN Put(k, Plus(R[k], Over(P, W)))
Two(k, l, f, h, P) ==
  LET A(i) == fl[f][i]
      B(i) == IF g.cs[i][1] % 2 = 0 THEN Minus(fl[h][i], fl[f][i]) ELSE Zero
  IN /\ R' = [R EXCEPT ![k] = Plus(@, Over(P, A)), ![l] = Plus(@, Over(P, B))]
     /\ UNCHANGED <<g, np, fl>>
Floats(k, v, P) == LET W(i) == Unit(2, 3 * v) IN Put(k, Plus(R[k], Over(P, W)))
(* ---- sums over ranks ---- *)
Nodes1(k, s, v) == Put(k, Plus(Mul(np, R[k]), Unit(s, v * ((np * (np + 1)) \div 2))))
Nodes2(k, l) == R' = [R EXCEPT ![k] = Mul(np, @), ![l] = Mul(np, @)] /\ UNCHANGED <<g, np, fl>>
=============================================================================

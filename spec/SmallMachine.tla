---------------------------- MODULE SmallMachine ----------------------------
(* SU2 elements d + i(a s1 + b s2 + c s3) (s1, s2, s3 the Pauli matrices), elements i/2 (a s1 + b s2 + c s3) of their   *)
(* algebra, phases in quarter turns, directions, parities and coordinates.  A register is a field with one value on      *)
(* even and one on odd sites.                                                                                            *)
EXTENDS Lattice, SequencesExt

VARIABLES dim, np, Q, A, U
svars == <<dim, np, Q, A, U>>
Both == 1..2                                    \* even, odd
SInit == dim = 0 /\ np = 0 /\ Q = <<>> /\ A = <<>> /\ U = <<>>
SStart(d, n) == /\ dim' = d /\ np' = n
                /\ Q' = [k \in 0..3 |-> [p \in Both |-> <<0, 0, 0, 0>>]]
                /\ A' = [k \in 0..2 |-> [p \in Both |-> <<0, 0, 0>>]]
                /\ U' = [k \in 0..2 |-> [p \in Both |-> 0]]
In(P, p) == P = "A" \/ (P = "E" /\ p = 1) \/ (P = "O" /\ p = 2)
PutQ(P, k, V(_)) == Q' = [Q EXCEPT ![k] = [p \in Both |-> IF In(P, p) THEN V(p) ELSE Q[k][p]]] /\ UNCHANGED <<dim, np, A, U>>
PutA(P, k, V(_)) == A' = [A EXCEPT ![k] = [p \in Both |-> IF In(P, p) THEN V(p) ELSE A[k][p]]] /\ UNCHANGED <<dim, np, Q, U>>
PutU(P, k, V(_)) == U' = [U EXCEPT ![k] = [p \in Both |-> IF In(P, p) THEN V(p) ELSE U[k][p]]] /\ UNCHANGED <<dim, np, Q, A>>
See == UNCHANGED svars
Everywhere(o, v) == Len(o) = np /\ \A i \in 1..np : o[i] = v
SeeBoth(o, V(_)) == Everywhere(o, V(1) \o V(2)) /\ See

(* ---- the matrix of an element, and everything from it ---- *)
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
\* s1 = (0 1; 1 0)  s2 = (0 -i; i 0)  s3 = (1 0; 0 -1)
Mat(q) == << << <<q[4], q[3]>>, <<q[2], q[1]>> >>, << <<-q[2], q[1]>>, <<q[4], -q[3]>> >> >>
MMul(x, y) == [i \in 1..2 |-> [j \in 1..2 |-> CAdd(CMul(x[i][1], y[1][j]), CMul(x[i][2], y[2][j]))]]
MDag(x) == [i \in 1..2 |-> [j \in 1..2 |-> CConj(x[j][i])]]
\* of a matrix of this form
Elem(m) == <<m[1][2][2], m[1][2][1], m[1][1][2], m[1][1][1]>>
QMul(x, y) == Elem(MMul(Mat(x), Mat(y)))
QDag(x) == Elem(MDag(Mat(x)))
Vec(F(_), n) == [i \in 1..n |-> F(i)]
QAdd(x, y) == [i \in DOMAIN x |-> x[i] + y[i]]
QSub(x, y) == [i \in DOMAIN x |-> x[i] - y[i]]
Times(s, x) == [i \in DOMAIN x |-> s * x[i]]
One(s) == <<0, 0, 0, s>>
Dot(x, y) == FoldLeft(LAMBDA t, i : t + x[i] * y[i], 0, [i \in 1..Len(x) |-> i])
Tr(m) == CAdd(m[1][1], m[2][2])
Det(m) == LET x == CMul(m[1][1], m[2][2]) y == CMul(m[1][2], m[2][1]) IN x[1] - y[1]

QSet(P, k, v, how) == LET V(p) == IF how \in {3, 6} THEN One(v[4]) ELSE v IN PutQ(P, k, V)
QQ(P, k, l, m, how) ==
  LET V(p) == LET x == Q[l][p] y == Q[m][p] z == Q[k][p] IN
        CASE how = 0 -> QAdd(x, y) [] how = 1 -> QSub(x, y) [] how \in {2, 3} -> QMul(x, y)
          [] how = 4 -> QMul(QDag(x), y) [] how = 5 -> QMul(x, QDag(y)) [] how = 6 -> Times(-1, x) [] how = 7 -> x
          [] how = 8 -> QAdd(z, x) [] how = 9 -> QSub(z, x) [] how = 10 -> QDag(x)
  IN PutQ(P, k, V)
QS(P, k, l, s, how) ==
  LET V(p) == LET x == Q[l][p] z == Q[k][p] IN
        CASE how \in {0, 1} -> QAdd(x, One(s)) [] how = 2 -> QSub(x, One(s)) [] how = 3 -> QSub(One(s), x)
          [] how \in {4, 5} -> Times(s, x) [] how = 6 -> x [] how = 7 -> QAdd(z, One(s)) [] how = 8 -> QSub(z, One(s))
          [] how = 9 -> Times(s, z) [] how = 10 -> z
  IN PutQ(P, k, V)
QNum(o, k, l, how) ==
  LET V(p) == LET x == Q[k][p] y == Q[l][p] IN
        CASE how \in {0, 4} -> <<Tr(Mat(x))[1]>> [] how \in {1, 5} -> <<Det(Mat(x))>>
          [] how \in {2, 6} -> <<Dot(x, x)>> [] how = 3 -> <<Tr(MMul(Mat(x), Mat(y)))[1]>>
  IN SeeBoth(o, V)
QSee(o, k) == LET V(p) == Q[k][p] IN SeeBoth(o, V)
QMat(o, k, i, j) == LET V(p) == Mat(Q[k][p])[i + 1][j + 1] IN SeeBoth(o, V)
QPro(P, k, l, m) == LET V(p) == QMul(Q[l][p], Q[m][p]) IN PutQ(P, k, V)
\* the element next to a 2 x 2 submatrix of a larger one: half of m + (its adjugate)^dagger
Entry(s, i, j) == <<2 * (((s * (3 * i + j + 1)) % 7) - 3), 2 * (((s * (3 * i + j + 2)) % 11) - 5)>>
QPrj(P, k, s, i, j) ==
  LET a == Entry(s, i, i) b == Entry(s, i, j) c == Entry(s, j, i) d == Entry(s, j, j)
      Half(x) == <<x[1] \div 2, x[2] \div 2>>
      V(p) == Elem(<< <<Half(CAdd(a, CConj(d))), Half(CAdd(b, Times(-1, CConj(c))))>>, << <<0, 0>>, <<0, 0>> >> >>)
  IN PutQ(P, k, V)
QVec(o, k, x, y, z, v, side, i) ==
  LET w == << <<x, y>>, <<z, v>> >>
      V(p) == LET m == Mat(Q[k][p]) IN
              IF side = 0 THEN CAdd(CMul(m[i + 1][1], w[1]), CMul(m[i + 1][2], w[2]))
              ELSE CAdd(CMul(w[1], m[1][i + 1]), CMul(w[2], m[2][i + 1]))
  IN SeeBoth(o, V)
\* (3, 4) in components i and i + l, normalized, times 5
QNor(o, P, k, l, s, i) ==
  LET sg == IF s < 0 THEN -1 ELSE 1
      q == [n \in 1..4 |-> IF n = i + 1 THEN 3 * sg ELSE IF n = (((i + l) % 4) + 1) THEN 4 * sg ELSE 0]
      V(p) == q
      W(p) == IF In(P, p) THEN q ELSE Q[k][p]
  IN Everywhere(o, W(1) \o W(2)) /\ PutQ(P, k, V)

(* ---- the algebra ---- *)
ASet(P, k, v, how) == LET V(p) == IF how \in {2, 4} THEN <<0, 0, 0>> ELSE v IN PutA(P, k, V)
AA(P, k, l, m, how) ==
  LET V(p) == LET x == A[l][p] y == A[m][p] z == A[k][p] IN
        CASE how = 0 -> QAdd(x, y) [] how = 1 -> QSub(x, y) [] how = 2 -> Times(-1, x) [] how = 3 -> x
          [] how = 4 -> QAdd(z, x) [] how = 5 -> QSub(z, x)
  IN PutA(P, k, V)
AS(P, k, l, s, how) ==
  LET V(p) == LET x == A[l][p] z == A[k][p] IN
        CASE how \in {0, 1} -> Times(s, x) [] how = 2 -> x [] how = 3 -> Times(s, z) [] how = 4 -> z
  IN PutA(P, k, V)
ANum(o, k, l, how) ==
  LET V(p) == IF how \in {0, 1, 4} THEN <<Dot(A[k][p], A[k][p])>> ELSE <<Dot(A[k][p], A[l][p])>> IN SeeBoth(o, V)
ASee(o, k) == LET V(p) == A[k][p] IN SeeBoth(o, V)
Pro(P, k, l, s) == LET V(p) == LET x == Q[l][p] IN <<2 * s * x[1], 2 * s * x[2], 2 * s * x[3]>> IN PutA(P, k, V)
\* 2s times the element, as a matrix
Xpd(P, k, l, s) == LET V(p) == LET x == A[l][p] IN <<s * x[1], s * x[2], s * x[3], 0>> IN PutQ(P, k, V)
\* U E U^+ and U^+ E U; the matrices i(a s1 + ..) are twice the elements
Con(P, k, l, side, u) ==
  LET V(p) == LET e == A[l][p] \o <<0>>
                  r == IF side = 0 THEN QMul(QMul(u, e), QDag(u)) ELSE QMul(QMul(QDag(u), e), u)
              IN <<r[1], r[2], r[3]>>
  IN PutA(P, k, V)
\* exp(i n pi/2 (x, y, z).s / 5), times 5 m
Cos(n) == CASE n % 4 = 0 -> 1 [] n % 4 = 2 -> -1 [] OTHER -> 0
Sin(n) == CASE n % 4 = 1 -> 1 [] n % 4 = 3 -> -1 [] OTHER -> 0
Exp(o, how, n, m, v) == LET s == IF how < 3 THEN 1 ELSE m
                            V(p) == Times(s, Times(Sin(n), v) \o <<5 * Cos(n)>>)
                        IN SeeBoth(o, V)
\* the logarithm of cos(j pi/12) + i sin(j pi/12) (x, y, z).s / 5, times 30 / pi
Log(o, j, v) == LET V(p) == Times(j, v) IN SeeBoth(o, V)

(* ---- phases ---- *)
USet(P, k, n) == LET V(p) == n IN PutU(P, k, V)
UU(P, k, l, m, how) ==
  LET V(p) == LET x == U[l][p] y == U[m][p] z == U[k][p] IN
        (CASE how = 0 -> x + y [] how = 1 -> z + x [] how = 2 -> x + 2 [] how = 3 -> x [] OTHER -> -x) % 4
  IN PutU(P, k, V)
UNum(o, k, how, x, y) ==
  LET Ph(p) == <<Cos(U[k][p]), Sin(U[k][p])>>
      V(p) == IF how \in {1, 2} THEN CMul(Ph(p), <<x, y>>) ELSE Ph(p)
  IN SeeBoth(o, V)

(* ---- directions: 1..dim up, -1..-dim down ---- *)
Step(d) == [i \in 1..dim |-> IF d = i THEN 1 ELSE IF d = -i THEN -1 ELSE 0]
B(b) == IF b THEN 1 ELSE 0
Sum(c) == FoldLeft(LAMBDA t, x : t + x, 0, c)
Dirs(o, d1, d2, i, c, m) ==
  LET e1 == Step(d1) e2 == Step(d2)
      is == \E d \in (-dim..dim) \ {0} : c = Step(d)
      end == IF d1 > 0 /\ d1 < dim THEN <<d1 + 1, d1, d1 + 1, d1 + 1>> ELSE <<>>
  IN /\ Everywhere(o,
          <<-d1, -d1, d1, B(d1 > 0), Abs(d1), Dot(e1, e2)>> \o QAdd(e1, e2) \o QSub(e1, e2) \o Times(i, e1) \o Times(i, e1)
          \o QAdd(c, e1) \o QSub(c, e1) \o QAdd(c, e1) \o QSub(e1, c) \o QAdd(QSub(e1, e2), m)
          \o QAdd(c, m) \o QSub(c, m) \o Times(-1, c) \o c \o [k \in 1..dim |-> c[k] % m[k]]
          \o <<Dot(c, m), Sum(c) % 2, B(\A k \in 1..dim : c[k] % m[k] = 0), B(c = m), B(c = e1), B(c # m), B(is),
               IF is THEN CHOOSE d \in (-dim..dim) \ {0} : c = Step(d) ELSE 0>>
          \o e1 \o e2 \o <<1, i % m[1]>> \o end)
     /\ See
Pars(o, P) == /\ Everywhere(o, CASE P = "E" -> <<1, 1, 1, 1, 2>> [] P = "O" -> <<0, 0, 1, 2, 1>> [] OTHER -> <<2, 2, 0, 3, 0>>)
              /\ See
=============================================================================

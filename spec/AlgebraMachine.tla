---------------------------- MODULE AlgebraMachine ----------------------------
(* The algebra of the element types of fields: numbers, vectors, matrices, arrays, diagonal matrices, SU(N)
   matrices and their algebra.  The state is a set of registers; each operation reads some and may change one.
   Values are matrices of Gaussian integers [r, c, e], e the elements row by row, each <<re, im>>.  A register is
   kind*10 + index; kinds: 0 M (n x n), 1 V (column), 2 W (row), 3 D (diagonal), 4 A (array), 5 S (number),
   6 Y (real number), 7 K (real n x n), 8 P (n x n+1), 9 Q (n+1 x n).
   Operations whose result is not made of integers are given by the equations the result has to satisfy, in units
   of 1/den. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

VARIABLES n, cplx, reg
avars == <<n, cplx, reg>>

Init == n = 0 /\ cplx = FALSE /\ reg = << >>
Start == n' = 0 /\ cplx' = FALSE /\ reg' = << >>
Group(t, k) == n' = k /\ cplx' = (t \in {"z", "c"}) /\ reg' = << >>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Round(x, d) == IF x >= 0 THEN (x + (d \div 2)) \div d ELSE -((d \div 2 - x) \div d)
Near(x, y, tol) == Abs(x - y) <= tol

-----------------------------------------------------------------------------
(* numbers *)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CCon(a) == <<a[1], -a[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CSq(a) == a[1] * a[1] + a[2] * a[2]
CScale(k, a) == <<k * a[1], k * a[2]>>
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
CRound(a, d) == <<Round(a[1], d), Round(a[2], d)>>
C0 == <<0, 0>>
RECURSIVE CSum(_)
CSum(s) == IF s = << >> THEN C0 ELSE CAdd(Head(s), CSum(Tail(s)))
RECURSIVE ISum(_)
ISum(s) == IF s = << >> THEN 0 ELSE Head(s) + ISum(Tail(s))

(* the integer root: the largest k with k*k <= x *)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
ISqrt(x) == Root(x, 0, 46341)

-----------------------------------------------------------------------------
(* matrices; elements counted from 1 *)
Mat(r, c, f(_, _)) == [r |-> r, c |-> c, e |-> TLCEval([k \in 1..(r * c) |-> f((k - 1) \div c + 1, ((k - 1) % c) + 1)])]
El(a, i, j) == a.e[(i - 1) * a.c + j]
Map(a, f(_)) == [r |-> a.r, c |-> a.c, e |-> TLCEval([k \in DOMAIN a.e |-> f(a.e[k])])]
Both(a, b, f(_, _)) == [r |-> a.r, c |-> a.c, e |-> TLCEval([k \in DOMAIN a.e |-> f(a.e[k], b.e[k])])]
Num(x) == [r |-> 1, c |-> 1, e |-> <<x>>]
Real(x) == Num(<<x, 0>>)
Of(a) == a.e[1]
Diag(s, k) == Mat(k, k, LAMBDA i, j : IF i = j THEN s ELSE C0)
One(k) == Diag(<<1, 0>>, k)

MAdd(a, b) == Both(a, b, CAdd)
MSub(a, b) == Both(a, b, CSub)
MMul(a, b) == Mat(a.r, b.c, LAMBDA i, j : CSum([k \in 1..a.c |-> CMul(El(a, i, k), El(b, k, j))]))
Scale(s, a) == Map(a, LAMBDA x : CMul(s, x))
Times(k, a) == Map(a, LAMBDA x : CScale(k, x))
Tra(a) == Mat(a.c, a.r, LAMBDA i, j : El(a, j, i))
Dag(a) == Mat(a.c, a.r, LAMBDA i, j : CCon(El(a, j, i)))
Tr(a) == CSum([i \in 1..a.r |-> El(a, i, i)])
SqNorm(a) == ISum([k \in DOMAIN a.e |-> CSq(a.e[k])])
Minor(a, q) == Mat(a.r - 1, a.c - 1, LAMBDA i, j : El(a, i + 1, IF j < q THEN j ELSE j + 1))
RECURSIVE Det(_)
Det(a) == IF a.r = 1 THEN Of(a)
          ELSE CSum([q \in 1..a.c |-> CScale(IF q % 2 = 1 THEN 1 ELSE -1, CMul(El(a, 1, q), Det(Minor(a, q))))])

-----------------------------------------------------------------------------
(* the operators: what they mean for each combination of kinds *)
Kind(q) == q \div 10
IsNum(q) == Kind(q) \in {5, 6}
IsArr(q) == Kind(q) = 4
(* a number next to a matrix in a sum stands for a multiple of the unit matrix, next to an array for all elements *)
Like(a, y) == \* the value of the operand a next to y
  IF IsNum(a) /\ ~IsNum(y)
  THEN IF IsArr(y) THEN Map(reg[y], LAMBDA z : Of(reg[a])) ELSE Diag(Of(reg[a]), reg[y].r)
  ELSE reg[a]
Left(a, b) == Like(a, b)
Right(a, b) == Like(b, a)
Product(a, b) ==
  IF IsNum(a) THEN Scale(Of(reg[a]), reg[b])
  ELSE IF IsNum(b) THEN Scale(Of(reg[b]), reg[a])
  ELSE IF IsArr(a) THEN Both(reg[a], reg[b], CMul)
  ELSE MMul(reg[a], reg[b])

Truth(t) == Real(IF t THEN 1 ELSE 0)
Binary(f, a, b) ==
  CASE f = "add" -> MAdd(Left(a, b), Right(a, b))
    [] f = "sub" -> MSub(Left(a, b), Right(a, b))
    [] f = "mul" -> Product(a, b)
    [] f = "eq"  -> Truth(reg[a] = reg[b])
    [] f = "ne"  -> Truth(reg[a] # reg[b])
    [] f = "dot" -> MMul(Dag(reg[a]), reg[b])
    [] f = "outer" -> MMul(reg[a], Dag(reg[b]))
    [] f = "mtr" -> Num(Tr(MMul(reg[a], reg[b])))
    [] f = "emul" -> Both(reg[a], reg[b], CMul)
    [] f = "sadd" -> Map(reg[a], LAMBDA z : CAdd(z, Of(reg[b])))
    [] f = "ssub" -> Map(reg[a], LAMBDA z : CSub(z, Of(reg[b])))
    [] f = "cmul" -> Num(CMul(CCon(Of(reg[a])), Of(reg[b])))
    [] f = "mulc" -> Num(CMul(Of(reg[a]), CCon(Of(reg[b]))))
    [] f = "mult" -> Product(a, b)
    [] f = "multaa" -> Dag(MMul(reg[a], reg[b]))

Reals(a) == {a.e[k][1] : k \in DOMAIN a.e}
DiagReals(a) == {El(a, i, i)[1] : i \in 1..a.r}
Unary(f, a) ==
  LET x == reg[a] IN
  CASE f \in {"pos", "mat", "cpy"} -> IF f = "cpy" /\ IsNum(a) THEN Diag(Of(x), n) ELSE x
    [] f = "neg" -> Map(x, CNeg)
    [] f \in {"tra", "traf"} -> Tra(x)
    [] f \in {"con", "conf"} -> Map(x, CCon)
    [] f \in {"dag", "dagf", "adj"} -> Dag(x)
    [] f = "re" -> Map(x, LAMBDA z : <<z[1], 0>>)
    [] f = "im" -> Map(x, LAMBDA z : <<z[2], 0>>)
    [] f = "tr" -> Num(Tr(x))
    [] f \in {"det", "detl"} -> Num(Det(x))
    [] f = "sqn" -> Real(SqNorm(x))
    [] f = "sum" -> Num(CSum(x.e))
    [] f = "max" -> Real(Max(IF Kind(a) = 3 THEN DiagReals(x) ELSE Reals(x)))
    [] f = "min" -> Real(Min(IF Kind(a) = 3 THEN DiagReals(x) ELSE Reals(x)))

(* b converted to the kind of a *)
Converted(a, b) ==
  CASE Kind(a) = 1 /\ Kind(b) = 3 -> Mat(n, 1, LAMBDA i, j : El(reg[b], i, i))
    [] Kind(a) = 3 /\ Kind(b) = 1 -> Mat(n, n, LAMBDA i, j : IF i = j THEN El(reg[b], i, 1) ELSE C0)
    [] Kind(a) = 3 /\ Kind(b) = 0 -> Mat(n, n, LAMBDA i, j : IF i = j THEN El(reg[b], i, i) ELSE C0)
    [] Kind(a) = 4 /\ IsNum(b)    -> Mat(n, n, LAMBDA i, j : Of(reg[b]))
    [] ~IsNum(a) /\ IsNum(b)      -> Diag(Of(reg[b]), n)
    [] OTHER -> reg[b]
Inplace(f, a, b) ==
  CASE f = "set"  -> Converted(a, b)
    [] f = "iadd" -> IF Kind(a) = 1 /\ IsNum(b) THEN Map(reg[a], LAMBDA z : CAdd(z, Of(reg[b]))) ELSE MAdd(reg[a], Right(a, b))
    [] f = "isub" -> MSub(reg[a], Right(a, b))
    [] f = "imul" -> Product(a, b)

Element(a, i, j) == El(reg[a], i + 1, j + 1)
Part(f, a, i, j, b) == \* the value, and what it leaves in a
  LET x == reg[a] IN
  CASE f = "el"  -> <<Num(Element(a, i, j)), x>>
    [] f = "row" -> <<Mat(1, x.c, LAMBDA p, q : El(x, i + 1, q)), x>>
    [] f = "col" -> <<Mat(x.r, 1, LAMBDA p, q : El(x, p, j + 1)), x>>
    [] OTHER ->
       LET s == Of(reg[b])
           y == CASE f = "setel"   -> Mat(x.r, x.c, LAMBDA p, q : IF p = i + 1 /\ q = j + 1 THEN s ELSE El(x, p, q))
                  [] f = "setrow"  -> Mat(x.r, x.c, LAMBDA p, q : IF p = i + 1 THEN El(reg[b], 1, q) ELSE El(x, p, q))
                  [] f = "setcol"  -> Mat(x.r, x.c, LAMBDA p, q : IF q = j + 1 THEN El(reg[b], p, 1) ELSE El(x, p, q))
                  [] f = "setdiag" -> Mat(x.r, x.c, LAMBDA p, q : IF p = q THEN El(reg[b], p, 1) ELSE El(x, p, q))
                  [] f = "fill"    -> Map(x, LAMBDA z : s)
       IN <<y, y>>
Permuted(f, a, p) ==
  LET x == reg[a] IN
  CASE f = "pcol" -> Mat(x.r, x.c, LAMBDA i, j : El(x, i, p[j] + 1))
    [] f = "prow" -> Mat(x.r, x.c, LAMBDA i, j : El(x, p[i] + 1, j))
    [] f = "pvec" -> IF x.c = 1 THEN Mat(x.r, 1, LAMBDA i, j : El(x, p[i] + 1, 1)) ELSE Mat(1, x.c, LAMBDA i, j : El(x, 1, p[j] + 1))
(* the matrix that is z on the rows and columns p, q (from 0) and the unit matrix elsewhere *)
Embedded(p, q, z) ==
  LET at(i) == IF i = p + 1 THEN 1 ELSE IF i = q + 1 THEN 2 ELSE 0
      y(i, j) == <<z[4 * i + 2 * j - 5], z[4 * i + 2 * j - 4]>>
  IN Mat(n, n, LAMBDA i, j : IF at(i) > 0 /\ at(j) > 0 THEN y(at(i), at(j)) ELSE IF i = j THEN <<1, 0>> ELSE C0)
TwoByTwo(f, a, p, q, z) == IF f = "left" THEN MMul(Embedded(p, q, z), reg[a]) ELSE MMul(reg[a], Embedded(p, q, z))

(* operations inside a site loop: the same on each site *)
M_(i) == reg[i % 4]
V_(i) == reg[10 + (i % 3)]
S_(i) == reg[50 + (i % 3)]
Y_(i) == reg[60 + (i % 2)]
Looped(f, a, b) ==
  LET i == a % 10  j == b % 10 IN
  CASE f = "MM"  -> MMul(M_(i), M_(j))
    [] f = "MMd" -> MMul(M_(i), Dag(M_(j)))
    [] f = "MdM" -> MMul(Dag(M_(i)), M_(j))
    [] f = "MpM" -> MAdd(M_(i), M_(j))
    [] f = "MmM" -> MSub(M_(i), M_(j))
    [] f = "MS"  -> Scale(Of(S_(j)), M_(i))
    [] f = "MpS" -> MAdd(M_(i), Diag(Of(S_(j)), n))
    [] f = "MY"  -> Scale(Of(Y_(j)), M_(i))
    [] f = "MiM" -> MMul(M_(i), M_(j))
    [] f = "MiY" -> MSub(M_(i), Diag(Of(Y_(j)), n))
    [] f = "Mt"  -> Tra(M_(i))
    [] f = "Mc"  -> Map(M_(i), CCon)
    [] f = "VV"  -> MMul(V_(i), Dag(V_(j)))
    [] f = "MV"  -> MMul(M_(i), V_(j))
    [] f = "SV"  -> Scale(Of(S_(i)), V_(j))
    [] f = "VpV" -> MAdd(V_(i), V_(j))
    [] f = "SS"  -> Num(CMul(Of(S_(i)), Of(S_(j))))
    [] f = "SmS" -> Num(CSub(Of(S_(i)), Of(S_(j))))
    [] f = "SSc" -> Num(CMul(Of(S_(i)), CCon(Of(S_(j)))))
    [] f = "SpY" -> Num(CAdd(Of(S_(i)), Of(Y_(j))))
    [] f = "tr"  -> Num(Tr(M_(i)))
    [] f = "dt"  -> Num(Det(M_(i)))
    [] f = "mt"  -> Num(Tr(MMul(M_(i), M_(j))))
    [] f = "VdV" -> MMul(Dag(V_(i)), V_(j))
    [] f = "sq"  -> Real(SqNorm(M_(i)))

-----------------------------------------------------------------------------
(* the steps *)
RECURSIVE Flat(_)
Flat(e) == IF e = << >> THEN << >> ELSE Head(e) \o Flat(Tail(e))
Obs(v) == <<v.r, v.c>> \o Flat(v.e)
Shape(q) ==
  CASE Kind(q) \in {0, 3, 4, 7} -> <<n, n>>
    [] Kind(q) = 1 -> <<n, 1>>
    [] Kind(q) = 2 -> <<1, n>>
    [] Kind(q) \in {5, 6} -> <<1, 1>>
    [] Kind(q) = 8 -> <<n, n + 1>>
    [] Kind(q) = 9 -> <<n + 1, n>>
Stored(q, v) == [x \in DOMAIN reg \cup {q} |-> IF x = q THEN v ELSE reg[x]]
Keep(q, v) == (IF q < 0 THEN reg' = reg ELSE reg' = Stored(q, v)) /\ UNCHANGED <<n, cplx>>

(* v: the elements, those of a diagonal matrix only on the diagonal *)
Put(q, v) ==
  LET s == Shape(q)
      at(i) == <<v[2 * i - 1], v[2 * i]>>
      m == IF Kind(q) = 3 THEN Mat(n, n, LAMBDA i, j : IF i = j THEN at(i) ELSE C0)
           ELSE Mat(s[1], s[2], LAMBDA i, j : at((i - 1) * s[2] + j))
  IN Keep(q, m)
Get(q, obs) == obs = Obs(reg[q]) /\ Keep(-1, 0)
Bin(f, d, a, b, obs) == LET v == Binary(f, a, b) IN obs = Obs(v) /\ Keep(d, v)
Una(f, d, a, obs) == LET v == Unary(f, a) IN obs = Obs(v) /\ Keep(d, v)
Inp(f, a, b, obs) == LET v == Inplace(f, a, b) IN obs = Obs(v) /\ Keep(a, v)
Ter(f, d, a, b, obs) ==
  LET p == Product(a, b)
      v == IF f = "madd" THEN MAdd(reg[d], p) ELSE MSub(reg[d], p)
  IN obs = Obs(v) /\ Keep(d, v)
PartOf(f, a, i, j, b, obs) == LET v == Part(f, a, i, j, b) IN obs = Obs(v[1]) /\ Keep(a, v[2])
Perm(f, a, p, obs) == obs = Obs(Permuted(f, a, p)) /\ Keep(-1, 0)
Two(f, a, p, q, z, obs) == LET v == TwoByTwo(f, a, p, q, z) IN obs = Obs(v) /\ Keep(a, v)
Loop(f, a, b, obs) == obs = Obs(Looped(f, a, b)) /\ Keep(-1, 0)
(* pairs of a value and where it was *)
Sort(a, desc, obs) ==
  /\ LET x == reg[a]
         val(i) == obs[2 * i - 1]
         was(i) == obs[2 * i] + 1
     IN /\ Len(obs) = 2 * n
        /\ \A i \in 1..n : was(i) \in 1..n /\ val(i) = El(x, was(i), 1)[1]
        /\ \A i \in 1..n : \A j \in 1..n : was(i) = was(j) => (i = j)
        /\ \A i \in 1..(n - 1) : IF desc = 1 THEN val(i) >= val(i + 1) ELSE val(i) <= val(i + 1)
  /\ Keep(-1, 0)

-----------------------------------------------------------------------------
(* Results in units of 1/den. *)
(* the results one after the other, of the given shapes; extra numbers may follow *)
Parse(obs, at, r, c) == [r |-> r, c |-> c, e |-> [k \in 1..(r * c) |-> <<obs[at + 2 * k], obs[at + 2 * k + 1]>>]]
RECURSIVE Values(_, _)
Values(obs, at) ==
  IF at > Len(obs) THEN << >>
  ELSE LET v == Parse(obs, at, obs[at], obs[at + 1]) IN <<v>> \o Values(obs, at + 2 + 2 * v.r * v.c)
MNear(a, b, tol) == a.r = b.r /\ a.c = b.c /\ \A k \in DOMAIN a.e : CNear(a.e[k], b.e[k], tol)
AllReal(a) == \A k \in DOMAIN a.e : a.e[k][2] = 0
Size1(z) == Abs(z[1]) + Abs(z[2])
Large(a) == IF a.e = << >> THEN 0 ELSE Max({Size1(a.e[k]) : k \in DOMAIN a.e})

(* z is x / y of numbers *)
Quotient(z, x, y, den) == CNear(CMul(z, y), CScale(den, x), Size1(y) + 2 + (den * Size1(x)) \div 500000)
Div(a, b, den, z) ==
  LET x == reg[a]  y == reg[b]
      \* the divisor of the element i, j
      by(i, j) == IF Kind(b) = 3 THEN El(y, j, j) ELSE IF IsNum(b) THEN Of(y) ELSE El(y, i, j)
      \* what is divided
      of(i, j) == IF IsNum(a) THEN (IF Kind(b) = 3 /\ i # j THEN C0 ELSE Of(x)) ELSE El(x, i, j)
      shape == IF IsNum(a) THEN Shape(b) ELSE Shape(a)
  IN /\ <<z.r, z.c>> = shape
     /\ \A i \in 1..z.r : \A j \in 1..z.c : Quotient(El(z, i, j), of(i, j), by(i, j), den)

(* z the root of s, in units of 1/den *)
RootOf(z, s, den) == z >= 0 /\ Near(z * z, den * den * s, 2 * z + 2 + (den * den * s) \div 250000)
IsRoot(z, s, den) == AllReal(z) /\ z.r = 1 /\ z.c = 1 /\ RootOf(Of(z)[1], s, den)

(* exp(x / (den * k0)) with x in units of 1/den and the result too; x an n x n matrix or a number *)
RECURSIVE Series(_, _, _, _, _)
Series(sum, term, k, x, q) ==
  LET t == Map(MMul(term, x), LAMBDA z : CRound(z, q * k))
  IN IF k > 40 \/ Large(t) <= 0 THEN sum ELSE Series(MAdd(sum, t), t, k + 1, x, q)
(* x / q is the argument, the result in units of 1/den *)
Exp(x, q, den) == LET u == Times(den, One(x.r)) IN Series(u, u, 1, x, q)

Unitary(u, den) == MNear(MMul(u, Dag(u)), Times(den * den, One(u.r)), 4 * den) /\ u.r = u.c
(* determinant of u (in units of 1/den) with the same unit *)
RECURSIVE DetF(_, _)
DetF(a, den) ==
  IF a.r = 1 THEN Of(a)
  ELSE CSum([q \in 1..a.c |-> CScale(IF q % 2 = 1 THEN 1 ELSE -1, CRound(CMul(El(a, 1, q), DetF(Minor(a, q), den)), den))])
Special(u, d, den) == CNear(DetF(u, den), <<den, 0>>, 30) /\ CNear(Of(d), <<den, 0>>, 2)
Ordered(d, how) ==
  \A i \in 1..(d.r - 1) :
    IF how = 1 THEN El(d, i, i)[1] <= El(d, i + 1, i + 1)[1] ELSE IF how = 2 THEN El(d, i, i)[1] >= El(d, i + 1, i + 1)[1] ELSE TRUE
OnlyDiagonal(d) == \A i \in 1..d.r : \A j \in 1..d.c : IF i = j THEN El(d, i, j)[2] = 0 ELSE El(d, i, j) = C0

(* M x = b; x in units of 1/den *)
Solves(m, x, b, den) ==
  LET tol == 2 * m.r * Large(m) + 4 + (den * Large(b)) \div 50000
  IN x.r = b.r /\ x.c = b.c /\ MNear(MMul(m, x), Times(den, b), tol)

(* functions of the number S/4, from its exponentials *)
E_(s, k, den) == Of(Exp(Num(s), k, den))
ITimes(s) == <<-s[2], s[1]>>
Functions(s, den, z) ==
  LET at(k) == Of(z[k])
      p == E_(s, 4, den)  m == E_(CNeg(s), 4, den)
      ip == E_(ITimes(s), 4, den)  im == E_(CNeg(ITimes(s)), 4, den)
      half(c) == CRound(c, 2)
      sin == half(CNeg(ITimes(CSub(ip, im))))
      cos == half(CAdd(ip, im))
      sinh == half(CSub(p, m))
      cosh == half(CAdd(p, m))
      tol == 60
      \* t * c = s, where the scale of t is kept small
      ratio(t, c, s0) == CNear(CRound(CMul(t, CRound(c, 100)), den \div 100), s0, (tol * (den + Size1(t))) \div den + Size1(t) \div 100 + 100)
  IN /\ Len(z) = 7
     /\ CNear(at(1), p, tol) /\ CNear(at(2), sin, tol) /\ CNear(at(3), cos, tol)
     /\ CNear(at(4), sinh, tol) /\ CNear(at(5), cosh, tol)
     /\ ratio(at(6), cos, sin) /\ ratio(at(7), cosh, sinh)
(* functions whose value is known from its inverse; s has a positive real part *)
Inverses(s, den, z) ==
  LET at(k) == Of(z[k])
      root == at(1)  log == at(2)  atan == at(3)  ash == at(4)  third == at(5)
      e == E_(log, den, den)
      ip == E_(ITimes(atan), den, den)  im == E_(CNeg(ITimes(atan)), den, den)
      sin2 == CNeg(ITimes(CSub(ip, im)))  cos2 == CAdd(ip, im)
      sp == E_(ash, den, den)  sm == E_(CNeg(ash), den, den)
      cube == CRound(CMul(CRound(CMul(third, third), den), third), den)
      quarter == (314 * den) \div 200 + 2
      big == Size1(s)
  IN /\ Len(z) = 5
     /\ root[1] > 0
     /\ CNear(CScale(4, CRound(CMul(root, root), den)), CScale(den, s), 8 + (16 * Size1(root)) \div den)
     /\ CNear(CScale(4, e), CScale(den, s), 40 + 8 * big) /\ Abs(log[2]) <= quarter
     /\ CNear(CMul(cos2, s), CScale(4, sin2), 60 + 40 * big) /\ Abs(atan[1]) <= quarter
     /\ CNear(CScale(2, CSub(sp, sm)), CScale(den, s), 40 + 20 * big) /\ Abs(ash[2]) <= quarter
     /\ CNear(CScale(4, cube), CScale(den, s), 40 + 8 * big)
     /\ third[1] > 0 /\ 17 * Abs(third[2]) <= 10 * third[1]

(* powers: the third of S/2, and S/2 to the power w/2, w in -2, 1, 2, 4 *)
Powers(s, w, den, z) ==
  LET cube == CMul(CMul(s, s), s)
      t == Of(z[2])
  IN /\ Len(z) = 2
     /\ CNear(CScale(8, Of(z[1])), CScale(den, cube), 8 + (den * Size1(cube)) \div 500000)
     /\ CASE w = <<2, 0>>  -> CNear(CScale(2, t), CScale(den, s), 4)
          [] w = <<4, 0>>  -> CNear(CScale(4, t), CScale(den, CMul(s, s)), 6 + (den * CSq(s)) \div 250000)
          [] w = <<-2, 0>> -> CNear(CMul(t, s), <<2 * den, 0>>, Size1(s) + 2)
          [] w = <<1, 0>>  -> t[1] > 0 /\ CNear(CScale(2, CRound(CMul(t, t), den)), CScale(den, s), 8 + (8 * Size1(t)) \div den)

(* the coordinates of the antihermitean traceless part of u: c, those of the diagonal times the root of
   i (i + 1) / 2, z the matrix, z3 three times it, dot the square *)
AlgebraParts(u, den, obs) ==
  LET len == 2 + 2 * n * n
      z == Parse(obs, 1, n, n)
      z3 == Parse(obs, 1 + len, n, n)
      dot == obs[1 + 2 * len + 2]
      c(k) == obs[2 * len + 4 + k]
      a == MSub(u, Dag(u))
      tr == Tr(a)
      ah == MSub(Times(n, a), Diag(tr, n))        \* 2 n times the antihermitean traceless part
      im(j) == El(u, j, j)[2]
      \* index of the pair i < j among the off-diagonal ones
      below(i, j) == Cardinality({<<p, q>> \in (1..n) \X (1..n) : p < q /\ (p < i \/ (p = i /\ q < j))})
      off(i, j) == n - 1 + 2 * below(i, j)
      v(i, j) == CSub(El(u, i, j), CCon(El(u, j, i)))
  IN /\ Len(obs) = 2 * len + 4 + n * n - 1
     /\ obs[1] = n /\ obs[1 + len] = n
     /\ MNear(Times(2 * n, z), Times(den, ah), 4 * n)
     /\ MNear(z3, Times(3, z), 6)
     /\ \A i \in 1..(n - 1) : Near(c(i), den * (ISum([j \in 1..i |-> im(j)]) - i * im(i + 1)), 2 + i)
     /\ \A i \in 1..n : \A j \in 1..n :
          IF i < j THEN Near(c(off(i, j) + 1), den * v(i, j)[1], 2) /\ Near(c(off(i, j) + 2), den * v(i, j)[2], 2) ELSE TRUE
     /\ LET sq == ISum([k \in 1..(n - 1) |-> (2 * c(k) * c(k)) \div (k * (k + 1))]) + ISum([k \in 1..(n * n - n) |-> c(k + n - 1) * c(k + n - 1)])
        IN Near(2 * den * dot, sq, 4 * den + n * n + sq \div 5000 + ISum([k \in 1..(n * n - 1) |-> 2 * Abs(c(k)) + 1]))

Inexact(f, a, b, den, obs) ==
  LET x == reg[a] IN
  /\ IF f = "alg" THEN AlgebraParts(x, den, obs)
     ELSE
     LET z == Values(obs, 1) IN
     /\ Len(z) > 0
     /\ CASE f \in {"div", "idiv"} -> Div(a, b, den, z[1])
          [] f = "norm" -> IsRoot(z[1], SqNorm(x), den)
          [] f = "abs" ->
             /\ z[1].r = x.r /\ z[1].c = x.c /\ AllReal(z[1])
             /\ \A k \in DOMAIN x.e : RootOf(z[1].e[k][1], CSq(x.e[k]), den)
          [] f = "maxabs" -> IsRoot(z[1], Max({CSq(x.e[k]) : k \in DOMAIN x.e}), den)
          [] f = "minabs" -> IsRoot(z[1], Min({CSq(x.e[k]) : k \in DOMAIN x.e}), den)
          [] f = "norm1" ->
             AllReal(z[1]) /\ LET s == ISum([k \in DOMAIN x.e |-> ISqrt(den * den * CSq(x.e[k]))])
                              IN Near(Of(z[1])[1], s, 2 * Len(x.e) + s \div 500000)
          [] f = "detu" -> LET d == CScale(den, Det(x)) IN CNear(Of(z[1]), d, 2 + Size1(d) \div 50000)
          [] f \in {"solve", "solvem", "invmul"} -> Solves(x, z[1], reg[b], den)
          [] f = "inv" -> Solves(x, z[1], One(n), den)
          [] f \in {"exp", "altexp", "chexp", "chsexp", "chexpk"} ->
             LET e == Exp(x, 8, den) IN MNear(z[1], e, 80 + Large(e) \div 20000)
          [] f = "sexp" -> Functions(Of(x), den, z)
          [] f = "sinv" -> Inverses(Of(x), den, z)
          [] f = "pow" -> Powers(Of(x), Of(reg[b]), den, z)
          [] f = "arg" ->
             /\ Len(z) = 4
             /\ CNear(Of(z[1]), Of(z[2]), 0) /\ Abs(Of(z[1])[1]) <= (31416 * den) \div 10000 + 1
             /\ CNear(Of(z[3]), CScale(den, Of(x)), 1 + (den * Size1(Of(x))) \div 200000)
             /\ CNear(Of(z[4]), CScale(den, Of(x)), 1 + (den * Size1(Of(x))) \div 200000)
          [] f = "eigen" ->
             LET h == MAdd(x, Dag(x))  e == z[1]  u == z[2] IN
             /\ Len(z) = 2 /\ OnlyDiagonal(e) /\ Ordered(e, b) /\ Unitary(u, den)
             /\ MNear(Times(den, MMul(h, u)), MMul(u, e), n * den * Large(h) + den + Large(e))
          [] f \in {"svd", "svdp"} ->
             LET u == z[1]  e == z[2]  w == z[3] IN
             /\ Len(z) = 3 /\ OnlyDiagonal(e) /\ Ordered(e, b) /\ Unitary(u, den) /\ Unitary(w, den)
             /\ \A i \in 1..n : El(e, i, i)[1] >= 0
             /\ MNear(Times(den, MMul(x, w)), MMul(u, e), n * den * Large(x) + den + Large(e))
          [] f = "unit" ->
             LET l == MMul(x, Dag(z[1])) IN
             /\ Len(z) = 2 /\ Unitary(z[1], den) /\ Special(z[1], z[2], den)
             /\ \A i \in 1..n : \A j \in 1..n : IF j > i THEN Size1(El(l, i, j)) <= 4 * n * (Large(x) + 1) ELSE TRUE
          [] f = "sunrnd" -> Len(z) = 2 /\ Unitary(z[1], den) /\ Special(z[1], z[2], den)
          [] f = "aexp" ->
             LET e == Exp(z[1], 8 * den, den) IN
             /\ Len(z) = 3 /\ MNear(z[2], e, 20 + Large(e) \div 200) /\ MNear(z[3], z[2], 2)
             \* the algebra: antihermitean and traceless, coordinates of M
             /\ MNear(Dag(z[1]), Map(z[1], CNeg), 1) /\ Size1(Tr(z[1])) <= n + 1
  /\ Keep(-1, 0)
=============================================================================

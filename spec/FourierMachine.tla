--------------------------- MODULE FourierMachine ---------------------------
(* Fourier transforms and reflections of fields (plumbing/fft.h).  A field is kept as an integer field    *)
(* (its base), the direction in which each coordinate has been transformed, and a factor:                 *)
(*    f(k) = sc * SUM_x base(x) exp(-2 pi i SUM_d sg_d k_d x_d / L_d)     x_d = k_d where sg_d = 0          *)
(* The transforms act on this form by F_d F_d = L_d R_d, F_d Finv_d = L_d, R_d F_d = F_d R_d (R: reflection *)
(* x_d -> -x_d), which FourierMC proves for the sum on small lattices.  Values are only computed where     *)
(* they are observed.                                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TrigTable

VARIABLES sz,      \* lattice size
          co,      \* coordinates of the sites, in lexicographic order
          slots    \* fields
fvars == <<sz, co, slots>>

ND == Len(sz)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
V == Len(co)
Sites(L) ==
  [s \in 1..Prod(L) |-> [d \in 1..Len(L) |-> ((s - 1) \div Prod(SubSeq(L, 1, d - 1))) % L[d]]]
\* site with the coordinates c
Index(c) == LET RECURSIVE I(_)
                I(d) == IF d > ND THEN 0 ELSE c[d] + sz[d] * I(d + 1)
            IN 1 + I(1)

None == [set |-> FALSE]
\* element types: numbers, complex or not, single precision
Types == [z |-> [n |-> 2, cx |-> TRUE, fl |-> FALSE], c |-> [n |-> 2, cx |-> TRUE, fl |-> TRUE],
          v |-> [n |-> 4, cx |-> TRUE, fl |-> FALSE], m |-> [n |-> 8, cx |-> TRUE, fl |-> TRUE],
          d |-> [n |-> 1, cx |-> FALSE, fl |-> FALSE],
          f |-> [n |-> 1, cx |-> FALSE, fl |-> TRUE]]
\* what the harness puts in number c of site s
Val(s, c, seed) == ((s * s * 3 + s * (7 + c) + c * 5 + seed * ((s % 7) + 1)) % 11) - 5

Init == sz = <<1>> /\ co = <<<<0>>>> /\ slots = [k \in {} |-> None]
Start(L) == sz' = L /\ co' = Sites(L) /\ slots' = [k \in {} |-> None]
Slot(k) == IF k \in DOMAIN slots THEN slots[k] ELSE None
Put(k, v) == slots' = [j \in DOMAIN slots \cup {k} |-> IF j = k THEN v ELSE slots[j]] /\ UNCHANGED <<sz, co>>

Set(t, k, seed) ==
  Put(<<t, k>>, [set |-> TRUE, base |-> [s \in 1..V |-> [c \in 1..Types[t].n |-> Val(s - 1, c - 1, seed)]],
                 sg |-> [d \in 1..ND |-> 0], sc |-> 1, ex |-> TRUE])

(* ---- reflection and transform ---- *)
Refl(D, c) == [d \in 1..ND |-> IF D[d] # 0 THEN (sz[d] - c[d]) % sz[d] ELSE c[d]]
Reflected(b, D) == [s \in 1..V |-> b[Index(Refl(D, co[s]))]]
Transformed(f, D, sign) ==
  LET both == [d \in 1..ND |-> IF D[d] # 0 /\ f.sg[d] = sign THEN 1 ELSE 0]   \* twice the same: reflects
      any(d) == D[d] # 0 /\ f.sg[d] # 0
  IN [f EXCEPT !.base = Reflected(@, both),
               !.sg = [d \in 1..ND |-> IF D[d] = 0 THEN @[d] ELSE IF @[d] = 0 THEN sign ELSE 0],
               !.sc = @ * Prod([d \in 1..ND |-> IF any(d) THEN sz[d] ELSE 1]),
               !.ex = @ /\ \A d \in 1..ND : D[d] = 0]
Ones == [d \in 1..ND |-> 1]
Fft(t, k, j, D, sign) == Put(<<t, j>>, Transformed(Slot(<<t, k>>), D, sign))
Reflect(t, k, j, D) == Put(<<t, j>>, [Slot(<<t, k>>) EXCEPT !.base = Reflected(@, D)])
Copy(t, k, j) == Put(<<t, j>>, Slot(<<t, k>>))

\* real to complex: the transform of the field with imaginary part 0
CType(t) == IF t = "f" THEN "c" ELSE "z"
RToC(t, k, j, sign) ==
  LET f == Slot(<<t, k>>)
      g == [f EXCEPT !.base = [s \in 1..V |-> <<@[s][1], 0>>]]
  IN Put(<<CType(t), j>>, Transformed(g, Ones, sign))
\* complex to real: the transform of the field made to obey f(-x) = conj f(x), from half of its values
RECURSIVE Kind(_, _)
Kind(c, d) == IF d > ND THEN 0 ELSE IF c[d] > 0 /\ 2 * c[d] < sz[d] THEN 1 ELSE IF 2 * c[d] > sz[d] THEN -1 ELSE Kind(c, d + 1)
Conj(v) == <<v[1], -v[2]>>
Symmetric(b) == [s \in 1..V |-> LET k == Kind(co[s], 1)
                                IN IF k = 1 THEN b[s] ELSE IF k = 0 THEN <<b[s][1], 0>>
                                   ELSE Conj(b[Index(Refl(Ones, co[s]))])]
RType(t) == IF t = "c" THEN "f" ELSE "d"
CToR(t, k, j, sign) ==
  LET f == Slot(<<t, k>>)
      g == IF \A d \in 1..ND : f.sg[d] = 0 THEN [f EXCEPT !.base = Symmetric(@)] ELSE f
  IN Put(<<RType(t), j>>, Transformed(g, Ones, sign))

(* ---- observation: thousandths of every number of every site ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
Order(f) == FoldLeft(LAMBDA a, d : IF f.sg[d] = 0 THEN a ELSE Lcm(a, sz[d]), 1, [d \in 1..ND |-> d])
\* phase of x at k, in units of 1/N
Phase(f, N, k, x) == FoldLeft(LAMBDA a, d : IF f.sg[d] = 0 THEN a ELSE a + f.sg[d] * ((k[d] * x[d]) % sz[d]) * (N \div sz[d]),
                              0, [d \in 1..ND |-> d]) % N
Match(f, k, x) == \A d \in 1..ND : f.sg[d] # 0 \/ k[d] = x[d]
\* the sum for site s and complex number c, in millionths
Sum(f, N, s, c) ==
  FoldLeft(LAMBDA a, x : IF ~Match(f, co[s], co[x]) THEN a
                         ELSE LET p == Phase(f, N, co[s], co[x]) + 1
                                  re == f.base[x][2 * c - 1]
                                  im == f.base[x][2 * c]
                              IN <<a[1] + (re * CosT[N][p]) + (im * SinT[N][p]), a[2] + (im * CosT[N][p]) - (re * SinT[N][p])>>,
           <<0, 0>>, [x \in 1..V |-> x])
Abs(x) == IF x < 0 THEN -x ELSE x
\* sc * D millionths in thousandths
Milli(sc, D) == sc * (D \div 1000) + ((sc * (D % 1000)) \div 1000)
Near(f, fl, o, e) == Abs(o - e) <= 3 + f.sc + (IF fl THEN (Abs(e) \div 3000) + 20 ELSE Abs(e) \div 500000)
Plain(f) == \A d \in 1..ND : f.sg[d] = 0
Get(t, k, obs) ==
  LET f == Slot(<<t, k>>)
      T == Types[t]
      N == Order(f)
  IN /\ f.set
     /\ Len(obs) = V * T.n
     /\ IF Plain(f)
        THEN \A s \in 1..V : \A c \in 1..T.n :
               LET o == obs[T.n * (s - 1) + c]
                   e == 1000 * f.sc * f.base[s][c]
               IN IF f.ex THEN o = e ELSE Near(f, T.fl, o, e)
        ELSE \A s \in 1..V : \A c \in 1..((T.n + 1) \div 2) :
               LET S == Sum(f, N, s, c)
               IN /\ Near(f, T.fl, obs[T.n * (s - 1) + 2 * c - 1], Milli(f.sc, S[1]))
                  /\ (T.cx => Near(f, T.fl, obs[T.n * (s - 1) + 2 * c], Milli(f.sc, S[2])))
     /\ UNCHANGED fvars

(* the wave number of a mode is n times 2 pi / size, -size/2 < n <= size/2 *)
Wave(c, obs) ==
  /\ obs = [d \in 1..ND |-> LET m == c[d] % sz[d] IN IF 2 * m > sz[d] THEN m - sz[d] ELSE m]
  /\ UNCHANGED fvars
=============================================================================

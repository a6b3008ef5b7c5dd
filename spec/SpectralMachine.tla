--------------------------- MODULE SpectralMachine ---------------------------
(* Binning of the modes of the lattice by their wave number, and spectral densities                       *)
(* (plumbing/spectraldensity.h).  The wave number of the mode x is k_d = 2 pi x_d / L_d with              *)
(* -L_d / 2 < x_d <= L_d / 2, and it belongs to the bin  floor((|k| / max)^p bins)  if this is in          *)
(* 0 .. bins - 1, otherwise to none.  WaveNo numbers are kept in units of pi and everything is done with      *)
(* whole numbers, so the bin is known exactly.  A mode which lies on the limit between two bins may, by     *)
(* rounding, be in either, except if all numbers are such that nothing is rounded; then the specification   *)
(* learns from one observation ("modes") where it is, and everything else has to agree with it.            *)
EXTENDS FourierMachine

VARIABLES bs,      \* the binnings
          q2       \* of each mode: |k|^2 M^2 / pi^2, M: common multiple of the lattice sizes
svars == <<fvars, bs, q2>>

ST == [z |-> [n |-> 2, cx |-> TRUE, fl |-> FALSE], c |-> [n |-> 2, cx |-> TRUE, fl |-> TRUE],
       v |-> [n |-> 4, cx |-> TRUE, fl |-> FALSE], d |-> [n |-> 1, cx |-> FALSE, fl |-> FALSE],
       f |-> [n |-> 1, cx |-> FALSE, fl |-> TRUE], w |-> [n |-> 3, cx |-> FALSE, fl |-> TRUE],
       r |-> [n |-> 2, cx |-> FALSE, fl |-> FALSE], n |-> [n |-> 1, cx |-> FALSE, fl |-> FALSE]]

(* ---- modes ---- *)
LcmAll(L) == FoldLeft(LAMBDA a, x : Lcm(a, x), 1, L)
WaveNo(x, L) == IF x > L \div 2 THEN x - L ELSE x
ModeQ(L, c) == LET M == LcmAll(L)
               IN FoldLeft(LAMBDA a, d : a + (2 * WaveNo(c[d], L[d]) * (M \div L[d])) * (2 * WaveNo(c[d], L[d]) * (M \div L[d])),
                           0, [d \in 1..Len(L) |-> d])
M2 == LcmAll(sz) * LcmAll(sz)
RECURSIVE Pow2(_)
Pow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ Pow2(n \div 2))

(* ---- a binning: bins, max and width as fractions of pi, twice the power ---- *)
Frac(a, b) == <<a \div Gcd(a, b), b \div Gcd(a, b)>>
Ceil(x) == (x[1] + x[2] - 1) \div x[2]
Times(x, n) == Frac(x[1] * n, x[2])
Over(x, n) == Frac(x[1], x[2] * n)
Ratio(x, y) == Frac(x[1] * y[2], x[2] * y[1])
MaxHalf == FoldLeft(LAMBDA a, L : IF L \div 2 > a THEN L \div 2 ELSE a, 1, sz)
Fresh(n, set) == [n |-> n, mx |-> <<1, 1>>, wd |-> Frac(1, n), pw |-> 2, set |-> set, plain |-> TRUE, at |-> <<>>]
NewBin(k, n) == bs' = [bs EXCEPT ![k] = IF n = 0 THEN Fresh(MaxHalf, FALSE) ELSE Fresh(n, TRUE)] /\ UNCHANGED <<fvars, q2>>
CopyBin(k, j) == bs' = [bs EXCEPT ![k] = bs[j]] /\ UNCHANGED <<fvars, q2>>
SetBinsOf(b, n) == [b EXCEPT !.n = n, !.set = TRUE, !.wd = Over(b.mx, n), !.at = <<>>]
Bins(k, n) == bs' = [bs EXCEPT ![k] = SetBinsOf(bs[k], n)] /\ UNCHANGED <<fvars, q2>>
\* another range: with as many bins as asked for, or with bins as wide as before
KMax(k, x) ==
  LET b == bs[k]
      n == Ceil(Ratio(x, b.wd))
  IN /\ bs' = [bs EXCEPT ![k] = IF b.set THEN [b EXCEPT !.mx = x, !.wd = Over(x, b.n), !.plain = TRUE, !.at = <<>>]
                                ELSE [b EXCEPT !.mx = Times(b.wd, n), !.n = n, !.plain = FALSE, !.at = <<>>]]
     /\ UNCHANGED <<fvars, q2>>
Width(k, w) ==
  LET b == bs[k]
      n == Ceil(Ratio(b.mx, w))
  IN /\ bs' = [bs EXCEPT ![k] = [b EXCEPT !.wd = w, !.n = n, !.mx = Times(w, n), !.set = FALSE, !.plain = FALSE, !.at = <<>>]]
     /\ UNCHANGED <<fvars, q2>>
Power(k, p) == bs' = [bs EXCEPT ![k] = [@ EXCEPT !.pw = p, !.at = <<>>]] /\ UNCHANGED <<fvars, q2>>

(* ---- the bin of a mode ---- *)
\* -1, 0, 1: (|k| / max)^p bins  <, =, >  i
Sign3(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Compare(b, s, i) ==
  LET x == q2[s] * b.mx[2] * b.mx[2]           \* (|k| / max)^2 = x / y
      y == M2 * b.mx[1] * b.mx[1]
      g == Gcd(x, y)
      u == x \div g
      v == y \div g
  IN CASE b.pw = 2 -> Sign3((u * b.n * b.n) - (i * i * v))
       [] b.pw = 4 -> Sign3((u * b.n) - (i * v))
       [] b.pw = 1 -> Sign3((u * b.n * b.n * b.n * b.n) - (i * i * i * i * v))
RECURSIVE Find(_, _, _)
Find(b, s, i) == IF i >= b.n THEN b.n ELSE IF Compare(b, s, i + 1) >= 0 THEN Find(b, s, i + 1) ELSE i
\* nothing is rounded: the mode is along one direction, and sizes and maximum are powers of two (times pi)
Unrounded(b, s) ==
  /\ b.plain /\ b.pw \in {2, 4} /\ Pow2(b.mx[1]) /\ Pow2(b.mx[2])
  /\ Cardinality({d \in 1..ND : co[s][d] # 0}) = 1
  /\ \A d \in 1..ND : co[s][d] = 0 \/ Pow2(sz[d])
Bin1(b, i) == IF i >= b.n THEN 0 ELSE i + 1           \* bins from 1 on, 0: none
Allowed(b, s) ==
  LET i == Find(b, s, 0)
  IN IF q2[s] = 0 \/ i = 0 \/ Unrounded(b, s) \/ Compare(b, s, i) # 0 THEN {Bin1(b, i)}
     ELSE {Bin1(b, i), Bin1(b, i - 1)}
Where(b) == IF b.at # <<>> THEN b.at
            ELSE [s \in 1..V |-> LET A == Allowed(b, s) IN IF Cardinality(A) = 1 THEN CHOOSE a \in A : TRUE ELSE -1]
Known(w) == \A s \in 1..V : w[s] >= 0
Modes(k, obs) ==
  /\ Len(obs) = V
  /\ \A s \in 1..V : obs[s] \in (IF bs[k].at = <<>> THEN Allowed(bs[k], s) ELSE {bs[k].at[s]})
  /\ bs' = [bs EXCEPT ![k].at = obs] /\ UNCHANGED <<fvars, q2>>

(* ---- what can be asked ---- *)
Near1(o, e, t) == Abs(o - e) <= t
Mio(x) == (x[1] * 1000000) \div x[2]
OnAll(blocks, P(_)) == \A i \in 1..Len(blocks) : P(blocks[i])
Show(k, blocks) ==
  /\ OnAll(blocks, LAMBDA o : /\ Len(o) = 4 /\ o[1] = bs[k].n /\ Near1(o[2], Mio(bs[k].mx), 2)
                              /\ Near1(o[3], Mio(bs[k].wd), 2) /\ o[4] = bs[k].pw)
  /\ UNCHANGED svars
CountIn(w, i) == Cardinality({s \in 1..V : w[s] = i})
Counts(k, blocks) ==
  LET w == Where(bs[k])
      e == [i \in 1..(bs[k].n + 2) |-> IF i = 1 \/ i = bs[k].n + 2 THEN 0 ELSE CountIn(w, i - 1)]
  IN Known(w) /\ OnAll(blocks, LAMBDA o : o = e) /\ UNCHANGED svars
Count(k, i, blocks) ==
  LET w == Where(bs[k])
      e == IF i < 0 \/ i >= bs[k].n THEN 0 ELSE CountIn(w, i + 1)
  IN Known(w) /\ OnAll(blocks, LAMBDA o : o = <<e>>) /\ UNCHANGED svars
\* square root, rounded down
RECURSIVE Root(_, _)
Root(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE Root(x, h)
Sqrt(x) == IF x = 0 THEN 0 ELSE Root(x, 32768)
\* the wave number in pi / 10^4
K4(s) == Sqrt(FoldLeft(LAMBDA a, d : LET u == (20000 * WaveNo(co[s][d], sz[d])) \div sz[d] IN a + (u * u), 0, [d \in 1..ND |-> d]))
Sum1(S, F(_)) == FoldLeft(LAMBDA a, s : IF s \in S THEN a + F(s) ELSE a, 0, [s \in 1..V |-> s])
\* average wave number in a bin, in pi / 10^4; undefined if it is empty
Avg(k, i, blocks) ==
  LET w == Where(bs[k])
      S == {s \in 1..V : w[s] = i + 1}
      e == IF i < 0 \/ i >= bs[k].n THEN 0 ELSE Sum1(S, K4) \div Cardinality(S)
  IN /\ Known(w)
     /\ (IF S = {} /\ i >= 0 /\ i < bs[k].n THEN TRUE ELSE OnAll(blocks, LAMBDA o : Near1(o[1], e, 5)))
     /\ UNCHANGED svars
\* the limits of a bin
Limit(b, i) ==
  CASE b.pw = 2 -> (((i * 10000) \div b.n) * b.mx[1]) \div b.mx[2]
    [] b.pw = 4 -> (10 * Sqrt((i * 1000000) \div b.n) * b.mx[1]) \div b.mx[2]
    [] b.pw = 1 -> (((i * i * 10000) \div (b.n * b.n)) * b.mx[1]) \div b.mx[2]
Limits(k, i, blocks) ==
  /\ OnAll(blocks, LAMBDA o : /\ Near1(o[1], Limit(bs[k], i), 15 * Ceil(bs[k].mx) + 5)
                              /\ Near1(o[2], Limit(bs[k], i + 1), 15 * Ceil(bs[k].mx) + 5))
  /\ UNCHANGED svars

SetS(t, k, seed) ==
  Put(<<t, k>>, [set |-> TRUE, base |-> [s \in 1..V |-> [c \in 1..ST[t].n |-> Val(s - 1, c - 1, seed)]],
                 sg |-> [d \in 1..ND |-> 1], sc |-> 1, ex |-> FALSE]) /\ UNCHANGED <<bs, q2>>
\* sums over bins, in sixteenths: of the numbers, of their squares
BinField(b, t, k, obs) ==
  LET w == Where(bs[b])
      f == Slot(<<t, k>>)
      n == ST[t].n
      e == [i \in 1..(bs[b].n * n) |-> Sum1({s \in 1..V : w[s] = 1 + ((i - 1) \div n)}, LAMBDA s : 16 * f.base[s][1 + ((i - 1) % n)])]
  IN f.set /\ Known(w) /\ obs = e /\ UNCHANGED svars
SquareSum(v) == FoldLeft(LAMBDA a, x : a + (x * x), 0, v)
SquareNorm(b, t, k, obs) ==
  LET w == Where(bs[b])
      f == Slot(<<t, k>>)
      e == [i \in 1..bs[b].n |-> Sum1({s \in 1..V : w[s] = i}, LAMBDA s : 16 * SquareSum(f.base[s]))]
  IN f.set /\ Known(w) /\ obs = e /\ UNCHANGED svars
\* the same of the transform
Complexes(t, f) == IF ST[t].cx THEN f
                   ELSE [f EXCEPT !.base = [s \in 1..V |-> [c \in 1..(2 * ST[t].n) |-> IF c % 2 = 1 THEN @[s][(c + 1) \div 2] ELSE 0]]]
Density(b, t, k, obs) ==
  LET w == Where(bs[b])
      g == Complexes(t, Slot(<<t, k>>))
      N == Order(g)
      nc == IF ST[t].cx THEN ST[t].n \div 2 ELSE ST[t].n
      \* power of a mode in sixteenths, and how far it may be off
      P == [s \in 1..V |-> IF w[s] = 0 THEN <<0, 0>> ELSE
             FoldLeft(LAMBDA a, c : LET S == Sum(g, N, s, c)
                                        x == Abs(S[1]) \div 31250
                                        y == Abs(S[2]) \div 31250
                                    IN <<a[1] + (((x * x) + (y * y)) \div 64), a[2] + ((x + y) \div 16) + 3>>,
                      <<0, 0>>, [c \in 1..nc |-> c])]
  IN /\ Slot(<<t, k>>).set /\ Known(w)
     /\ Len(obs) = bs[b].n
     /\ \A i \in 1..bs[b].n :
          LET S == {s \in 1..V : w[s] = i}
              e == Sum1(S, LAMBDA s : P[s][1])
          IN Near1(obs[i], e, 1 + Sum1(S, LAMBDA s : P[s][2]) + (IF ST[t].fl THEN (e \div 3000) + 10 ELSE 0))
     /\ UNCHANGED svars

SInit == Init /\ bs = [k \in 0..2 |-> Fresh(1, FALSE)] /\ q2 = <<0>>
SStart(L) == /\ Start(L)
             /\ q2' = [s \in 1..Prod(L) |-> ModeQ(L, Sites(L)[s])]
             /\ LET h == FoldLeft(LAMBDA a, x : IF x \div 2 > a THEN x \div 2 ELSE a, 1, L)
                IN bs' = [k \in 0..2 |-> Fresh(h, FALSE)]
=============================================================================

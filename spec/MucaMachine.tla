------------------------------ MODULE MucaMachine ------------------------------
(* Multicanonical weights (tools/multicanonical.cpp).  A weight is a piecewise linear function of an      *)
(* order parameter, given at the centres of bins; it decides on updates (on all ranks alike), and is       *)
(* iterated by one of four methods from the visits to the bins.                                            *)
(* Order parameters are in 1/64, weights in 1/10000, the size C of the updates in millionths.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, LogTable

VARIABLES mu,      \* the objects
          files    \* weight files, and the one written by the iterations (number -1)
mvars == <<mu, files>>

Inf == 2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Values(s) == {s[i] : i \in 1..Len(s)}
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : y >= x
\* division rounded towards the nearest
Div(a, b) == IF a >= 0 THEN ((2 * a) + b) \div (2 * b) ELSE -(((2 * (-a)) + b) \div (2 * b))

(* ---- logarithm (10^-5) of a positive integer, exponential (10^-6) of -x <= 0 (10^-4) ---- *)
RECURSIVE Ln(_)
Ln(n) == IF n < 256 THEN Ln(2 * n) - 69315
         ELSE LET RECURSIVE K(_, _)
                  K(m, k) == IF m < 512 THEN <<m, k>> ELSE K(m \div 2, k + 1)
                  mk == K(n, 0)
                  rem == n - (mk[1] * (2 ^ mk[2]))
              IN LogT[mk[1] - 255] + (69315 * mk[2]) + (IF n > 2000000 THEN (rem * 100) \div (n \div 1000) ELSE (rem * 1000) \div Largest({n \div 100, 1}))
ExpM(x) == IF x >= 168000 THEN 0
           ELSE LET j == x \div 1250
                    y == x % 1250
                IN (((ExpT[j + 1] \div 10) * (10000 - y + ((y * y) \div 20000))) \div 1000)

(* ---- objects ---- *)
Off == [on |-> FALSE]
Init == mu = [k \in 0..1 |-> Off] /\ files = [j \in -1..3 |-> [kind |-> "none"]]
Start == mu' = [k \in 0..1 |-> Off] /\ files' = [j \in -1..3 |-> [kind |-> "none"]]
Zeros(n) == [i \in 1..n |-> 0]
Meth == <<"direct", "smooth", "canonical", "direct">>
Fin == <<"all", "ends", "all">>
\* p: the parameters
Fresh(p, lim, w, t0) ==
  LET n == Len(w)
      m == IF Meth[p.meth + 1] = "direct" /\ p.meth = 0 /\ p.S <= 1 THEN "single" ELSE Meth[p.meth + 1]
  IN [on |-> TRUE, meth |-> m, hard |-> p.hard = 1, fin |-> Fin[p.fin + 1], S |-> p.S, iv |-> p.iv, cmin |-> 1000 * p.cmin,
      C |-> 1000 * p.C, lim |-> lim, cen |-> [i \in 1..n |-> (lim[i] + lim[i + 1]) \div 2], w |-> w,
      hits |-> Zeros(n), tot |-> Zeros(n), cnt |-> 0, flag |-> TRUE, ar |-> FALSE,
      cs |-> p.cs, mh |-> p.mh, mi |-> p.mi, oc |-> p.oc, upd |-> 0, lw |-> [i \in 1..n |-> <<>>],
      nsum |-> [i \in 1..n |-> 1], gsum |-> [i \in 1..n |-> p.ib], noc |-> w, ups |-> 0, t0 |-> t0]
\* equally wide bins, the first centred at the minimum, the last at the maximum
Equal(p) == LET h == (p.max - p.min) \div (p.n - 1)
            IN [i \in 1..(p.n + 1) |-> p.min - (h \div 2) + (h * (i - 1))]
Initialise(k, p, blocks) ==
  LET ok == p.wf < 0 \/ files[p.wf].kind = "ok"
  IN /\ \A i \in 1..Len(blocks) : blocks[i] = <<IF ok THEN 1 ELSE 0>>
     /\ mu' = [mu EXCEPT ![k] = IF ~ok THEN Off ELSE IF p.wf < 0 THEN Fresh(p, Equal(p), Zeros(p.n), 0)
                                ELSE Fresh(p, files[p.wf].lim, files[p.wf].w, files[p.wf].tol)]
     /\ UNCHANGED files

(* ---- the weight function ---- *)
Size(m) == Len(m.w)
Weight(m, x) ==
  LET n == Size(m)
  IN IF x <= m.cen[1] THEN IF m.hard /\ x < m.cen[1] THEN Inf ELSE m.w[1]
     ELSE IF x >= m.cen[n] THEN IF m.hard /\ x > m.cen[n] THEN Inf ELSE m.w[n]
     ELSE LET i == CHOOSE i \in 1..(n - 1) : m.cen[i] < x /\ x <= m.cen[i + 1]
          IN m.w[i] + Div((m.w[i + 1] - m.w[i]) * (x - m.cen[i]), m.cen[i + 1] - m.cen[i])
\* the canonical method takes logarithms, the others add
Tol(m) == 3 + m.t0 + (2 * m.ups) + (IF m.meth = "canonical" THEN 20 + (60 * m.ups) ELSE 0)
Near(m, o, e) == IF e = Inf THEN o = Inf ELSE Abs(o - e) <= Tol(m) + (Abs(e) \div 100000)
WFun(k, x, blocks) ==
  LET m == mu[k]
      e == Weight(m, x)
  IN /\ m.on
     /\ \A i \in 1..Len(blocks) : /\ Near(m, blocks[i][2], e)
                                  /\ blocks[i][2] = blocks[1][2]
                                  /\ (IF i = 1 THEN blocks[1][1] = blocks[1][2] ELSE blocks[i][1] = 0)
     /\ UNCHANGED mvars

(* ---- iteration ---- *)
\* the bin of x, 0 if none
Bin(m, x) == LET n == Size(m)
             IN IF x <= m.lim[1] \/ x >= m.lim[n + 1] THEN 0
                ELSE CHOOSE i \in 1..n : m.lim[i] < x /\ x <= m.lim[i + 1]
Based(w) == LET b == Least(Values(w)) IN [i \in 1..Len(w) |-> w[i] - b]
Finished(m, tot) ==
  CASE m.fin = "all" -> \A i \in 1..Len(tot) : tot[i] > 0
    [] m.fin = "ends" -> tot[1] > 0 /\ tot[Len(tot)] > 0
    [] m.fin = "second" -> tot[2] > 0
Smaller(C) == (2 * C) \div 3
\* after an update: smaller steps if it is time for that
Checked(m) == IF Finished(m, m.tot) THEN [m EXCEPT !.tot = Zeros(Len(@)), !.C = Smaller(@)] ELSE m
Continue(m) == m.C >= m.cmin
Direct(m, x) ==
  LET b == Bin(m, x)
      n == Size(m)
      h == IF b = 0 THEN m.hits ELSE [m.hits EXCEPT ![b] = @ + 1]
  IN IF m.cnt + 1 < m.S THEN [m |-> [m EXCEPT !.hits = h, !.cnt = @ + 1], up |-> FALSE]
     ELSE [m |-> Checked([m EXCEPT !.w = Based([i \in 1..n |-> m.w[i] + Div(m.C * h[i] * n, m.S * 100)]),
                                   !.tot = [i \in 1..n |-> m.tot[i] + h[i]], !.hits = Zeros(n), !.cnt = 0, !.ups = @ + 1]),
           up |-> TRUE]
Single(m, x) ==
  LET b == Bin(m, x)
      n == Size(m)
      m1 == [m EXCEPT !.w = IF b = 0 THEN @ ELSE [@ EXCEPT ![b] = @ + Div(m.C, 100)],
                      !.tot = IF b = 0 THEN @ ELSE [@ EXCEPT ![b] = @ + 1], !.cnt = @ + 1, !.ups = @ + 1]
  IN IF m1.cnt % m.iv # 0 THEN [m |-> m1, up |-> FALSE]
     ELSE [m |-> Checked([m1 EXCEPT !.w = Based(@)]), up |-> TRUE]
Kernel(d) == CASE d = 0 -> 5 [] d \in {-1, 1} -> 3 [] d \in {-2, 2} -> 1 [] OTHER -> 0
Smooth(m, x) ==
  LET b == Bin(m, x)
      n == Size(m)
      h == IF b = 0 THEN m.hits ELSE [i \in 1..n |-> m.hits[i] + Kernel(i - b)]
  IN IF m.cnt + 1 < m.S THEN [m |-> [m EXCEPT !.hits = h, !.cnt = @ + 1], up |-> FALSE]
     ELSE [m |-> Checked([m EXCEPT !.w = [i \in 1..n |-> m.w[i] + Div(m.C * (h[i] - h[1]), n * 100)],
                                   !.tot = [i \in 1..n |-> m.tot[i] + h[i]], !.hits = Zeros(n), !.cnt = 0, !.ups = @ + 1]),
           up |-> TRUE]
\* logarithm (10^-4) of the sum of exp(q_i)
LogSum(q) == LET M == Largest(Values(q))
                 s == FoldLeft(LAMBDA a, y : a + ExpM(M - y), 0, q)
             IN M + Div(Ln(s) - Ln(1000000), 10)
\* hep-lat/9804019, equations (6.12) and (6.13)
Canonical(m, x) ==
  LET b == Bin(m, x)
      n == Size(m)
      h == IF b = 0 THEN m.hits ELSE [m.hits EXCEPT ![b] = @ + 1]
      lw == IF b = 0 THEN m.lw ELSE [m.lw EXCEPT ![b] = Append(@, Weight(m, x))]
      nsum == [i \in 1..n |-> m.nsum[i] + h[i]]
      wid(i) == m.lim[i + 1] - m.lim[i]
      enough(i) == h[i] >= m.mh /\ h[i - 1] >= m.mh
      g(i) == h[i] + h[i - 1]
      lh(i) == LogSum(lw[i]) - Div(Ln(wid(i)), 10)       \* logarithm of the canonical histogram
      step(i) == LET d == m.noc[i] - m.noc[i - 1]
                 IN IF ~enough(i) THEN d ELSE Div((d * m.gsum[i]) + (g(i) * (lh(i) - lh(i - 1))), m.gsum[i] + g(i))
      new == FoldLeft(LAMBDA a, i : Append(a, a[i] + step(i + 1)), <<m.noc[1]>>, [i \in 1..(n - 1) |-> i])
      over(i) == Div(m.oc * Div(Ln(wid(1)) - Ln(wid(i)) + Ln(nsum[i]) - Ln(nsum[1]), 10), 100)
  IN IF m.cnt + 1 < m.cs THEN [m |-> [m EXCEPT !.hits = h, !.lw = lw, !.cnt = @ + 1], up |-> FALSE]
     ELSE [m |-> [m EXCEPT !.hits = Zeros(n), !.lw = [i \in 1..n |-> <<>>], !.cnt = 0, !.nsum = nsum,
                           !.gsum = [i \in 1..n |-> IF i > 1 /\ enough(i) THEN m.gsum[i] + g(i) ELSE m.gsum[i]],
                           !.noc = new, !.w = [i \in 1..n |-> new[i] + over(i)], !.upd = @ + 1, !.ups = @ + 1],
           up |-> TRUE]
\* a visit: [m: the object after it, up: the weights were updated (and written), go: the iteration is to continue]
Visit(m, x) ==
  LET v == CASE m.meth = "direct" -> Direct(m, x)
             [] m.meth = "single" -> Single(m, x)
             [] m.meth = "smooth" -> Smooth(m, x)
             [] m.meth = "canonical" -> Canonical(m, x)
  IN [m |-> v.m, up |-> v.up,
      go |-> IF m.meth = "canonical" THEN ~v.up \/ v.m.upd < m.mi ELSE Continue(v.m)]
Content(m) == [kind |-> "ok", lim |-> m.lim, cen |-> m.cen, w |-> m.w, tol |-> Tol(m)]
After(k, v) == /\ mu' = [mu EXCEPT ![k] = v.m]
               /\ files' = IF v.up THEN [files EXCEPT ![-1] = Content(v.m)] ELSE files
Bit(b) == IF b THEN 1 ELSE 0
Iterate(k, x, blocks) ==
  LET v == Visit(mu[k], x)
  IN /\ mu[k].on
     /\ \A i \in 1..Len(blocks) : blocks[i] = <<Bit(v.go)>>
     /\ After(k, v)

(* ---- decisions: the update is accepted if the random number (millionths) is below exp(W(old) - W(new)) ---- *)
Yes(m, old, new, r) ==      \* the decisions that are possible, within rounding
  LET a == Weight(m, old)
      b == Weight(m, new)
  IN IF b = Inf THEN {0}
     ELSE IF a = Inf THEN {1}
     ELSE LET d == b - a
              t == Tol(m)
              lo == ExpM(IF d + t <= 0 THEN 0 ELSE d + t)
              hi == ExpM(IF d - t <= 0 THEN 0 ELSE d - t)
          IN IF d <= -t \/ (d = 0 /\ r < 999000) THEN {1} ELSE IF r < lo - 200 THEN {1} ELSE IF r > hi + 200 THEN {0} ELSE {0, 1}
Decide(k, old, new, blocks) ==
  LET m == mu[k]
      dec == blocks[1][2]
      v == Visit(m, IF dec = 1 THEN new ELSE old)
  IN /\ m.on
     /\ dec \in Yes(m, old, new, blocks[1][1])
     /\ \A i \in 1..Len(blocks) : blocks[i][2] = dec
     /\ IF m.ar THEN After(k, [v EXCEPT !.m.flag = v.go]) ELSE UNCHANGED mvars

Continuous(k, y) == mu[k].on /\ mu' = [mu EXCEPT ![k].ar = (y = 1)] /\ UNCHANGED files
Flag(k, blocks) == /\ mu[k].on /\ \A i \in 1..Len(blocks) : blocks[i] = <<Bit(mu[k].flag)>>
                   /\ UNCHANGED mvars
SetFlag(k, y) == mu[k].on /\ mu' = [mu EXCEPT ![k].flag = (y = 1)] /\ UNCHANGED files
UserFinish(k) == mu[k].on /\ mu' = [mu EXCEPT ![k].fin = "second"] /\ UNCHANGED files

(* ---- files ---- *)
Write(k, j, obs) == /\ mu[k].on
                    /\ obs = <<Bit(j >= 0)>>
                    /\ files' = IF j < 0 THEN files ELSE [files EXCEPT ![j] = Content(mu[k])]
                    /\ UNCHANGED mu
Take(j) == /\ files' = IF files[-1].kind = "none" THEN files ELSE [files EXCEPT ![j] = files[-1], ![-1] = [kind |-> "none"]]
           /\ UNCHANGED mu
\* a file of the user; kinds 0, 1: good, with a header; 2: no title; 3: no data; 4: a line is cut
Make(j, kind, lim, w) ==
  /\ files' = [files EXCEPT ![j] = IF kind > 1 THEN [kind |-> "bad"] ELSE [kind |-> "ok", lim |-> lim, cen |-> <<>>, w |-> w, tol |-> 0]]
  /\ UNCHANGED mu
Drop(j) == files' = [files EXCEPT ![j] = [kind |-> "none"]] /\ UNCHANGED mu
File(j, obs) ==
  LET f == files[j]
      n == Len(f.w)
  IN /\ Len(obs) = (3 * n) + 1
     /\ \A i \in 1..n : /\ Abs(obs[(3 * i) - 2] - f.lim[i]) <= 0
                        /\ obs[(3 * i) - 1] = f.cen[i]
                        /\ Abs(obs[3 * i] - f.w[i]) <= f.tol + (Abs(f.w[i]) \div 100000)
     /\ obs[(3 * n) + 1] = f.lim[n + 1]
     /\ UNCHANGED mvars
=============================================================================

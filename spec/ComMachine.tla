----------------------------- MODULE ComMachine -----------------------------
(* Communication between ranks, as a program sees it (plumbing/com_mpi.h).                              *)
(* Every rank has registers holding sequences of integers; reg[k][r] is register k of rank r.           *)
EXTENDS Integers, Sequences, TLC

CONSTANT NR                \* registers 0 .. NR-1
VARIABLES np, reg
cvars == <<np, reg>>

Unknown == <<-2000000002>>     \* after a reduction to rank 0 only, the other ranks' value is anything
Ranks == 1..np
Init == np = 1 /\ reg = <<>>
Start(n) == np' = n /\ reg' = [k \in 0..(NR - 1) |-> [r \in 1..n |-> <<>>]]

\* element i (from 0) on rank r (from 0)
Val(p, r, i) == ((p.a * r + p.b * i + p.c) % p.m) + p.o
Set(p) == /\ reg' = [reg EXCEPT ![p.k] = [r \in Ranks |->
                 [i \in 1..((p.n + p.d * (r - 1)) % p.p) |-> Val(p, r - 1, i - 1)]]]
          /\ UNCHANGED np

Known(k) == \A r \in Ranks : reg[k][r] # Unknown
Has(k, n) == Known(k) /\ \A r \in Ranks : Len(reg[k][r]) >= n
Put(k, f(_)) == reg' = [reg EXCEPT ![k] = [r \in Ranks |-> f(r)]] /\ UNCHANGED np
Each(o, f(_)) == Len(o) = np /\ \A r \in Ranks : o[r] = f(r)

\* the first n elements replaced
Head1(s, t, n) == [i \in 1..Len(s) |-> IF i <= n THEN t[i] ELSE s[i]]

\* the first n elements of all ranks become those of the root
BcastN(k, n, root) == Has(k, n) /\ Put(k, LAMBDA r : Head1(reg[k][r], reg[k][root], n))
\* everything does, sizes included
BcastAll(k, root) == Known(k) /\ Put(k, LAMBDA r : reg[k][root])

Bcast2(k, j, root) ==
  /\ k # j /\ Has(k, 1) /\ Has(j, 1)
  /\ reg' = [reg EXCEPT ![k] = [r \in Ranks |-> Head1(@[r], reg[k][root], 1)],
                        ![j] = [r \in Ranks |-> Head1(@[r], reg[j][root], 1)]]
  /\ UNCHANGED np

Min(a, b) == IF a < b THEN a ELSE b
\* lists of strings: rank r's list is registers 0 .. ListLen(r)-1
ListLen(m, d, r) == (m + d * (r - 1)) % 5
BcastList(m, d, root, o) ==
  LET n == ListLen(m, d, root)
  IN /\ \A k \in 0..(NR - 1) : Known(k)
     /\ Each(o, LAMBDA r : <<n>>)
     /\ reg' = [k \in 0..(NR - 1) |-> IF k < n THEN [r \in Ranks |-> reg[k][root]] ELSE reg[k]]
     /\ UNCHANGED np

RECURSIVE Total(_, _, _), Product(_, _, _)
Total(k, i, r) == IF r = 0 THEN 0 ELSE reg[k][r][i] + Total(k, i, r - 1)
Product(k, i, r) == IF r = 0 THEN 1 ELSE reg[k][r][i] * Product(k, i, r - 1)
Reduced(k, n, all, f(_, _, _)) ==
  LET t == [i \in 1..n |-> f(k, i, np)]
  IN [r \in Ranks |-> IF all = 1 \/ r = 1 THEN Head1(reg[k][r], t, n)
                      ELSE IF n = 0 THEN reg[k][r] ELSE Unknown]
Sum(k, n, all)  == Has(k, n) /\ reg' = [reg EXCEPT ![k] = Reduced(k, n, all, Total)] /\ UNCHANGED np
Prod(k, n, all) == Has(k, n) /\ reg' = [reg EXCEPT ![k] = Reduced(k, n, all, Product)] /\ UNCHANGED np

\* what the reduction of a single value returns
Returned(o, k, all, f(_, _, _)) ==
  Len(o) = np /\ \A r \in Ranks : (all = 1 \/ r = 1) => o[r] = <<f(k, 1, np)>>

\* sums of whole registers of equal length on all ranks, collected and done together
Batch(all, ks) ==
  /\ \A j \in 1..Len(ks) : Known(ks[j]) /\ \A r \in Ranks : Len(reg[ks[j]][r]) = Len(reg[ks[j]][1])
  /\ reg' = [k \in 0..(NR - 1) |-> IF \E j \in 1..Len(ks) : ks[j] = k
                                   THEN Reduced(k, Len(reg[k][1]), all, Total) ELSE reg[k]]
  /\ UNCHANGED np

Send(k, from, to, j) ==
  /\ from # to /\ Known(k) /\ Len(reg[k][from]) >= 1
  /\ reg' = [reg EXCEPT ![j][to] = <<reg[k][from][1]>>] /\ UNCHANGED np
SendVector(k, from, to, j) ==
  /\ from # to /\ Known(k) /\ Known(j)
  /\ reg' = [reg EXCEPT ![j][to] = reg[k][from]] /\ UNCHANGED np

Left(r) == IF r = 1 THEN np ELSE r - 1
=============================================================================

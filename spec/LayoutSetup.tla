----------------------------- MODULE LayoutSetup -----------------------------
(***************************************************************************)
(* How the lattice is divided over the ranks (setup_layout_generic.cpp).    *)
(* For every size and rank count: enlarge one direction until the volume is *)
(* divisible by the number of ranks (least added "ghost" sites), slice the  *)
(* box by the prime factors of the number of ranks, largest first, always   *)
(* the longest divisible direction, preferring one sliced before.  Slices   *)
(* of less than 2 sites fail; the second attempt enlarges another           *)
(* direction.  Checked: the division has exactly np parts, the site ranges  *)
(* tile each direction, no rank is without sites, the owner formula and the *)
(* ranges agree.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS ND, MaxSize, MaxRanks, Fault

VARIABLES sz, np, pc, mdir, second, ghosts, nsize, node, ndiv, todo
vars == <<sz, np, pc, mdir, second, ghosts, nsize, node, ndiv, todo>>
D == 1..ND
Primes == <<2, 3, 5, 7, 11, 13>>
Huge == 1000000

RECURSIVE Prod(_, _)
Prod(q, k) == IF k = 0 THEN 1 ELSE q[k] * Prod(q, k - 1)
Vol(q) == Prod(q, ND)
RECURSIVE Factors(_, _)
Factors(n, k) == IF k = 0 THEN <<>>       \* largest prime first
                 ELSE IF n % Primes[k] = 0 THEN <<Primes[k]>> \o Factors(n \div Primes[k], k)
                 ELSE Factors(n, k - 1)
RECURSIVE Grow(_, _, _)
Grow(n, co, m) == IF (n * co) % m = 0 THEN n ELSE Grow(n + 1, co, m)

Init == /\ sz \in [D -> 1..MaxSize] /\ np \in 1..MaxRanks
        /\ Prod(Factors(np, Len(Primes)), Len(Factors(np, Len(Primes)))) = np
        /\ pc = "grow" /\ mdir = 1 /\ second = FALSE
        /\ ghosts = [d \in D |-> 0] /\ nsize = [d \in D |-> 0] /\ node = [d \in D |-> 0] /\ ndiv = [d \in D |-> 1] /\ todo = <<>>

GrowAll == /\ pc = "grow"
           /\ LET co(d) == Vol(sz) \div sz[d]
                  n == [d \in D |-> Grow(sz[d], co(d), np)]
              IN nsize' = n /\ ghosts' = [d \in D |-> (n[d] - sz[d]) * co(d)]
           /\ pc' = "choose" /\ UNCHANGED <<sz, np, mdir, second, node, ndiv, todo>>
RECURSIVE Least(_, _)
Least(m, d) == IF d > ND THEN m ELSE Least(IF ghosts[m] > ghosts[d] THEN d ELSE m, d + 1)
Choose == /\ pc = "choose"
          /\ LET m == Least(mdir, 1) IN
               mdir' = m /\ node' = [d \in D |-> IF d = m THEN nsize[d] ELSE sz[d]]
          /\ ndiv' = [d \in D |-> 1] /\ todo' = Factors(np, Len(Primes)) /\ pc' = "slice"
          /\ UNCHANGED <<sz, np, second, ghosts, nsize>>
Slice == /\ pc = "slice" /\ todo # <<>>
         /\ LET p == todo[1]
                ok == {d \in D : node[d] % p = 0 /\ node[d] > 1}
            IN /\ ok # {}
               /\ LET big == CHOOSE s \in {node[d] : d \in ok} : \A d \in ok : node[d] <= s
                      c1 == {d \in ok : node[d] = big /\ ndiv[d] > 1}
                      c2 == {d \in ok : node[d] = big}
                      c == IF c1 # {} THEN c1 ELSE c2
                      d0 == CHOOSE d \in c : \A e \in c : e <= d
                  IN /\ node' = [node EXCEPT ![d0] = @ \div p]
                     /\ ndiv' = [ndiv EXCEPT ![d0] = @ * (IF Fault = "once" THEN 2 ELSE p)]
         /\ todo' = Tail(todo) /\ UNCHANGED <<sz, np, pc, mdir, second, ghosts, nsize>>
Judge == /\ pc = "slice" /\ todo = <<>>
         /\ LET fail == \E d \in D : node[d] < (IF Fault = "thin" THEN 1 ELSE 2) IN
              IF ~fail THEN pc' = "done" /\ UNCHANGED <<second, ghosts>>
              ELSE IF ~second THEN pc' = "choose" /\ second' = TRUE /\ ghosts' = [ghosts EXCEPT ![mdir] = Huge]
              ELSE pc' = "refused" /\ UNCHANGED <<second, ghosts>>
         /\ UNCHANGED <<sz, np, mdir, nsize, node, ndiv, todo>>
Next == GrowAll \/ Choose \/ Slice \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------ what has to hold at the end
Done == pc = "done"
Owner(d, x) == (x * ndiv[d]) \div sz[d]                   \* node_rank
\* setup_node_divisors: first coordinate of each division; the last entry is the size
First(d, n) == IF n >= ndiv[d] THEN sz[d]
               ELSE CHOOSE x \in 0..sz[d] : (x * ndiv[d]) \div sz[d] >= n /\ \A y \in 0..(x - 1) : (y * ndiv[d]) \div sz[d] < n
NoStuck == pc = "slice" /\ todo # <<>> => \E d \in D : node[d] % todo[1] = 0 /\ node[d] > 1    \* "CANNOT HAPPEN"
AllRanks == Done => Prod(ndiv, ND) = np
NoEmptyRank == Done => \A d \in D : \A n \in 0..(ndiv[d] - 1) : First(d, n + 1) > First(d, n)
OwnerInRange == Done => \A d \in D : \A x \in 0..(sz[d] - 1) :
                  Owner(d, x) \in 0..(ndiv[d] - 1) /\ x >= First(d, Owner(d, x)) /\ x < First(d, Owner(d, x) + 1)
Even == Done => \A d \in D : \A n, m \in 0..(ndiv[d] - 1) :
                  LET a == First(d, n + 1) - First(d, n)  b == First(d, m + 1) - First(d, m) IN a - b \in {-1, 0, 1}
Terminates == <>(pc \in {"done", "refused"})
=============================================================================

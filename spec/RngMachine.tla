----------------------------- MODULE RngMachine -----------------------------
(* The random numbers of a run (plumbing/random.h, shuffle.h).                                          *)
(* What a draw gives is a function of the seed and of what has been drawn since: the histories form a   *)
(* tree, a draw seen before gives the same numbers again, in the same run or in a new one with the same  *)
(* number of ranks; any other gives numbers different from all since the seeding and after other seeds.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sz,       \* size of the lattice
          np,
          cur,      \* where we are in the tree; 0: not seeded
          root,     \* the seeding it started from
          tree,     \* <<node, operation>> -> [to, obs]
          path,     \* node -> numbers drawn on the way to it
          drawn     \* seeding -> all numbers drawn after it
rvars == <<sz, np, cur, root, tree, path, drawn>>

Init == sz = <<>> /\ np = 1 /\ cur = 0 /\ root = 0 /\ tree = <<>> /\ path = <<>> /\ drawn = <<>>
Start(n, s) == np' = n /\ sz' = s /\ cur' = 0 /\ root' = 0 /\ tree' = <<>> /\ path' = <<>> /\ drawn' = <<>>
\* the program is run again
Restart == cur' = 0 /\ root' = 0 /\ UNCHANGED <<sz, np, tree, path, drawn>>

\* 0: the seed is made from the time, never the same
Seed(s) ==
  IF s # 0 /\ <<0, s>> \in DOMAIN tree
  THEN /\ cur' = tree[<<0, s>>].to /\ root' = cur'
       /\ UNCHANGED <<sz, np, tree, path, drawn>>
  ELSE LET n == Len(path) + 1
       IN /\ cur' = n /\ root' = n
          /\ path' = Append(path, {})
          /\ drawn' = drawn @@ (n :> {})
          /\ tree' = IF s = 0 THEN tree ELSE tree @@ (<<0, s>> :> [to |-> n, obs |-> <<>>])
          /\ UNCHANGED <<sz, np>>

\* a step o with observation obs, drawing the numbers nums (a sequence)
nd == Len(sz)
Range(q) == {q[i] : i \in DOMAIN q}
Step(o, obs, nums) ==
  IF <<cur, o>> \in DOMAIN tree
  THEN /\ obs = tree[<<cur, o>>].obs
       /\ cur' = tree[<<cur, o>>].to
       /\ UNCHANGED <<sz, np, root, tree, path, drawn>>
  ELSE LET S == Range(nums)
           n == Len(path) + 1
       IN /\ Cardinality(S) = Len(nums)      \* all different, on all ranks and sites
          /\ S \cap path[cur] = {}           \* and from all since the seeding
          /\ \A q \in DOMAIN drawn \ {root} : S \cap drawn[q] = {}      \* and after other seeds
          /\ drawn' = [drawn EXCEPT ![root] = @ \cup S]
          /\ path' = Append(path, path[cur] \cup S)
          /\ cur' = n
          /\ tree' = tree @@ (<<cur, o>> :> [to |-> n, obs |-> obs])
          /\ UNCHANGED <<sz, np, root>>

\* a block of each rank: 1 (in range), then two integers per number
Numbers(b) == [i \in 1..((Len(b) - 1) \div 2) |-> <<b[2 * i], b[2 * i + 1]>>]
RECURSIVE Gather(_, _)
Gather(obs, r) == IF r = 0 THEN <<>> ELSE Gather(obs, r - 1) \o Numbers(obs[r])
RECURSIVE Count(_, _)
Count(obs, r) == IF r = 0 THEN 0 ELSE Count(obs, r - 1) + (Len(obs[r]) - 1) \div 2
Draw(o, obs, perrank) ==
  /\ cur # 0 /\ Len(obs) = np
  /\ \A r \in 1..np : obs[r][1] = 1 /\ (perrank = -1 \/ Len(obs[r]) = 1 + 2 * perrank)
  /\ Step(o, obs, Gather(obs, np))

Permutation(w, n) == Len(w) = n /\ Range(w) = 0..(n - 1)
\* lists shuffled by each rank for itself
Shuffle(o, obs, n) == /\ cur # 0 /\ Len(obs) = np /\ (\A r \in 1..np : Permutation(obs[r], n))
                      /\ Step(o, obs, <<>>)
\* orders all ranks agree about
Common(o, obs, n) == /\ Shuffle(o, obs, n) /\ \A r \in 1..np : obs[r] = obs[1]

\* counts k of n trials with probability p/1000: within nine standard deviations or so
Sq(x) == x * x
Near(k, n, p) == LET e == (n \div 1000) * p
                     d == (IF k > e THEN k - e ELSE e - k) \div 30
                 IN d <= 40000 /\ Sq(d) <= (n \div 100) + 100
=============================================================================

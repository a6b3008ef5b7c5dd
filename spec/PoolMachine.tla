---------------------------- MODULE PoolMachine ----------------------------
(* A memory pool (plumbing/memory_pool.h).                                                            *)
(* blocks: all memory the pool holds, each with its size and the handle using it (0: free).           *)
(* A request is served by a free block of suitable size, the smallest one there is, if there is any:  *)
(* at least as large as asked for, and less than twice that; else by new memory.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MinSize
VARIABLES blocks,     \* function: block -> [size, user]
          next,       \* number of the next new block
          count       \* [allocs, real]
pvars == <<blocks, next, count>>

None == <<>>
Init == blocks = None /\ next = 1 /\ count = [allocs |-> 0, real |-> 0]

Max(a, b) == IF a > b THEN a ELSE b
FreeBlocks == {b \in DOMAIN blocks : blocks[b].user = 0}
Suited(req) == {b \in FreeBlocks : blocks[b].size = req \/ (blocks[b].size > req /\ blocks[b].size < 2 * req)}
Best(req) == {b \in Suited(req) : \A c \in Suited(req) : blocks[b].size <= blocks[c].size}
Holds(h) == {b \in DOMAIN blocks : blocks[b].user = h}

Fresh == blocks' = None /\ next' = 1 /\ count' = [allocs |-> 0, real |-> 0]

\* handle h asks for size bytes and is given block b
Alloc(h, size, b) ==
  LET req == Max(size, MinSize)
  IN /\ h # 0 /\ Holds(h) = {}
     /\ IF Suited(req) # {}
        THEN /\ b \in Best(req)
             /\ blocks' = [blocks EXCEPT ![b].user = h]
             /\ next' = next
             /\ count' = [count EXCEPT !.allocs = @ + 1]
        ELSE /\ b = next
             /\ blocks' = blocks @@ (b :> [size |-> req, user |-> h])
             /\ next' = next + 1
             /\ count' = [allocs |-> count.allocs + 1, real |-> count.real + 1]

Free(h) == /\ Holds(h) # {}
           /\ blocks' = [b \in DOMAIN blocks |-> IF blocks[b].user = h THEN [blocks[b] EXCEPT !.user = 0] ELSE blocks[b]]
           /\ UNCHANGED <<next, count>>

\* the free blocks, and only these, go back to the system
Purge(released) == /\ released = FreeBlocks
                   /\ blocks' = [b \in DOMAIN blocks \ FreeBlocks |-> blocks[b]]
                   /\ UNCHANGED <<next, count>>

RECURSIVE SumSizes(_)
SumSizes(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN blocks[b].size + SumSizes(S \ {b})

Stat(o) == o = <<Cardinality(DOMAIN blocks), SumSizes(DOMAIN blocks), count.allocs, count.real>>

\* facts about the machine
OneUser == \A b, c \in DOMAIN blocks : (blocks[b].user # 0 /\ blocks[b].user = blocks[c].user) => b = c
LargeEnough == \A b \in DOMAIN blocks : blocks[b].size >= MinSize
=============================================================================

------------------------------ MODULE PoolList ------------------------------
(* The list the pool keeps, with its search from the first block that may be free, against PoolMachine: *)
(* every step of the list is a step of the machine (Refines), for all programs over the given handles   *)
(* and sizes with at most MaxBlocks blocks.                                                             *)
EXTENDS PoolMachine

CONSTANTS Handles, Sizes, MaxBlocks, MaxOps, Fault
VARIABLES list,      \* sequence of [id, size, used]
          first,     \* blocks before it are in use (0-based as in the code)
          ops, step  \* step: the last operation, for the refinement and for replays
lvars == <<list, first, ops, step>>

LInit == Init /\ list = <<>> /\ first = 0 /\ ops = 0 /\ step = <<"new">>

\* the scan: from position first; a perfect match ends it
RECURSIVE Scan(_, _, _, _)
Scan(i, req, best, ff) ==      \* i 1-based; best, ff: positions found, 0: none
  IF i > Len(list) THEN <<best, ff>>
  ELSE IF list[i].used THEN Scan(i + 1, req, best, ff)
  ELSE LET f2 == IF ff = 0 THEN i ELSE ff
       IN IF list[i].size = req THEN <<i, f2>>
          ELSE IF list[i].size > req /\ list[i].size < 2 * req /\ (best = 0 \/ list[best].size > list[i].size)
               THEN Scan(i + 1, req, i, f2)
               ELSE Scan(i + 1, req, best, f2)

LAlloc(h, size) ==
  LET req == Max(size, MinSize)
      sc  == Scan(first + 1, req, 0, 0)
      ff  == IF sc[2] = 0 THEN Len(list) ELSE sc[2] - 1
      pos == sc[1]
      id  == IF pos = 0 THEN next ELSE list[pos].id
  IN /\ first' = Max(first, ff)
     /\ list' = IF pos = 0 THEN Append(list, [id |-> next, size |-> req, used |-> TRUE])
                ELSE [list EXCEPT ![pos].used = TRUE]
     /\ step' = <<"alloc", h, size>>
     /\ IF ENABLED Alloc(h, size, id) THEN Alloc(h, size, id) ELSE UNCHANGED pvars

LFree(h) ==
  LET b == CHOOSE b \in DOMAIN blocks : blocks[b].user = h
      pos == CHOOSE i \in 1..Len(list) : list[i].id = b
  IN /\ Holds(h) # {}
     /\ list' = [list EXCEPT ![pos].used = FALSE]
     /\ first' = IF Fault = "nofirst" \/ first <= pos - 1 THEN first ELSE pos - 1
     /\ Free(h)
     /\ step' = <<"free", h>>

InUse(e) == e.used
LPurge == /\ list # <<>> /\ step # <<"purge">>
          /\ list' = SelectSeq(list, InUse)
          /\ first' = first
          /\ Purge({list[i].id : i \in {j \in 1..Len(list) : ~list[j].used}})
          /\ step' = <<"purge">>

LNext == /\ ops < MaxOps /\ ops' = ops + 1
         /\ \/ \E h \in Handles, s \in Sizes : Holds(h) = {} /\ Cardinality(DOMAIN blocks) < MaxBlocks /\ LAlloc(h, s)
            \/ \E h \in Handles : LFree(h)
            \/ LPurge

\* the list is the machine's set of blocks, and what is before first is in use
Same == /\ {list[i].id : i \in 1..Len(list)} = DOMAIN blocks
        /\ \A i \in 1..Len(list) : /\ blocks[list[i].id].size = list[i].size
                                   /\ (blocks[list[i].id].user # 0) = list[i].used
        /\ \A i, j \in 1..Len(list) : i # j => list[i].id # list[j].id
FirstOk == first <= Len(list) /\ \A i \in 1..first : list[i].used
LInv == Same /\ FirstOk /\ OneUser /\ LargeEnough
LView == <<blocks, list, first, next>>
=============================================================================

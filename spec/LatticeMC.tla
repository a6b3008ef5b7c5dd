----------------------------- MODULE LatticeMC -----------------------------
(* Checks the geometry operators themselves for every size up to MaxLen in up to MaxDim directions. *)
EXTENDS Lattice, TLC
CONSTANTS MaxLen, MaxDim
VARIABLE sz
Init == sz \in UNION {[1..n -> 1..MaxLen] : n \in 1..MaxDim}
Next == UNCHANGED sz
Inv == GeometryOK(Geometry(sz))
=============================================================================

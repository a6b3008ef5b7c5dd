------------------------------- MODULE GaugeMC -------------------------------
(* Facts about the gauge model itself, for every pair of fields and transformations with seeds up to Seeds: the *)
(* links form a group, loops do not change under gauge transformations and staples transform like links.        *)
EXTENDS GaugeMachine
CONSTANTS Digits,     \* the size, a digit per direction
          Colours, Seeds
RECURSIVE SizeOf(_)
SizeOf(n) == IF n = 0 THEN <<>> ELSE Append(SizeOf(n \div 10), n % 10)
Size == SizeOf(Digits)
Field0(s) == [d \in Dirs |-> Content(d - 1, s)]
MCInit == geo = Geometry(Size) /\ grp = Colours /\ \E s \in 0..Seeds : u = <<Field0(s)>>
MCNext == /\ Len(u) < 3
          /\ \E s \in 0..Seeds : u' = Append(u, Transformed(u[Len(u)], Content(7, s)))
          /\ UNCHANGED <<geo, grp>>
MCSpec == MCInit /\ [][MCNext]_gvars
GroupInv == GroupOK(Colours)
\* every field of the history has the same loops as the first, and its staples transform with it
GaugeInv == \A k \in 1..Len(u) : /\ PlaqSum(u[k]) = PlaqSum(u[1])
                                 /\ RectSum(u[k]) = RectSum(u[1])
                                 /\ PlaqMax(u[k]) = PlaqMax(u[1])
StapleInv == Len(u) < 2 => \A s \in 0..Seeds : Invariant(u[1], Content(7, s))
=============================================================================

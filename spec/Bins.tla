---------------------------------- MODULE Bins ----------------------------------
EXTENDS BinOps, FiniteSets, TLC, Json
CONSTANTS MaxSide
VARIABLES side, bin, off
vars == <<side, bin, off>>
Offs == {FRat(k, 10) : k \in {1, 5, 9}} \cup {FDec(999, 3)}
Init == side \in 1..MaxSide /\ bin = 0 /\ off = F0
Next == \/ bin < 2 * side * side - 1 /\ bin' = bin + 1 /\ UNCHANGED <<side, off>>
        \/ off = F0 /\ off' \in Offs /\ UNCHANGED <<side, bin>>
Spec == Init /\ [][Next]_vars
P == PointOf(bin, side, off)
(* every bin is a cell, every cell has its bin, and a point of a cell finds it    *)
There == /\ FGe(P[1], F0) /\ FLt(P[1], FInt(2)) /\ FGe(P[2], F0) /\ FLt(P[2], F1)
         /\ (off # F0 \/ Exact(side)) => BinsOf(P[1], P[2], side) = {bin}
         /\ bin \in BinsOf(P[1], P[2], side)
Unfold == \E i \in 0..(2*side - 1), j \in 0..(side - 1) : BinOf(i, j, side) = bin /\ i = bin \div side /\ j = bin % side
(* first square = sky, second = ground                                           *)
Sky == LET d == SkyDir(bin, side) IN IF bin >= Ground(side) THEN d = <<F0, F0, FNeg(F1)>> ELSE FGt(d[3], F0)
(* a sky bin's direction finds its bin                                           *)
SkyBack == (off = F0 /\ bin < Ground(side)) =>
              LET w == UV(SkyDir(bin, side), FALSE) IN BinsOf(w[1], w[2], side) = {bin}
(* within just over half a cell of a centre: the cell and those touching it       *)
Touch == (off = FRat(1, 2) /\ bin < Ground(side)) =>
   SkyNear(P, side, FRat(51, 100)) =
     {b \in 0..(side * side - 1) : (b \div side) - (bin \div side) \in {-1, 0, 1} /\ (b % side) - (bin % side) \in {-1, 0, 1}}
(* the far edges close the last cells                                             *)
Far == /\ JJ(F1, side) = {side - 1} /\ II(F1, side, 1) = {side - 1}
       /\ II(FInt(2), side, 2) = {2*side - 1} /\ II(F1, side, 2) \subseteq {side, 2*side - 1}
Emit == off = F0 => PrintT("CASE " \o ToJson(<<side, bin>>))
===============================================================================

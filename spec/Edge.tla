----------------------------------- MODULE Edge -----------------------------------
(* A disk moving across the edge of the view, and rings of rays being corrected.   *)
EXTENDS EdgeOps, TLC, Json
CONSTANTS HalfDegs, Steps, Sizes, Rings
VARIABLES half, b, i, ring, area
vars == <<half, b, i, ring, area>>
A == FRad(FInt(half))
B == FRad(FDivI(FInt(b), 100))
Init == /\ half \in HalfDegs /\ b \in Sizes /\ i = 1 /\ ring \in Rings
        /\ area = F0
(* the centre goes from inside touching to outside touching                        *)
Dist(k) == FAdd(FSub(A, B), FDivI(FMulI(B, 2 * k), Steps))
Next == i < Steps - 1 /\ i' = i + 1 /\ area' = Lens(A, B, Dist(i)) /\ UNCHANGED <<half, b, ring>>
Spec == Init /\ [][Next]_vars
Disk == FMul(FPi, FSq(B))
L == Lens(A, B, Dist(i))
Within == FGt(L, F0) /\ FLt(L, Disk)
Falls == i > 1 => FLt(L, area)
(* strip by strip across the disk                                                  *)
N == 60
Slice(k) == LET s == FDivI(FMulI(B, 2*k + 1 - N), N)            \* offset from the line of centres
                w == FSqrt(FSub(FSq(B), FSq(s)))
                e == FSub(FSqrt(FSub(FSq(A), FSq(s))), Dist(i))   \* edge of the view, from the disk's centre
                lo == FNeg(w) hi == FMin(w, e)
            IN IF FLe(hi, lo) THEN F0 ELSE FSub(hi, lo)
Sliced == FNear(FDivI(FMul(FSum([k \in 1..N |-> Slice(k - 1)]), FMulI(B, 2)), N), L, FRat(1, 100), FMul(Disk, FRat(1, 200)))
ChordIn == LET x == ChordAt(A, B, Dist(i)) IN FLt(x, A) /\ FGt(x, FSub(Dist(i), B))
(* rings of rays over the view; ring: percent by which they cover too much         *)
RS == [k \in 1..24 |-> LET t == FMul(A, FRat(2*((k - 1) \div 4) + 1, 12)) IN
        [t |-> t, o |-> FMul(FDivI(ConeArea(FMulI(FDeg(A), 2), FALSE), 24), FRat(100 + ring, 100))]]
Va == ConeArea(FInt(2*half), FALSE)
Fits == i = 1 => LET c == Corrected(RS, A, Va, F1) on == {k \in 1..24 : c[k] # RS[k].o} IN
  /\ FNear(FSum(c), Va, FEps[9], F0)
  /\ \A k \in 1..24 : FGe(c[k], F0)
  /\ \A j \in on : \A k \in 1..24 : FGe(RS[k].t, RS[j].t) => k \in on
Emit == i = 1 => PrintT("CASE " \o ToJson([half |-> half, b |-> b, ring |-> ring]))
===============================================================================

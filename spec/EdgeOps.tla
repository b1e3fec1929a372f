---------------------------------- MODULE EdgeOps ----------------------------------
(* Rays at the edge of a view: bright ones just outside are clipped, the solid     *)
(* angles of the others are corrected to the area of the view.                     *)
EXTENDS MetOps
(* disks of radius a (the view) and b (the ray) with centres d apart, in angles    *)
(* taken as plane lengths: distance of the common chord, and the common area       *)
ChordAt(a, b, d) == FDiv(FAdd(FSub(FSq(a), FSq(b)), FSq(d)), FMulI(d, 2))
HalfChord(a, x) == FSqrt(FSub(FSq(a), FSq(x)))
Lens(a, b, d) ==
  LET x == ChordAt(a, b, d) y == HalfChord(a, x) IN
  FSub(FAdd(FMul(FSq(a), FAtan2(y, x)), FMul(FSq(b), FAtan2(y, FSub(d, x)))), FMul(y, d))
DiskRadius(o) == FSqrt(FDiv(o, FPi))
Crosses(a, b, d) == FGt(d, FSub(a, b)) /\ FLt(d, FAdd(a, b))
(* the direction at angle t from the line of sight, on the side of c               *)
OnRadius(c, t) == LET h == Hyp(c[1], c[2]) IN
  << FMul(FSin(t), FDiv(c[1], h)), FMul(FSin(t), FDiv(c[2], h)), FCos(t) >>
(* the correction: rays (angle t, solid angle o) within their side of the edge     *)
(* share the excess; the side grows until they can bear it                         *)
NearEdge(rs, half, g) == [k \in 1..Len(rs) |-> FGt(rs[k].t, FSub(half, FMul(FSqrt(rs[k].o), g)))]
RECURSIVE Corrected(_, _, _, _)
Corrected(rs, half, area, g) ==
  LET on == NearEdge(rs, half, g)
      tot == FSum([k \in 1..Len(rs) |-> IF on[k] THEN rs[k].o ELSE F0])
      excess == FSub(FSum([k \in 1..Len(rs) |-> rs[k].o]), area)
  IN IF tot = F0 THEN [k \in 1..Len(rs) |-> rs[k].o]
     ELSE IF FLt(tot, excess) THEN Corrected(rs, half, area, FMul(g, FRat(11, 10)))
     ELSE LET f == FSub(F1, FDiv(excess, tot)) IN
          [k \in 1..Len(rs) |-> IF on[k] THEN FMul(rs[k].o, f) ELSE rs[k].o]
===============================================================================

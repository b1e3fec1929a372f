---------------------------------- MODULE Cone ----------------------------------
EXTENDS ConeOps, TLC, Json, FiniteSets
CONSTANTS Angles, G
VARIABLES d, va, fr, edge, row, sum
vars == <<d, va, fr, edge, row, sum>>
Dirs == {<<0, 0, 1>>, <<0, 0, -1>>, <<0, 1, 0>>, <<-1, 2, 1>>, <<3, -1, -2>>}
U(t) == Unit(<<FInt(t[1]), FInt(t[2]), FInt(t[3])>>)
Va == FInt(IF va = 360 THEN 180 ELSE va)
Init == /\ d \in Dirs /\ va \in Angles /\ fr = Frame(U(d)) /\ edge = EdgeOf(Va)
        /\ row = 0 /\ sum = F0
P(i, j) == << FRat(2*i + 1, 2*G), FRat(2*j + 1, 2*G) >>
InDisk(p) == FLe(Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2])), Half2[1])
Row(i) == FSum([j \in 1..G |-> IF InDisk(P(i, j - 1)) THEN PixOmega(edge, P(i, j - 1), G) ELSE F0])
Next == row < G /\ row' = row + 1 /\ sum' = FAdd(sum, Row(row)) /\ UNCHANGED <<d, va, fr, edge>>
Spec == Init /\ [][Next]_vars
(* the pixels of the image cover the cone of the edge                             *)
Covers == row = G => FNear(sum, FMul(TwoPi, FSub(F1, FCos(edge))), FRat(2, G), F0)
Hemi == (row = G /\ va = 180) => FNear(sum, ConeArea(Va, FALSE), FRat(2, G), F0)
(* the density is what displacing a ray by a small pixel sweeps                   *)
H == FEps[6]
Swept == row = 0 => \A k \in 0..(G-1) :
  LET p == P(k, (k * 7) % G)
      dx == VSub(RayOf(fr, edge, <<FAdd(p[1], H), p[2]>>), RayOf(fr, edge, <<FSub(p[1], H), p[2]>>))
      dy == VSub(RayOf(fr, edge, <<p[1], FAdd(p[2], H)>>), RayOf(fr, edge, <<p[1], FSub(p[2], H)>>))
  IN FNear(Length3(Cross(dx, dy)), FMul(PixOmega(edge, p, 1), FMulI(FSq(H), 4)), FEps[4], F0)
Positive == row < G => \A j \in 0..(G-1) : InDisk(P(row, j)) => FGt(PixOmega(edge, P(row, j), G), F0)
(* membership: rays of the image inside its rim are in view, those outside are not; *)
(* tolerance only adds; opposite hemispheres partition                             *)
Member == row < G => \A j \in 0..(G-1) :
  LET p == P(row, j) w == RayOf(fr, edge, p) r == Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2])) IN
  AtRim(fr, edge, w, F0) \/
  /\ InCone(fr, edge, w, F0) <=> FLt(r, Half2[1])
  /\ InCone(fr, edge, w, F0) => InCone(fr, edge, w, FRat(1, 50))
  /\ ~InCone(fr, edge, w, F0) => ~InCone(fr, edge, w, FRat(-1, 50))
  /\ (va = 360) => (InCone(fr, edge, w, F0) <=> ~InCone(Frame(VNeg(U(d))), edge, w, F0))
Emit == row = 0 => PrintT("CASE " \o ToJson([d |-> d, va |-> va]))
===============================================================================

---------------------------------- MODULE View ----------------------------------
EXTENDS ViewOps, TLC, Json, FiniteSets
CONSTANTS R, Angles, G
VARIABLES d, va, fr, edge, px
vars == <<d, va, fr, edge, px>>
Lat == {t \in (-R..R) \X (-R..R) \X (-R..R) : t # <<0, 0, 0>>}
U(t) == Unit(<<FInt(t[1]), FInt(t[2]), FInt(t[3])>>)
Full == va = 360
Va == FInt(IF Full THEN 180 ELSE va)
Init == /\ d \in Lat /\ va \in Angles
        /\ fr = Frame(U(d)) /\ edge = EdgeOf(FInt(IF va = 360 THEN 180 ELSE va))
        /\ px = <<0, 0>>
Next == \E i, j \in 0..G : /\ px = <<0, 0>> /\ <<i, j>> # <<0, 0>>
                           /\ px' = <<i, j>> /\ UNCHANGED <<d, va, fr, edge>>
Spec == Init /\ [][Next]_vars
E12 == FEps[12]
P == <<FRat(px[1], G), FRat(px[2], G)>>
First == px = <<0, 0>>
(* frames are right handed, upright, and the mappers' view space is a rotation      *)
FrameSound == First =>
  /\ Ortho(fr, E12) /\ VNear(Cross(fr[1], fr[2]), VNeg(fr[3]), E12)
  /\ LET z == InFrame(fr, ZV) IN FLe(FAbs(z[1]), E12) /\ (FGe(z[2], FNeg(E12)))
  /\ VNear(OutFrame(fr, InFrame(fr, U(<<1, 2, 2>>))), U(<<1, 2, 2>>), E12)
  /\ VNear(ViewSpace(fr, fr[3]), ZV, E12)
(* the frame is the rotation yaw-pitch of AngOps with x mirrored                    *)
SameAsYp == (First /\ ~(d[1] = 0 /\ d[2] = 0)) =>
  LET w == U(<<3, -1, 2>>) IN VNear(ViewSpace(fr, w), MV(Pitch(U(d)), MV(Yaw(U(d)), w)), E12)
Opening == First => (va \in {180, 360} => FNear(edge, FDivI(FPi, 2), E12, E12))
                 /\ FGt(edge, F0) /\ FLe(edge, FAdd(FDivI(FPi, 2), E12))
                 /\ (va < 180 => FLt(edge, HalfOf(FInt(va))))
(* image position and ray invert each other                                         *)
W == RayOf(fr, edge, P)
PosBack == PNear(PosOf(fr, edge, W), P, E12)
Equiangular == FNear(AngleOf(fr, W), FMul(FMulI(edge, 2), Hyp(FSub(P[1], Half2[1]), FSub(P[2], Half2[2]))), E12, E12)
(* each direction has one place in a full view; the halves meet at the horizon       *)
Whole == Full => LET q == Pos360(U(d), W) IN
   IF FLt(AngleOf(fr, W), FSub(edge, E12)) THEN PNear(q, P, E12)
   ELSE FGe(q[1], FSub(F1, E12)) /\ FLe(Hyp(FSub(q[1], FRat(3, 2)), FSub(q[2], Half2[2])), FAdd(Half2[1], E12))
(* the square                                                                        *)
Q == IF Full THEN <<FRat(2 * px[1], G), FRat(px[2], G)>> ELSE P
Rim(q) == \E z \in 1..2 : \E x \in {0, 1, 2} : FLe(FAbs(FSub(q[z], FInt(x))), FEps[9])
UvBack == Rim(Q) \/ PNear(UVOf(fr, Va, Full, UVRay(fr, Va, Full, Q)), Q, FEps[9])
UvMid == First => VNear(UVRay(fr, Va, Full, Half2), fr[3], E12)
Emit == First => PrintT("CASE " \o ToJson([d |-> d, va |-> va]))
===============================================================================

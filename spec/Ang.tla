---------------------------------- MODULE Ang ----------------------------------
EXTENDS AngOps, TLC, Json
CONSTANTS R, Step
VARIABLES v, u, ang
vars == <<v, u, ang>>
Lat == {t \in (-R..R) \X (-R..R) \X (-R..R) : t # <<0, 0, 0>>}
Vec(t) == Unit(<<FInt(t[1]), FInt(t[2]), FInt(t[3])>>)
Init == v \in Lat /\ u = Vec(v) /\ ang = 0
Next == ang + Step <= 360 /\ ang' = ang + Step /\ UNCHANGED <<v, u>>
Spec == Init /\ [][Next]_vars
E15 == FEps[15]
E14 == FEps[14]
First == ang = 0
Pole == v[1] = 0 /\ v[2] = 0
TpBack == First => VNear(DirTP(Theta(u), Phi(u)), u, E15)
TpRange == First => (FGe(Theta(u), F0) /\ FLe(Theta(u), FPi) /\ FGe(Phi(u), F0) /\ FLt(Phi(u), TwoPi))
AaBack == First => VNear(DirAA(Alt(u), Azi(u)), u, E15)
(* the two descriptions agree                                                     *)
AaTp == First => /\ FLe(FAbs(FSub(FAdd(Alt(u), FDeg(Theta(u))), FInt(90))), FEps[12])
                 /\ Pole \/ AngNear(FAdd(Azi(u), FDeg(Phi(u))), FInt(270), FInt(360), FEps[12])
(* rotations keep lengths and angles, keep their axis, add up and turn the right way *)
T == FRad(FInt(ang))
W == Rot(u, ZV, FRat(1, 3))
RotSound == \A k \in 0..2 :
   LET r == Rot(u, Ax(k), T) IN
   /\ FNear(Length3(r), F1, E15, E15)
   /\ FLe(FAbs(FSub(r[k + 1], u[k + 1])), E15)
   /\ VNear(Rot(Rot(u, Ax(k), FRad(FInt(ang - 20))), Ax(k), FRad(FInt(20))), r, E14)
   /\ (ang \in {0, 360}) => VNear(r, u, E14)
   /\ LET p == Ax((k + 1) % 3) IN ang = 90 => VNear(Rot(p, Ax(k), T), Ax((k + 2) % 3), E14)
   /\ FLe(FAbs(FSub(Dot(r, Rot(W, Ax(k), T)), Dot(u, W))), E14)
(* chord = distance of two unit vectors at that angle                              *)
ChordSound == (ang <= 180 /\ ~Pole) => LET a == Rot(ZV, Unit(<<FNeg(u[2]), u[1], F0>>), T) IN
   /\ FLe(FAbs(FSub(Length3(VSub(a, ZV)), ChordOf(T))), E14)
   /\ FLe(FAbs(FSub(Between(a, ZV), T)), FEps[12])
YpSound == (First /\ ~Pole) =>
   /\ Ortho(Yaw(u), E14) /\ Ortho(Pitch(u), E14)
   /\ FNear(Det(Yaw(u)), F1, E14, E14) /\ FNear(Det(Pitch(u)), F1, E14, E14)
   /\ VNear(MV(Pitch(u), MV(Yaw(u), u)), ZV, E14)
   /\ VNear(MTV(Yaw(u), MTV(Pitch(u), ZV)), u, E14)
   /\ LET z == MV(Pitch(u), MV(Yaw(u), ZV)) IN z[1] = F0 /\ FGt(z[2], F0)
FishSound == First => LET p == FishXY(u) IN
   /\ FNear(FMul(Hyp(p[1], p[2]), FDivI(FPi, 2)), Between(u, ZV), FEps[12], FEps[12])
   /\ (~Pole => FLe(FAbs(FSub(FMul(p[1], u[2]), FMul(p[2], u[1]))), FEps[12]) /\ FGe(FMul(p[1], u[1]), F0) /\ FGe(FMul(p[2], u[2]), F0))
Emit == First => PrintT("CASE " \o ToJson(v))
===============================================================================

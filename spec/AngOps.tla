--------------------------------- MODULE AngOps ---------------------------------
(* Directions by angles, rotations, chords.                                     *)
EXTENDS SCOps
TwoPi == FMulI(FPi, 2)
Hyp(a, b) == BSqrt(BAdd(BMul(a, a), BMul(b, b)))          \* no digits lost
(* polar angle from +z and azimuth from +x towards +y                            *)
Theta(d) == FAtan2(Hyp(d[1], d[2]), d[3])
Phi(d) == FMod(FAtan2(d[2], d[1]), TwoPi)
DirTP(t, p) == << FMul(FSin(t), FCos(p)), FMul(FSin(t), FSin(p)), FCos(t) >>
(* altitude above the horizon, azimuth from -y (south) towards -x (west), degrees *)
Alt(d) == FDeg(FAtan2(d[3], Hyp(d[1], d[2])))
Azi(d) == FDeg(FAtan2(FNeg(d[1]), FNeg(d[2])))
DirAA(al, az) == LET a == FRad(al) z == FRad(az) IN
  << FNeg(FMul(FCos(a), FSin(z))), FNeg(FMul(FCos(a), FCos(z))), FSin(a) >>
ChordOf(t) == FMulI(FSin(FDivI(t, 2)), 2)
Ax(k) == [i \in 1..3 |-> IF i = k + 1 THEN F1 ELSE F0]
(* rotation of v by angle t (radians) about unit k, right handed                  *)
Rot(v, k, t) == VAdd(VAdd(VScale(v, FCos(t)), VScale(Cross(k, v), FSin(t))),
                     VScale(k, FMul(Dot(k, v), FSub(F1, FCos(t)))))
MV(m, v) == [i \in 1..3 |-> Dot(m[i], v)]
MTV(m, v) == [i \in 1..3 |-> FAdd(FAdd(FMul(m[1][i], v[1]), FMul(m[2][i], v[2])), FMul(m[3][i], v[3]))]
Ortho(m, eps) == \A i, j \in 1..3 : FLe(FAbs(FSub(Dot(m[i], m[j]), IF i = j THEN F1 ELSE F0)), eps)
Det(m) == Dot(m[1], Cross(m[2], m[3]))
ZV == <<F0, F0, F1>>
(* yaw about z, then pitch about x, that carry v to +z                            *)
Yaw(v) == LET h == Hyp(v[1], v[2]) s == FDiv(v[1], h) c == FDiv(FNeg(v[2]), h) IN
  << <<c, s, F0>>, <<FNeg(s), c, F0>>, ZV >>
Pitch(v) == LET u == Unit(v) h == Hyp(u[1], u[2]) IN
  << <<F1, F0, F0>>, <<F0, u[3], h>>, <<F0, FNeg(h), u[3]>> >>
AngNear(a, b, m, eps) == FLe(FCircDist(a, b, m), eps)
(* fisheye position: distance from the centre proportional to the angle from z     *)
FishXY(d) == LET h == Hyp(d[1], d[2]) r == FDiv(Theta(d), FDivI(FPi, 2)) IN
  IF h = F0 THEN <<F0, r>> ELSE << FMul(r, FDiv(d[1], h)), FMul(r, FDiv(d[2], h)) >>
===============================================================================

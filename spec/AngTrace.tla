-------------------------------- MODULE AngTrace --------------------------------
EXTENDS Conf, AngOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
E9 == FEps[9]
AtPole(d) == FLe(Hyp(d[1], d[2]), FEps[7])
InR(x, lo, hi) == IsFin(x) /\ FGe(x, FSub(lo, E9)) /\ FLe(x, FAdd(hi, E9))
JTp(e) == FirstBad(<<
  <<"directions have angles", e.exc = "" /\ Len(e.tp) = Len(e.d) /\ Len(e.back) = Len(e.d)>>,
  <<"angles are in range", All(Len(e.d), LAMBDA k : InR(e.tp[k][1], F0, FPi) /\ InR(e.tp[k][2], F0, TwoPi))>>,
  <<"theta is the angle from +z", All(Len(e.d), LAMBDA k : FLe(FAbs(FSub(e.tp[k][1], Theta(e.d[k]))), E9))>>,
  <<"phi is the azimuth from +x", All(Len(e.d), LAMBDA k : AtPole(e.d[k]) \/ AngNear(e.tp[k][2], Phi(e.d[k]), TwoPi, E9))>>,
  <<"angles give the direction back", All(Len(e.d), LAMBDA k : VNear(e.back[k], e.d[k], E9))>> >>)
JAa(e) == FirstBad(<<
  <<"directions have angles", e.exc = "" /\ Len(e.aa) = Len(e.d) /\ Len(e.back) = Len(e.d)>>,
  <<"angles are in range", All(Len(e.d), LAMBDA k : InR(e.aa[k][1], FInt(-90), FInt(90)) /\ InR(e.aa[k][2], FInt(-180), FInt(180)))>>,
  <<"altitude is the angle above the horizon", All(Len(e.d), LAMBDA k : FLe(FAbs(FSub(e.aa[k][1], Alt(e.d[k]))), FEps[7]))>>,
  <<"azimuth is from south towards west", All(Len(e.d), LAMBDA k : AtPole(e.d[k]) \/ AngNear(e.aa[k][2], Azi(e.d[k]), FInt(360), FEps[7]))>>,
  <<"angles give the direction back", All(Len(e.d), LAMBDA k : VNear(e.back[k], e.d[k], E9))>> >>)
JDir(e) == FirstBad(<<
  <<"angles have directions", e.exc = "" /\ Len(e.d) = Len(e.tp)>>,
  <<"the direction is that of the angles", All(Len(e.tp), LAMBDA k : VNear(e.d[k],
      IF e.aa THEN DirAA(e.tp[k][1], e.tp[k][2]) ELSE DirTP(e.tp[k][1], e.tp[k][2]), E9))>> >>)
JNormTp(e) == FirstBad(<<
  <<"angles can be normalised", e.exc = "" /\ Len(e.r) = Len(e.tp)>>,
  <<"angles are in range", All(Len(e.tp), LAMBDA k : InR(e.r[k][1], F0, FPi) /\ InR(e.r[k][2], F0, TwoPi))>>,
  <<"angles in range stay, azimuths are modulo a turn", All(Len(e.tp), LAMBDA k :
      /\ InR(e.tp[k][1], E9, FPi) => FLe(FAbs(FSub(e.r[k][1], e.tp[k][1])), E9)
      /\ AngNear(e.r[k][2], e.tp[k][2], TwoPi, E9))>> >>)
JChord(e) == FirstBad(<<
  <<"chords and angles convert", e.exc = "">>,
  <<"a chord is twice the sine of half its angle", All(Len(e.t), LAMBDA k : FNear(e.c[k], ChordOf(e.t[k]), FEps[12], FEps[12]))>>,
  <<"the angle of a chord has that chord", All(Len(e.c), LAMBDA k : InR(e.t2[k], F0, FPi) /\ FNear(ChordOf(e.t2[k]), e.c[k], FEps[12], FEps[12]))>> >>)
JAngle(e) == FirstBad(<<
  <<"angles between vectors exist", e.exc = "">>,
  <<"the cosine is the dot product", All(Len(e.b), LAMBDA k : FLe(FAbs(FSub(e.ct[k], Dot(e.a, e.b[k]))), FEps[12])
       /\ FLe(FAbs(e.ct[k]), F1))>>,
  <<"the angle is the angle between", All(Len(e.b), LAMBDA k : FLe(FAbs(FSub(e.rad[k], Between(e.a, e.b[k]))), FEps[7]))>>,
  <<"degrees are degrees", All(Len(e.b), LAMBDA k : FLe(FAbs(FSub(e.deg[k], FDeg(e.rad[k]))), E9))>> >>)
JRot(e) == LET t == IF e.degrees THEN FRad(e.t) ELSE e.t IN FirstBad(<<
  <<"vectors can be rotated", e.exc = "" /\ Len(e.r) = Len(e.v)>>,
  <<"the matrix is a rotation", Ortho(e.m, FEps[12]) /\ FNear(Det(e.m), F1, FEps[12], FEps[12])>>,
  <<"vectors turn by the angle about the axis", All(Len(e.v), LAMBDA k :
      LET l == FAdd(F1, Length3(e.v[k])) IN VNear(e.r[k], Rot(e.v[k], Ax(e.axis), t), FMul(l, E9)))>> >>)
Yp(v, y, p) == LET u == Unit(v) IN
  <<Ortho(y, FEps[12]) /\ Ortho(p, FEps[12]) /\ FNear(Det(y), F1, FEps[12], FEps[12]) /\ FNear(Det(p), F1, FEps[12], FEps[12]),
    VNear(MV(p, MV(y, u)), ZV, FEps[7]),
    VNear(MTV(y, MTV(p, ZV)), u, FEps[7]),
    AtPole(u) \/ LET z == MV(p, MV(y, ZV)) IN FLe(FAbs(z[1]), E9) /\ FGt(z[2], F0),
    VNear(MV(y, ZV), ZV, FEps[12]) /\ VNear(MV(p, Ax(0)), Ax(0), FEps[12])>>
JYp(e) == FirstBad(<<
  <<"every direction has a rotation", e.exc = "">>,
  <<"one pair of matrices per vector", e.ysh = e.want /\ e.psh = e.want>>,
  <<"the matrices are rotations", All(Len(e.v), LAMBDA k : Yp(e.v[k], e.y[k], e.p[k])[1])>>,
  <<"the rotation carries the vector to +z", All(Len(e.v), LAMBDA k : Yp(e.v[k], e.y[k], e.p[k])[2])>>,
  <<"the transpose carries +z back", All(Len(e.v), LAMBDA k : Yp(e.v[k], e.y[k], e.p[k])[3])>>,
  <<"up stays up", All(Len(e.v), LAMBDA k : Yp(e.v[k], e.y[k], e.p[k])[4])>>,
  <<"yaw is about z, pitch about x", All(Len(e.v), LAMBDA k : Yp(e.v[k], e.y[k], e.p[k])[5])>> >>)
JNorm(e) == FirstBad(<<
  <<"vectors can be normalised", e.exc = "" /\ Len(e.r) = Len(e.v)>>,
  <<"normalised vectors have length one", All(Len(e.v), LAMBDA k : e.zero[k] \/ FNear(FSum([i \in 1..Len(e.r[k]) |-> FSq(e.r[k][i])]), F1, FEps[12], FEps[12]))>>,
  <<"normalised vectors keep their direction", All(Len(e.v), LAMBDA k :
       LET n == FSqrt(FSum([i \in 1..Len(e.v[k]) |-> FSq(e.v[k][i])])) IN
       IF e.zero[k] THEN \A i \in 1..Len(e.v[k]) : e.r[k][i] = F0
       ELSE \A i \in 1..Len(e.v[k]) : FNear(FMul(e.r[k][i], n), e.v[k][i], E9, FMul(E9, n)))>> >>)
JFish(e) == FirstBad(<<
  <<"directions have fisheye positions", e.exc = "" /\ Len(e.xy) = Len(e.d)>>,
  <<"the distance from the centre is the angle", All(Len(e.d), LAMBDA k : FLe(FAbs(FSub(Hyp(e.xy[k][1], e.xy[k][2]), FDiv(Theta(e.d[k]), FDivI(FPi, 2)))), E9))>>,
  <<"the position lies in its direction", All(Len(e.d), LAMBDA k : AtPole(e.d[k]) \/
      LET p == FishXY(e.d[k]) IN PNear(e.xy[k], <<IF e.flip THEN FNeg(p[1]) ELSE p[1], p[2]>>, E9))>> >>)
J(s, e) == CASE e.k = "tp" -> JTp(e) [] e.k = "aa" -> JAa(e) [] e.k = "dir" -> JDir(e) [] e.k = "ntp" -> JNormTp(e)
             [] e.k = "chord" -> JChord(e) [] e.k = "angle" -> JAngle(e) [] e.k = "rot" -> JRot(e) [] e.k = "yp" -> JYp(e)
             [] e.k = "norm" -> JNorm(e) [] e.k = "fish" -> JFish(e)
===============================================================================

-------------------------------- MODULE SCTrace --------------------------------
EXTENDS Conf, SCOps
S0 == 0
S(s, e) == 0
E9 == FEps[9]
All(n, P(_)) == \A k \in 1..n : P(k)
JXy(e) == FirstBad(<<
  <<"points can be mapped", e.exc = "">>,
  <<"one point per point", Len(e.xy) = Len(e.uv)>>,
  <<"the disk map is the concentric map", All(Len(e.uv), LAMBDA k : PNear(e.xy[k], XY(e.uv[k][1], e.uv[k][2]), E9))>> >>)
JFwd(e) == FirstBad(<<
  <<"points can be mapped", e.exc = "">>,
  <<"one direction per point", Len(e.xyz) = Len(e.uv)>>,
  <<"directions are unit vectors", All(Len(e.uv), LAMBDA k : AllFin(e.xyz[k]) /\ FLe(FAbs(FSub(Dot(e.xyz[k], e.xyz[k]), F1)), E9))>>,
  <<"the direction is that of the concentric equal-area map",
    All(Len(e.uv), LAMBDA k : VNear(e.xyz[k], OnAxes(XYZ(e.uv[k][1], e.uv[k][2], e.xsign), e.axes), E9))>> >>)
JInv(e) == FirstBad(<<
  <<"directions can be mapped", e.exc = "">>,
  <<"one point per direction", Len(e.uv) = Len(e.xyz)>>,
  <<"points lie in the double square", All(Len(e.uv), LAMBDA k : AllFin(e.uv[k])
      /\ FGe(e.uv[k][1], FNeg(E9)) /\ FLe(e.uv[k][1], FAdd(FInt(2), E9)) /\ FGe(e.uv[k][2], FNeg(E9)) /\ FLe(e.uv[k][2], FAdd(F1, E9)))>>,
  <<"the point is the one whose direction this is",
    All(Len(e.uv), LAMBDA k : LET d == FromAxes(e.xyz[k], e.axes)
                              IN PNear(e.uv[k], UV(IF e.norm THEN Unit(d) ELSE d, e.flipu), E9))>> >>)
Horizon(d) == FLe(FAbs(d[3]), E9)
JTrip(e) == FirstBad(<<
  <<"points can be mapped there and back", e.exc = "">>,
  <<"a point maps back to itself", All(Len(e.uv), LAMBDA k : Horizon(FromAxes(e.xyz[k], e.axes))
      \/ (e.xsign = 1 /\ FGt(e.uv[k][1], F1)) \/ PNear(e.uv2[k], e.uv[k], FEps[8]))>>,
  <<"a direction maps back to itself", All(Len(e.uv), LAMBDA k :
      (e.xsign = 1 /\ FGt(e.uv[k][1], F1)) \/ VNear(e.xyz2[k], e.xyz[k], FEps[8]))>> >>)
J(s, e) == CASE e.k = "xy" -> JXy(e) [] e.k = "fwd" -> JFwd(e) [] e.k = "inv" -> JInv(e) [] e.k = "trip" -> JTrip(e)
===============================================================================

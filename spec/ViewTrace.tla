------------------------------- MODULE ViewTrace -------------------------------
(* Projections recorded from mappers; e.d and e.va (and e.full) is the view that *)
(* was set last.                                                                 *)
EXTENDS Conf, ViewOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
E7 == FEps[7]
Fr(e) == Frame(Unit(e.d))
Edge(e) == EdgeOf(e.va)
(* rays are accurate to some 10^-8 radians: positions relative to the opening   *)
Tol(e) == FDiv(E7, FMin(F1, Edge(e)))
Rim(fr, w) == LET a == AngleOf(fr, w) IN FLe(FAbs(FSub(a, FDivI(FPi, 2))), FEps[7])
Behind(fr, w) == FGt(AngleOf(fr, w), FSub(FPi, FEps[6]))
Where(e, fr, w) == IF e.full THEN Pos360(fr[3], w) ELSE PosOf(fr, Edge(e), w)
JRot(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"vectors can be rotated", e.exc = "" /\ Len(e.r) = Len(e.w) /\ Len(e.back) = Len(e.w)>>,
  <<"view space is the view's upright frame", All(Len(e.w), LAMBDA k : VNear(e.r[k], ViewSpace(fr, e.w[k]), E7))>>,
  <<"world space is view space turned back", All(Len(e.w), LAMBDA k : VNear(e.back[k], e.w[k], E7))>> >>)
JPos(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"directions have positions", e.exc = "" /\ Len(e.xy) = Len(e.w)>>,
  <<"the position is the angle from the axis in its direction",
    All(Len(e.w), LAMBDA k : (e.full /\ Rim(fr, e.w[k])) \/ Behind(fr, e.w[k]) \/ Behind(Frame(VNeg(fr[3])), e.w[k])
        \/ PNear(e.xy[k], Where(e, fr, e.w[k]), Tol(e)))>>,
  <<"the axis is the centre", All(Len(e.w), LAMBDA k : ~Behind(Frame(VNeg(fr[3])), e.w[k]) \/ PNear(e.xy[k], Half2, FMulI(Tol(e), 100)))>> >>)
JRay(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"positions have rays", e.exc = "" /\ Len(e.w) = Len(e.xy)>>,
  <<"rays are unit vectors", All(Len(e.w), LAMBDA k : AllFin(e.w[k]) /\ FNear(Dot(e.w[k], e.w[k]), F1, FEps[9], FEps[9]))>>,
  <<"the ray of a position points to its direction", All(Len(e.w), LAMBDA k : VNear(e.w[k], RayOf(fr, Edge(e), e.xy[k]), E7))>>,
  <<"the ray of a position projects back to it", All(Len(e.w), LAMBDA k : (e.full /\ FGe(AngleOf(fr, e.w[k]), FSub(FDivI(FPi, 2), E7)))
       \/ PNear(e.back[k], e.xy[k], Tol(e)))>>,
  <<"rays start at the origin", e.osh = e.wsh /\ All(Len(e.o), LAMBDA k : e.o[k] = e.origin)>> >>)
JPix(e) == LET fr == Fr(e)
               n == e.res
               Ctr(t) == << FDivI(FAdd(FInt(t[1]), Half2[1]), n), FDivI(FAdd(FInt(t[2]), Half2[1]), n) >>
               Left(t) == IF t[1] >= n THEN <<t[1] - n, t[2]>> ELSE t
               Inside(t) == FLt(Hyp(FSub(Ctr(Left(t))[1], Half2[1]), FSub(Ctr(Left(t))[2], Half2[1])), FSub(Half2[1], E7))
  IN IF e.exc # "" THEN "pixels have rays" ELSE FirstBad(<<
  <<"there is a ray for every pixel", e.sh = <<IF e.full THEN 2 * n ELSE n, n, 3>>>>,
  <<"the ray of a pixel goes through its centre", All(Len(e.px), LAMBDA k :
      VNear(e.w[k], IF e.px[k][1] >= n THEN RayOf(Frame(VNeg(fr[3])), Edge(e), Ctr(Left(e.px[k]))) ELSE RayOf(fr, Edge(e), Ctr(e.px[k])), E7))>>,
  <<"the ray of a pixel is seen at the pixel", All(Len(e.px), LAMBDA k :
      (e.full /\ ~Inside(e.px[k])) \/ (e.pos[k] = e.px[k] /\ PNear(e.fpos[k], << FAdd(FInt(e.px[k][1]), Half2[1]), FAdd(FInt(e.px[k][2]), Half2[1]) >>, FMulI(Tol(e), n))))>>,
  <<"the ray of a pixel position is that of the pixel", All(Len(e.px), LAMBDA k : e.px[k][1] >= n \/ VNear(e.w2[k], e.w[k], E7))>>,
  <<"jittered rays stay about the middle of their pixel", All(Len(e.px), LAMBDA k : e.full
      \/ LET m == FAdd(FMul(e.jit, Half2[1]), FMulI(Tol(e), n)) IN \A c \in 1..2 : FLe(FAbs(FSub(e.jpos[k][c], FAdd(FInt(e.px[k][c]), Half2[1]))), m))>>,
  <<"jittered rays are jittered", \E k \in 1..Len(e.px) : e.jpos[k] # e.fpos[k]>> >>)
NearSeam(fr, w) == LET c == ViewSpace(fr, w) IN FLe(FAbs(c[3]), FEps[8])
JUv(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"square points have rays", e.exc = "" /\ Len(e.w) = Len(e.uv)>>,
  <<"the ray of a square point is that of the equal-area map", All(Len(e.uv), LAMBDA k : VNear(e.w[k], UVRay(fr, e.va, e.full, e.uv[k]), E7))>>,
  <<"the ray of a square point maps back to it", All(Len(e.uv), LAMBDA k : NearSeam(fr, e.w[k]) \/ PNear(e.back[k], e.uv[k], Tol(e)))>>,
  <<"rays start at the origin", e.osh = e.wsh /\ All(Len(e.o), LAMBDA k : e.o[k] = e.origin)>> >>)
JXuv(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"directions have square points", e.exc = "" /\ Len(e.uv) = Len(e.w)>>,
  <<"the square point is that of the equal-area map", All(Len(e.uv), LAMBDA k : NearSeam(fr, e.w[k]) \/ PNear(e.uv[k], UVOf(fr, e.va, e.full, e.w[k]), FMulI(Tol(e), 10)))>> >>)
(* angle by distance from the centre (of the hemisphere's image, which the view is   *)
(* the middle of), equisolid: equal areas to equal solid angles                      *)
Near1(a, b) == FNear(a, b, E7, E7)
Rc(p, va) == FMul(Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2])), FDivI(va, 180))
SolidAng(p, va) == FMulI(FAsin(FMul(FSqrt(FInt(2)), Rc(p, va))), 2)
SolidInv(p, va) == FMul(FDiv(FPi, FSqrt(FInt(2))), FSin(FMul(FPi, FDivI(Rc(p, va), 2))))
PerspAng(p, va) == FAtan2(FMul(FMulI(Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2])), 2), FDiv(FSin(HalfOf(va)), FCos(HalfOf(va)))), F1)
(* equisolid: a bijection that keeps the direction from the centre                 *)
JSolid(e) == LET fr == Fr(e) IN IF e.exc # "" THEN "equisolid views can be used" ELSE FirstBad(<<
  <<"positions have rays", e.exc = "" /\ Len(e.w) = Len(e.xy)>>,
  <<"rays are unit vectors", All(Len(e.w), LAMBDA k : AllFin(e.w[k]) /\ FNear(Dot(e.w[k], e.w[k]), F1, FEps[9], FEps[9]))>>,
  <<"the ray of a position projects back to it", All(Len(e.w), LAMBDA k : PNear(e.back[k], e.xy[k], Tol(e)))>>,
  <<"positions keep their direction from the centre", All(Len(e.w), LAMBDA k :
      LET c == InFrame(fr, e.w[k]) x == FSub(e.xy[k][1], Half2[1]) y == FSub(e.xy[k][2], Half2[1])
      IN FLe(FAbs(FSub(FMul(c[1], y), FMul(c[2], x))), E7) /\ FGe(FAdd(FMul(c[1], x), FMul(c[2], y)), FNeg(E7)))>>,
  <<"rays are seen at their pixels", e.pos = e.px>>,
  <<"rays start at the origin", e.osh = e.wsh /\ All(Len(e.o), LAMBDA k : e.o[k] = e.origin)>>,
  <<"angles are equisolid, or the inverse of it", \/ (e.persp /\ All(Len(e.w), LAMBDA k : Near1(AngleOf(fr, e.w[k]), PerspAng(e.xy[k], e.va))))
                                                   \/ All(Len(e.w), LAMBDA k : Near1(AngleOf(fr, e.w[k]), FMul(Cf(e.va), SolidAng(e.xy[k], e.va))))
                                                   \/ All(Len(e.w), LAMBDA k : Near1(AngleOf(fr, e.w[k]), FMul(Cf(e.va), SolidInv(e.xy[k], e.va))))>>,
  <<"a perspective view is one", e.persp => All(Len(e.w), LAMBDA k : Near1(AngleOf(fr, e.w[k]), PerspAng(e.xy[k], e.va)))>> >>)
(* planar: bounding box, no rotation                                               *)
JPlan(e) == FirstBad(<<
  <<"points have positions", e.exc = "">>,
  <<"the position is that in the bounding box", All(Len(e.p), LAMBDA k : PNear(e.uv[k],
      << FDiv(FSub(e.p[k][1], e.b[1][1]), e.sf[1]), FDiv(FSub(e.p[k][2], e.b[1][2]), e.sf[2]) >>, FEps[8]))>>,
  <<"the position maps back to the point", All(Len(e.p), LAMBDA k : PNear(e.back[k], e.p[k], FEps[8]) /\ e.back[k][3] = e.z)>>,
  <<"the image has the box's aspect", e.frame = e.wframe>>,
  <<"rays start at the origin", All(Len(e.o), LAMBDA k : e.o[k] = e.origin)>> >>)
JPlanPix(e) == FirstBad(<<
  <<"pixels have points", e.exc = "">>,
  <<"the point of a pixel is seen at the pixel or its mirror image", e.pos = e.px \/ e.pos = [k \in 1..Len(e.px) |-> <<e.nx - 1 - e.px[k][1], e.px[k][2]>>]>>,
  <<"the point of a pixel is seen at the pixel", e.pos = e.px>> >>)
J(s, e) == CASE e.k = "rot" -> JRot(e) [] e.k = "pos" -> JPos(e) [] e.k = "ray" -> JRay(e) [] e.k = "pix" -> JPix(e)
             [] e.k = "uv" -> JUv(e) [] e.k = "xuv" -> JXuv(e) [] e.k = "solid" -> JSolid(e) [] e.k = "plan" -> JPlan(e)
             [] e.k = "planpix" -> JPlanPix(e)
===============================================================================

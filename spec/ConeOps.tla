--------------------------------- MODULE ConeOps ---------------------------------
(* Membership in the view cone and solid angles of pixels.                       *)
EXTENDS ViewOps
InCone(fr, edge, w, tol) == FLt(AngleOf(fr, w), FAdd(edge, tol))
(* rounding may decide right at the edge                                          *)
AtRim(fr, edge, w, tol) == FLe(FAbs(FSub(AngleOf(fr, w), FAdd(edge, tol))), FEps[7])
(* solid angle of a pixel of an equiangular image: sin(t) dt dphi over r dr dphi  *)
PixOmega(edge, p, res) ==
  LET r == Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2]))
      t == FMul(FMulI(r, 2), edge)
      per == IF FLt(r, FEps[9]) THEN FMulI(edge, 2) ELSE FDiv(FSin(t), r)
  IN FDivI(FMul(per, FMulI(edge, 2)), res * res)
===============================================================================

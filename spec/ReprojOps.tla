------------------------------- MODULE ReprojOps -------------------------------
(* Reprojecting images: every output pixel takes the input at the position where  *)
(* its direction lies.  An image is a sequence (x) of columns (y).                *)
EXTENDS ViewOps
(* pixel centres are at half-integers: cell and fraction along one axis, the      *)
(* outer cells continued beyond the border                                        *)
At(t, n) == LET s == FSub(t, FRat(1, 2)) k == FFloor(s)
                i == IF k < 0 THEN 0 ELSE IF k > n - 2 THEN n - 2 ELSE k
            IN <<i, FSub(s, FInt(i))>>
Linear(im, W, H, pos) ==                       \* pos in pixels; W, H >= 2
  LET a == At(pos[1], W) b == At(pos[2], H)
      L(i) == FAdd(FMul(im[i + 1][b[1] + 1], FSub(F1, b[2])), FMul(im[i + 1][b[1] + 2], b[2]))
  IN FAdd(FMul(L(a[1]), FSub(F1, a[2])), FMul(L(a[1] + 1), a[2]))
(* nearest centre; the candidates where two are equally near                      *)
NearAt(t, n, tol) ==
  LET a == At(t, n) d == FSub(a[2], FRat(1, 2))
  IN (IF FLe(d, tol) THEN {a[1]} ELSE {}) \cup (IF FGe(d, FNeg(tol)) THEN {a[1] + 1} ELSE {})
Nearest(im, W, H, pos, tol) == {im[i + 1][j + 1] : i \in NearAt(pos[1], W, tol), j \in NearAt(pos[2], H, tol)}
Covered(W, H, pos) == /\ FGe(pos[1], FRat(1, 2)) /\ FLe(pos[1], FSub(FInt(W), FRat(1, 2)))
                      /\ FGe(pos[2], FRat(1, 2)) /\ FLe(pos[2], FSub(FInt(H), FRat(1, 2)))
(* containing pixel(s)                                                            *)
CellAt(t, tol) == {FFloor(FSub(t, tol)), FFloor(FAdd(t, tol))}
Ctr(i, j, n) == << FDivI(FAdd(FInt(i), Half2[1]), n), FDivI(FAdd(FInt(j), Half2[1]), n) >>
InPix(p, n) == << FMulI(p[1], n), FMulI(p[2], n) >>
Rho(p) == Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2]))
(* turning the image's directions about the view axis y                           *)
Turn(a, w) == LET c == FCos(FRad(a)) s == FSin(FRad(a))
              IN << FAdd(FMul(c, w[1]), FMul(s, w[3])), w[2], FSub(FMul(c, w[3]), FMul(s, w[1])) >>
(* upright re-aiming: what lay at s shows at t                                    *)
Aim(s, t, w) == OutFrame(Frame(s), InFrame(Frame(t), w))
YAxis == <<F0, F1, F0>>
Hemi == FDivI(FPi, 2)
RayY(p) == RayOf(Frame(YAxis), Hemi, p)
PosY(w) == PosOf(Frame(YAxis), Hemi, w)
(* the middle va/180 of a hemisphere: equiangular radius of a direction and       *)
(* equisolid radius of it, both .5 at the edge of the hemisphere                  *)
Scaled(p, f) == << FAdd(Half2[1], FMul(f, FSub(p[1], Half2[1]))), FAdd(Half2[2], FMul(f, FSub(p[2], Half2[2]))) >>
AngOfSolid(R) == FDiv(FMulI(FAsin(FMul(FSqrt(FInt(2)), R)), 2), FPi)      \* equiangular radius
SolidOfAng(r) == FMul(FSqrt(FRat(1, 2)), FSin(FMul(r, Hemi)))             \* equisolid radius
(* source position of output position p                                           *)
SolidSrc(p, va, reverse) == LET f == FDivI(va, 180) r == FMul(Rho(p), f)
  IN IF r = F0 THEN p ELSE LET q == FDiv(IF reverse THEN AngOfSolid(r) ELSE SolidOfAng(r), r) IN Scaled(p, q)
===============================================================================

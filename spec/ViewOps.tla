--------------------------------- MODULE ViewOps ---------------------------------
(* Views: a direction with an upright frame, an opening, and the projections of  *)
(* directions onto the image (angular fisheye) and onto the square.              *)
EXTENDS AngOps
UpOf(d) == IF FLe(Hyp(d[1], d[2]), FEps[8]) THEN <<F0, F1, F0>> ELSE ZV
(* <<right, up, forward>> as seen by somebody looking along d                     *)
Frame(d) == LET r == Unit(Cross(d, UpOf(d))) IN <<r, Cross(r, d), d>>
(* coordinates in the frame; the mappers' own view space has x to the left        *)
InFrame(fr, w) == << Dot(fr[1], w), Dot(fr[2], w), Dot(fr[3], w) >>
OutFrame(fr, c) == VAdd(VAdd(VScale(fr[1], c[1]), VScale(fr[2], c[2])), VScale(fr[3], c[3]))
ViewSpace(fr, w) == LET c == InFrame(fr, w) IN <<FNeg(c[1]), c[2], c[3]>>
(* half opening in radians of a view of va degrees, as nominally given; the edge   *)
(* of the image is corrected so that chords keep their proportion (180: no change) *)
HalfOf(va) == FDivI(FRad(va), 2)
Chord1(h) == FDiv(ChordOf(h), h)
Cf(va) == FDiv(Chord1(FDivI(FPi, 2)), Chord1(HalfOf(va)))
EdgeOf(va) == FMul(Cf(va), HalfOf(va))
Half2 == <<FRat(1, 2), FRat(1, 2)>>
(* image position in [0,1]^2 of a direction: angle from the axis proportional to   *)
(* the distance from the centre, .5 at the edge                                    *)
PosOf(fr, edge, w) ==
  LET c == InFrame(fr, w) h == Hyp(c[1], c[2])
      r == FDiv(FDivI(FAtan2(h, c[3]), 2), edge)
  IN IF h = F0 THEN IF c[3][1] > 0 THEN Half2 ELSE <<Half2[1], FAdd(Half2[2], r)>>
     ELSE << FAdd(Half2[1], FMul(r, FDiv(c[1], h))), FAdd(Half2[2], FMul(r, FDiv(c[2], h))) >>
RayOf(fr, edge, p) ==
  LET x == FSub(p[1], Half2[1]) y == FSub(p[2], Half2[2]) r == Hyp(x, y)
      t == FMul(FMulI(r, 2), edge)
  IN IF r = F0 THEN fr[3]
     ELSE OutFrame(fr, << FMul(FSin(t), FDiv(x, r)), FMul(FSin(t), FDiv(y, r)), FCos(t) >>)
AngleOf(fr, w) == LET c == InFrame(fr, w) IN FAtan2(Hyp(c[1], c[2]), c[3])
(* a full view continues on the image of the opposite view, one image to the right *)
Pos360(d, w) == IF FLt(AngleOf(Frame(d), w), FDivI(FPi, 2)) THEN PosOf(Frame(d), FDivI(FPi, 2), w)
                ELSE LET q == PosOf(Frame(VNeg(d)), FDivI(FPi, 2), w) IN <<FAdd(q[1], F1), q[2]>>
(* the square: a view of va <= 180 degrees is the middle va/180 of the map's first *)
(* square, a full view both squares                                                *)
Sf(va) == FDivI(va, 180)
UVOf(fr, va, full, w) ==
  LET q == UV(ViewSpace(fr, w), TRUE) IN
  IF full THEN q
  ELSE LET b == FDivI(FSub(F1, Sf(va)), 2) IN << FDiv(FSub(q[1], b), Sf(va)), FDiv(FSub(q[2], b), Sf(va)) >>
UVRay(fr, va, full, q) ==
  LET b == FDivI(FSub(F1, Sf(va)), 2)
      p == IF full THEN q ELSE << FAdd(b, FMul(q[1], Sf(va))), FAdd(b, FMul(q[2], Sf(va))) >>
      c == XYZ(p[1], p[2], -1)
  IN OutFrame(fr, <<FNeg(c[1]), c[2], c[3]>>)
(* solid angle of the nominal cone                                                 *)
ConeArea(va, full) == FMul(FMulI(FPi, 2), FSub(F1, IF full THEN FNeg(F1) ELSE FCos(HalfOf(va))))
===============================================================================

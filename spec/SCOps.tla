--------------------------------- MODULE SCOps ---------------------------------
(* The Shirley-Chiu concentric map of the double square [0,2]x[0,1] onto the    *)
(* sphere: the square ring of half width r goes to the circle of radius r,      *)
(* linearly in angle along each of its four edges; the disk goes to the         *)
(* hemisphere by the equal-area lift; the second square is the other hemisphere.*)
EXTENDS Fx
Half(a) == FDivI(a, 2)
Pi4 == FDivI(FPi, 4)
NOf(u) == IF FGt(u, F1) THEN -1 ELSE 1
(* the square's own coordinates in [-1,1]                                        *)
AB(u, v) == << FSub(FMulI(IF FGt(u, F1) THEN FSub(u, F1) ELSE u, 2), F1), FSub(FMulI(v, 2), F1) >>
(* signed radius and angle on the disk                                           *)
Polar(ab) == LET a == ab[1] b == ab[2] IN
  IF FGt(FAbs(a), FAbs(b)) THEN <<a, FMul(Pi4, FDiv(b, a))>>
  ELSE IF b = F0 THEN <<F0, F0>>
  ELSE <<b, FSub(Half(FPi), FMul(Pi4, FDiv(a, b)))>>
XY(u, v) == LET p == Polar(AB(u, v)) IN << FMulI(FMul(FCos(p[2]), p[1]), NOf(u)), FMul(FSin(p[2]), p[1]) >>
XYZ(u, v, xsign) ==
  LET p == Polar(AB(u, v))
      s == FMul(p[1], FSqrt(FSub(FInt(2), FSq(p[1]))))
      n == NOf(u)
  IN << FMulI(FMul(FCos(p[2]), s), xsign * n), FMul(FSin(p[2]), s), FMulI(FSub(F1, FSq(p[1])), n) >>
(* back: position on the disk, then edge of the ring, then square                *)
Lower(d) == FLt(d[3], F0)
DiskOf(d) == LET q == FSqrt(FAdd(F1, FMulI(d[3], IF Lower(d) THEN -1 ELSE 1)))
             IN << FDiv(d[1], q), FDiv(d[2], q) >>
RingOf(d) ==
  LET x == DiskOf(d)[1] y == DiskOf(d)[2]
      r == BSqrt(BAdd(BMul(x, x), BMul(y, y)))
      W(ang) == FDiv(FMul(r, ang), Pi4)
  IN IF r = F0 THEN <<F0, F0>>
     ELSE IF FGe(FAbs(x), FAbs(y))
     THEN IF x[1] > 0 THEN <<r, W(FAtan2(y, x))>> ELSE <<FNeg(r), W(FAtan2(y, FNeg(x)))>>
     ELSE IF y[1] > 0 THEN <<W(FAtan2(x, y)), r>> ELSE <<W(FAtan2(x, FNeg(y))), FNeg(r)>>
UV(d, flipu) ==
  LET ab == RingOf(d) IN
  << Half(IF flipu THEN (IF Lower(d) THEN FAdd(FInt(3), ab[1]) ELSE FSub(F1, ab[1]))
          ELSE FAdd(ab[1], FInt(IF Lower(d) THEN 3 ELSE 1))),
     Half(FAdd(ab[2], F1)) >>
(* vectors                                                                       *)
Dot(a, b) == FAdd(FAdd(FMul(a[1], b[1]), FMul(a[2], b[2])), FMul(a[3], b[3]))
Cross(a, b) == << FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])),
                  FSub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
VSub(a, b) == << FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3]) >>
VAdd(a, b) == << FAdd(a[1], b[1]), FAdd(a[2], b[2]), FAdd(a[3], b[3]) >>
VScale(a, k) == << FMul(a[1], k), FMul(a[2], k), FMul(a[3], k) >>
VNeg(a) == << FNeg(a[1]), FNeg(a[2]), FNeg(a[3]) >>
Length3(a) == BSqrt(BAdd(BAdd(BMul(a[1], a[1]), BMul(a[2], a[2])), BMul(a[3], a[3])))   \* no digits lost
Unit(a) == LET l == Length3(a) IN << FDiv(a[1], l), FDiv(a[2], l), FDiv(a[3], l) >>
(* angle between two directions, accurate everywhere                             *)
Between(a, b) == FAtan2(Length3(Cross(a, b)), Dot(a, b))
VNear(a, b, eps) == \A i \in 1..3 : IsFin(a[i]) /\ FLe(FAbs(FSub(a[i], b[i])), eps)
PNear(a, b, eps) == \A i \in 1..2 : IsFin(a[i]) /\ FLe(FAbs(FSub(a[i], b[i])), eps)
(* component axes[i] of the result is component i of the map                     *)
OnAxes(d, axes) == [j \in 1..3 |-> d[CHOOSE i \in 1..3 : axes[i] + 1 = j]]
FromAxes(d, axes) == << d[axes[1] + 1], d[axes[2] + 1], d[axes[3] + 1] >>
===============================================================================

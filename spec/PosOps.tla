---------------------------------- MODULE PosOps ----------------------------------
(* Position index: how much a glare source counts away from the line of sight.   *)
EXTENDS ViewOps
F16 == FInt(16)
(* sigma: degrees from the line of sight, tau: degrees from the vertical          *)
GuthRaw(s, t) == FExp(FAdd(
   FMul(FDivI(FSub(FSub(FDec(352, 1), FMul(FDec(31889, 5), t)), FMul(FDec(122, 2), FExp(FDivI(FMulI(t, -2), 9)))), 1000), s),
   FMul(FDivI(FSub(FAdd(FInt(21), FMul(FDec(26667, 5), t)), FMul(FDec(2963, 6), FSq(t))), 100000), FSq(s))))
KimRaw(s, t) == LET t2 == FSq(t) t3 == FMul(t2, t)
                    den(a, b, c) == FAdd(FAdd(FMul(FDec(-9, 6), t3), FMul(a, t2)), FAdd(FMul(b, t), c))
  IN FExp(FDiv(FSub(s, den(FDec(14, 4), FDec(866, 4), FDec(21633, 3))), den(FDec(13, 4), FDec(853, 4), FDec(8772, 3))))
(* c: the direction in the frame of the view                                      *)
SigmaOf(c) == FDeg(FAtan2(Hyp(c[1], c[2]), c[3]))
TauOf(c) == FDeg(FAtan2(FAbs(c[1]), c[2]))
(* below the line of sight Iwata: vertical offsets count 1.15 times               *)
IwataSigma(c) == FDeg(FAtan2(Hyp(c[1], FMul(FDec(115, 2), c[2])), c[3]))
Guth(c) == IF c[3][1] < 0 THEN F16
           ELSE IF c[1] = F0 /\ c[2] = F0 THEN F1
           ELSE FMin(F16, IF c[2][1] < 0 THEN GuthRaw(IwataSigma(c), FInt(90)) ELSE GuthRaw(SigmaOf(c), TauOf(c)))
Kim(c) == IF c[1] = F0 /\ c[2] = F0 THEN F1 ELSE KimRaw(SigmaOf(c), TauOf(c))
PosIdx(guth, c) == IF guth THEN Guth(c) ELSE Kim(c)
===============================================================================

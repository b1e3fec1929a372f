---------------------------------- MODULE MetOps ----------------------------------
(* Photometric and glare metrics as sums over the rays in view.  A ray is a      *)
(* record c: direction in the frame of the view, o: solid angle, l: luminance    *)
(* (before scaling), p: position index, rgb: channels.                           *)
EXTENDS PosOps
SumR(rs, f(_)) == FoldLeft(LAMBDA a, r : BAdd(a, f(r)), F0, rs)
SFil(rs, p(_)) == SelectSeq(rs, p)
Pow10(x) == FExp(FMul(x, FLn10))
(* ------------------------------------------------------------ photometric *)
Illum(rs, s) == FMul(SumR(rs, LAMBDA r : FMul(FMul(r.c[3], r.l), r.o)), s)
Area(rs) == SumR(rs, LAMBDA r : r.o)
LumSum(rs, s) == FMul(SumR(rs, LAMBDA r : FMul(r.l, r.o)), s)
MaxLum(rs, s) == FMul(FoldLeft(LAMBDA a, r : FMax(a, r.l), rs[1].l, rs), s)
AvgRay(rs, s) == FDivI(FMul(SumR(rs, LAMBDA r : r.l), s), Len(rs))
Weighted(rs) == [k \in 1..Len(rs) |-> [rs[k] EXCEPT !.o = FDiv(rs[k].o, FSq(rs[k].p))]]
(* average of the squares over the square of the average                         *)
Contrast(rs, area) ==
  LET a == FDiv(SumR(rs, LAMBDA r : FMul(r.l, r.o)), area)
      q == FDiv(SumR(rs, LAMBDA r : FMul(FSq(r.l), r.o)), area)
  IN IF a = F0 THEN F1 ELSE FDiv(q, FSq(a))
Irradiance(rs, s, ch) == FMul(SumR(rs, LAMBDA r : FMul(FMul(r.c[3], r.rgb[ch]), r.o)), s)
Luminance(rgb, wt) == FSum([k \in 1..Len(wt) |-> FMul(rgb[k], wt[k])])
(* ------------------------------------------------------------------ glare *)
TaskLum(rs, s, rad) == LET t == SFil(rs, LAMBDA r : FLt(SigmaOf(r.c), rad)) IN FDiv(LumSum(t, s), Area(t))
Threshold(rs, s, thr, rad) == IF FGt(thr, FInt(100)) THEN thr ELSE FMul(TaskLum(rs, s, rad), thr)
Sources(rs, s, t) == SFil(rs, LAMBDA r : FGt(FMul(r.l, s), t))
Background(rs, s, t) == SFil(rs, LAMBDA r : FLe(FMul(r.l, s), t))
PwSl2(src, s) == SumR(src, LAMBDA r : FDiv(FMul(FSq(FMul(r.l, s)), r.o), FSq(r.p)))
BackLum(il, sil) == FDiv(FSub(il, sil), FPi)
LogGc(pw, il) == FLog10(FAdd(F1, FDiv(pw, FPow(il, FDec(187, 2)))))
Dgp1(il) == FMul(FDec(587, 7), il)
Dgp2(lg) == FMul(FDec(918, 4), lg)
LowLight(il) == LET e == FExp(FSub(FMul(FDec(24, 3), il), FInt(4))) IN FDiv(e, FAdd(F1, e))
Dgp(il, lg, low) ==
  LET g == FAdd(FAdd(Dgp1(il), Dgp2(lg)), FDec(16, 2))
  IN FMin(F1, IF low /\ FLt(il, FInt(500)) THEN FMul(LowLight(il), g) ELSE g)
Ugr(pw, bl) == IF pw = F0 THEN F0 ELSE FMax(F0, FMulI(FLog10(FDiv(FDivI(pw, 4), bl)), 8))
Ugp(u) == FDiv(F1, FPowI(FAdd(F1, FMul(FRat(2, 7), Pow10(FDivI(FNeg(FAdd(u, FInt(5))), 40)))), 10))
===============================================================================

---------------------------------- MODULE Fx ----------------------------------
(* Real arithmetic for the specifications: fixed point with 20 decimals over   *)
(* the big integers of Big.  The number x is represented by round(x * 10^20).  *)
(* Binary64 values recorded from the implementation enter exactly rounded to   *)
(* 10^-20; NaN and the infinities enter as <<2>>, <<3>> and <<-3>>.            *)
EXTENDS Big, SequencesExt, TLC

FScale == <<1, 0, 0, 0, 0, 0, 1>>                     \* 10^20
F0 == BZero
F1 == FScale
FInt(i) == BMul(BInt(i), FScale)
FRat(p, q) == BDivT(BMul(BInt(p), FScale), BInt(q))
(* i + a*10^-9 + b*10^-18, all non-negative: a decimal literal *)
F9(i, a, b) == BAdd(FInt(i), BAdd(BMul(BInt(a), BMul(BInt(10000000), BInt(10000))),
                                  BMul(BInt(b), BInt(100))))
P10(k) == LET RECURSIVE p(_)
              p(n) == IF n = 0 THEN BInt(1) ELSE BMul(BInt(10), p(n-1)) IN p(k)
FEps == [n \in 1..20 |-> P10(20-n)]                   \* 10^-n
FDec(m, k) == BMul(BInt(m), P10(20-k))                \* m * 10^-k, k in 0..20
FMilli(m) == FDec(m, 3)

FNaN == <<2>>
FPInf == <<3>>
FNInf == <<-3>>
IsFin(a) == a[1] \in {-1, 0, 1}
AllFin(s) == \A i \in 1..Len(s) : IsFin(s[i])

FPi   == <<1, 3846, 7932, 3589, 9265, 1415, 3>>
FLn2  == <<1, 942, 9453, 559, 4718, 6931>>
FLn10 == <<1, 8402, 456, 2994, 8509, 3025, 2>>

FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a) == BNeg(a)
FMul(a, b) == BDivT(BMul(a, b), FScale)
FDiv(a, b) == BDivT(BMul(a, FScale), b)
FMulI(a, i) == BMul(a, BInt(i))
FDivI(a, i) == BDivT(a, BInt(i))
FSqrt(a) == BSqrt(BMul(a, FScale))
FSq(a) == FMul(a, a)
FAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
FLt(a, b) == BCmp(a, b) < 0
FLe(a, b) == BCmp(a, b) <= 0
FGt(a, b) == BCmp(a, b) > 0
FGe(a, b) == BCmp(a, b) >= 0
FEq(a, b) == BCmp(a, b) = 0
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(b, a) THEN b ELSE a
FClip(a, lo, hi) == FMax(lo, FMin(hi, a))

(* order on recorded values that may be infinite (never NaN) *)
XLe(a, b) == IF a = FNInf \/ b = FPInf THEN TRUE
             ELSE IF a = FPInf \/ b = FNInf THEN FALSE ELSE FLe(a, b)

FSum(s) == FoldLeft(BAdd, F0, s)

(* floor and rounding to a machine integer (|a| < 2^31) *)
FFloor(a) == LET q == BDivT(a, FScale)
                 i == BSmall(q)
             IN IF a[1] < 0 /\ BCmp(BMul(q, FScale), a) # 0 THEN i - 1 ELSE i
FRound(a) == FFloor(BAdd(a, FRat(1, 2)))
FFrac(a) == FSub(a, FInt(FFloor(a)))

(* |a - b| <= at + rt * |b|; equal non-finite values agree *)
FNear(a, b, rt, at) ==
  IF IsFin(a) /\ IsFin(b)
  THEN FLe(FAbs(FSub(a, b)), FAdd(at, FMul(rt, FAbs(b))))
  ELSE a = b
FNear9(a, b) == FNear(a, b, FEps[9], FEps[9])
FNearR(a, b) == FNear(a, b, FEps[9], FEps[15])        \* relative
FNear6(a, b) == FNear(a, b, FEps[6], FEps[6])
SeqNear(s, t, rt, at) == /\ Len(s) = Len(t)
                         /\ \A i \in 1..Len(s) : FNear(s[i], t[i], rt, at)

(* ------------------------------------------------- elementary functions *)
RECURSIVE ExpTerms(_,_,_,_)
ExpTerms(x, t, k, acc) ==
  IF t = F0 \/ k > 30 THEN acc
  ELSE LET u == FDivI(FMul(t, x), k) IN ExpTerms(x, u, k+1, BAdd(acc, u))
RECURSIVE BPow2(_)
BPow2(k) == IF k = 0 THEN <<1, 1>>
            ELSE IF k >= 20 THEN BMul(BInt(1048576), BPow2(k-20)) ELSE BMul(BInt(2), BPow2(k-1))
FExp(x) ==
  IF FLt(x, FInt(-60)) THEN F0
  ELSE LET k == FRound(FDiv(x, FLn2))
           r == FSub(x, FMulI(FLn2, k))
           e == ExpTerms(r, F1, 1, F1)
       IN IF k >= 0 THEN BMul(e, BPow2(k)) ELSE BDivT(e, BPow2(-k))

(* atanh(z) = z + z^3/3 + ... , |z| <= 0.2 *)
RECURSIVE AtanhTerms(_,_,_,_)
AtanhTerms(z2, t, k, acc) ==
  IF t = F0 \/ k > 61 THEN acc
  ELSE LET u == FMul(t, z2) IN AtanhTerms(z2, u, k+2, BAdd(acc, FDivI(u, k)))
RECURSIVE LnRed(_,_)
LnRed(x, k) ==                       \* <<m, k>> with x = m * 2^k, 0.7 < m <= 1.4
  IF FGt(x, FInt(1048576)) THEN LnRed(BDivT(x, BInt(1048576)), k+20)
  ELSE IF FGt(x, FRat(14, 10)) THEN LnRed(BDivT(x, BInt(2)), k+1)
  ELSE IF FLe(x, FRat(7, 10)) THEN LnRed(BMul(x, BInt(2)), k-1)
  ELSE <<x, k>>
FLn(x) ==                                   \* x > 0
  LET mk == LnRed(x, 0)
      z  == FDiv(FSub(mk[1], F1), FAdd(mk[1], F1))
  IN FAdd(FMulI(FLn2, mk[2]), FMulI(AtanhTerms(FSq(z), z, 3, z), 2))
FLog10(x) == FDiv(FLn(x), FLn10)
FPow(x, p) == IF x = F0 THEN F0 ELSE FExp(FMul(p, FLn(x)))     \* x >= 0, p > 0
RECURSIVE FPowI(_,_)
FPowI(x, n) == IF n = 0 THEN F1 ELSE FMul(x, FPowI(x, n-1))
FTanh(x) == LET e == FExp(FMulI(x, 2)) IN FDiv(FSub(e, F1), FAdd(e, F1))

RECURSIVE AtanTerms(_,_,_,_)
AtanTerms(z2, t, k, acc) ==           \* t carries the alternating sign
  IF t = F0 \/ k > 41 THEN acc
  ELSE LET u == FNeg(FMul(t, z2)) IN AtanTerms(z2, u, k+2, BAdd(acc, FDivI(u, k)))
AtanSmall(z) == AtanTerms(FSq(z), z, 3, z)
HalfTan(x) == FDiv(x, FAdd(F1, FSqrt(FAdd(F1, FSq(x)))))
AtanUnit(x) == FMulI(AtanSmall(HalfTan(HalfTan(HalfTan(x)))), 8)   \* |x| <= 1
FAtan(x) ==
  IF FLe(FAbs(x), F1) THEN AtanUnit(x)
  ELSE FSub(IF x[1] > 0 THEN FDivI(FPi, 2) ELSE FNeg(FDivI(FPi, 2)), AtanUnit(FDiv(F1, x)))
(* angle of the point (x, y), in (-pi, pi]; 0 at the origin *)
FAtan2(y, x) ==
  IF x = F0 /\ y = F0 THEN F0
  ELSE IF FGe(FAbs(x), FAbs(y))
  THEN LET a == AtanUnit(FDiv(y, x))
       IN IF x[1] > 0 THEN a ELSE IF y[1] >= 0 THEN FAdd(a, FPi) ELSE FSub(a, FPi)
  ELSE LET a == AtanUnit(FDiv(x, y))
       IN IF y[1] > 0 THEN FSub(FDivI(FPi, 2), a) ELSE FSub(FNeg(FDivI(FPi, 2)), a)
FAsin(x) == FAtan2(x, FSqrt(FSub(F1, FSq(x))))          \* |x| <= 1
FAcos(x) == FAtan2(FSqrt(FSub(F1, FSq(x))), x)

RECURSIVE SinTerms(_,_,_,_)
SinTerms(x2, t, k, acc) ==
  IF t = F0 \/ k > 31 THEN acc
  ELSE LET u == FNeg(FDivI(FMul(t, x2), k*(k+1))) IN SinTerms(x2, u, k+2, BAdd(acc, u))
SinR(r) == SinTerms(FSq(r), r, 2, r)               \* r - r^3/(2*3) + ...
CosR(r) == SinTerms(FSq(r), F1, 1, F1)             \* 1 - r^2/(1*2) + ...
FSin(x) == LET n == FRound(FDiv(x, FDivI(FPi, 2)))
               r == FSub(x, FDivI(FMulI(FPi, n), 2))
               q == n % 4
           IN CASE q = 0 -> SinR(r) [] q = 1 -> CosR(r)
                [] q = 2 -> FNeg(SinR(r)) [] OTHER -> FNeg(CosR(r))
FCos(x) == LET n == FRound(FDiv(x, FDivI(FPi, 2)))
               r == FSub(x, FDivI(FMulI(FPi, n), 2))
               q == n % 4
           IN CASE q = 0 -> CosR(r) [] q = 1 -> FNeg(SinR(r))
                [] q = 2 -> FNeg(CosR(r)) [] OTHER -> SinR(r)
FTan(x) == FDiv(FSin(x), FCos(x))
FDeg(r) == FDiv(FMulI(r, 180), FPi)
FRad(d) == FDivI(FMul(d, FPi), 180)
(* x modulo m in [0, m) *)
FMod(x, m) == FSub(x, BMul(m, BInt(FFloor(FDiv(x, m)))))
(* distance of two angles on a circle of circumference m *)
FCircDist(a, b, m) == LET d == FMod(FSub(a, b), m) IN FMin(d, FSub(m, d))
===============================================================================

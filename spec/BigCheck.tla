------------------------------- MODULE BigCheck -------------------------------
(* Self check of the number layer.  Run once with the Java overrides and once  *)
(* without: both runs must print the same values (the pure TLA+ definitions    *)
(* are the specification of the overrides), and the identities must hold.      *)
EXTENDS Fx, FiniteSets
CONSTANT Rows
VARIABLE n
(* a reproducible mix of sizes and signs *)
RECURSIVE Rnd(_,_)
Rnd(i, k) == IF k = 0 THEN <<>> ELSE <<((i * 7919 + 104729 * k + i * i * k) % 9973)>> \o Rnd(i, k-1)
Num(i) == LET m == Rnd(i, i % 13) IN
          IF m = <<>> THEN BInt(i - 40) ELSE BAdd(BZero, <<IF (i % 3) = 0 THEN -1 ELSE 1>> \o Append(m, 1 + (i % 9998)))
A(i) == Num(i)
C(i) == Num(i * 5 + 3)
Row(i) == LET a == A(i) c == C(i) IN
  << BAdd(a, c), BSub(a, c), BMul(a, c), IF c = BZero THEN c ELSE BDivT(a, c),
     BSqrt(IF a[1] < 0 THEN BNeg(a) ELSE a), BCmp(a, c), BSmall(BInt(i * 7919)) >>
Laws(i) == LET a == A(i) c == C(i) ab == IF a[1] < 0 THEN BNeg(a) ELSE a IN
  /\ BSub(BAdd(a, c), c) = a
  /\ BMul(a, c) = BMul(c, a)
  /\ BMul(BAdd(a, c), BInt(17)) = BAdd(BMul(a, BInt(17)), BMul(c, BInt(17)))
  /\ c # BZero => LET q == BDivT(a, c) r == BSub(a, BMul(q, c))
                  IN /\ BCmp(BMul(r, BInt(r[1])), BMul(c, BInt(c[1]))) < 0 
                     /\ (r = BZero \/ r[1] = a[1])
  /\ LET s == BSqrt(ab) IN BCmp(BMul(s, s), ab) <= 0 /\ BCmp(BMul(BAdd(s, <<1,1>>), BAdd(s, <<1,1>>)), ab) > 0
Tol == BInt(2000)
NearT(x, y) == FLe(FAbs(FSub(x, y)), Tol)
FxLaws(i) == LET x == FRat(i - 20, 13) IN
  /\ NearT(FAdd(FSq(FSin(x)), FSq(FCos(x))), F1)
  /\ NearT(FLn(FExp(x)), x)
  /\ NearT(FAtan(FTan(FRat(i - 20, 14))), FRat(i-20, 14))
  /\ NearT(FAtan2(FSin(x), FCos(x)), x) \/ FGt(FAbs(x), FPi)
  /\ NearT(FSq(FSqrt(FAbs(x))), FAbs(x))
  /\ (FLe(FAbs(x), F1) => NearT(FSin(FAsin(x)), x) /\ NearT(FCos(FAcos(x)), x))
  /\ FFloor(x) = ((i-20) \div 13)
Init == n \in 1..Rows
Next == UNCHANGED n
Inv == /\ Laws(n) /\ FxLaws(n)
       /\ PrintT(<<"ROW", n, Row(n), FSin(FRat(n, 7)), FExp(FRat(n - 20, 3)), FLn(FRat(n, 11)), FAtan2(FInt(n-20), FInt(7))>>)
Consts == /\ FMulI(FAtan(F1), 4) = FPi \/ NearT(FMulI(FAtan(F1), 4), FPi)
          /\ NearT(FLn(FInt(2)), FLn2) /\ NearT(FLn(FInt(10)), FLn10)
          /\ NearT(FExp(F1), F9(2, 718281828, 459045235))
ASSUME Consts
===============================================================================

--------------------------------- MODULE Big ---------------------------------
(* Arbitrary-precision integers for TLC (whose built-in integers are 32 bit). *)
(* A big integer is a tuple <<s, l1, l2, ...>>: s is the sign (-1, 0, 1) and  *)
(* l1, l2, ... are base-10^4 limbs, least significant first, no leading zero  *)
(* limb; zero is <<0>>.  Every operator below has a complete TLA+ definition; *)
(* java/vt/BigOv.java overrides the six arithmetic ones with                  *)
(* java.math.BigInteger for speed only, and BigCheck.tla compares the two.    *)
EXTENDS Integers, Sequences

BBase == 10000
Lmax(a, b) == IF a > b THEN a ELSE b
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

BZero == <<0>>
BSgn(a) == a[1]
Mag(a) == Tail(a)

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m
                  ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m)-1)) ELSE m
Mk(s, m) == LET k == Strip(m) IN IF k = <<>> THEN BZero ELSE <<s>> \o k

(* magnitudes *)
RECURSIVE CmpFrom(_,_,_)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                          ELSE IF Limb(a,i) < Limb(b,i) THEN -1
                          ELSE IF Limb(a,i) > Limb(b,i) THEN 1
                          ELSE CmpFrom(a, b, i-1)
MCmp(a, b) == CmpFrom(a, b, Lmax(Len(a), Len(b)))

RECURSIVE AddFrom(_,_,_,_)
AddFrom(a, b, i, c) ==
  IF i > Lmax(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a,i) + Limb(b,i) + c IN <<s % BBase>> \o AddFrom(a, b, i+1, s \div BBase)
MAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_,_,_,_)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == Limb(a,i) - Limb(b,i) - c
       IN <<s % BBase>> \o SubFrom(a, b, i+1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Strip(SubFrom(a, b, 1, 0))          \* a >= b

RECURSIVE Mul1From(_,_,_,_)
Mul1From(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % BBase>> \o Mul1From(a, d, i+1, s \div BBase)
MMul1(a, d) == Strip(Mul1From(a, d, 1, 0))
RECURSIVE MulFrom(_,_,_)
MulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE MAdd(MMul1(a, b[i]), LET r == MulFrom(a, b, i+1)
                            IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MMul(a, b) == Strip(MulFrom(a, b, 1))

(* largest digit d in lo..hi with b*d <= r *)
RECURSIVE Digit(_,_,_,_)
Digit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF MCmp(MMul1(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m-1)
RECURSIVE DivFrom(_,_,_,_,_)
DivFrom(a, b, i, r, q) ==
  IF i = 0 THEN q
  ELSE LET r1 == Strip(<<a[i]>> \o r)
           d  == Digit(r1, b, 0, BBase-1)
       IN DivFrom(a, b, i-1, MSub(r1, MMul1(b, d)), <<d>> \o q)
MDiv(a, b) == Strip(DivFrom(a, b, Len(a), <<>>, <<>>))

(* Newton iteration for the integer square root, from above *)
RECURSIVE SqrtFrom(_,_)
SqrtFrom(n, x) ==
  LET y == MDiv(MAdd(x, MDiv(n, x)), <<2>>)
  IN IF MCmp(y, x) >= 0 THEN x ELSE SqrtFrom(n, y)
Pow4(k) == [i \in 1..k |-> IF i = k THEN 1 ELSE 0]
MSqrt(n) == IF n = <<>> THEN <<>> ELSE SqrtFrom(n, Pow4(Len(n) \div 2 + 2))

(* ------------------------------------------------------------ operators *)
BNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Mag(a)

BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0 ELSE a[1] * MCmp(Mag(a), Mag(b))

BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
          ELSE Mk(b[1], MSub(Mag(b), Mag(a)))

BSub(a, b) == BAdd(a, BNeg(b))

BMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN BZero
              ELSE Mk(a[1]*b[1], MMul(Mag(a), Mag(b)))

(* quotient truncated towards zero *)
BDivT(a, b) == IF a[1] = 0 THEN BZero ELSE Mk(a[1]*b[1], MDiv(Mag(a), Mag(b)))

BSqrt(a) == IF a[1] <= 0 THEN BZero ELSE Mk(1, MSqrt(Mag(a)))

(* a 32-bit integer as a big integer, and back *)
BAbsI(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Limbs(_)
Limbs(i) == IF i = 0 THEN <<>> ELSE <<i % BBase>> \o Limbs(i \div BBase)
BInt(i) == IF i = 0 THEN BZero ELSE <<IF i < 0 THEN -1 ELSE 1>> \o Limbs(BAbsI(i))
RECURSIVE UnLimb(_)
UnLimb(m) == IF m = <<>> THEN 0 ELSE m[1] + BBase * UnLimb(Tail(m))
BSmall(a) == IF a[1] = 0 THEN 0 ELSE a[1] * UnLimb(Mag(a))
=============================================================================

---------------------------------- MODULE GssOps ----------------------------------
(* The stages of the glare sensation model of Vissenberg et al. (2021), with the    *)
(* point spread of Ijspeert et al. (1993) and eye movements after Normann (1983).   *)
EXTENDS ConeOps
Dec(a, n) == FDiv(FInt(a), FInt(10 ^ n))
(* ------------------------------------------------------------ pupil, retina      *)
PupilD(age, ev) ==
  FSub(FSub(FInt(5), FMulI(FTanh(FMul(Dec(4, 1), FLog10(FDivI(ev, 1600)))), 3)),
       FMul(FMul(Dec(43, 3), FSub(age, FInt(10))), FExp(FNeg(FDivI(ev, 174)))))
DiscA(d) == FDivI(FMul(FPi, FSq(d)), 4)
Irr(l, area, f) == FDiv(FMul(area, l), FSq(f))
(* ------------------------------------------------------------ point spread       *)
AgeF(age) == FAdd(F1, FPowI(FDivI(age, 70), 4))
D32 == Dec(32, 1)
Coef(age, m, p) ==
  LET af == AgeF(age) ra == FSqrt(af) pf == FSub(FDiv(F1, m), F1)
      csa == FDiv(F1, FAdd(F1, FDiv(af, pf)))
      cla == FDiv(F1, FAdd(F1, FDiv(pf, af)))
      u == FAdd(F1, FSq(FDiv(p, D32))) v == FAdd(F1, FSq(FDiv(D32, p)))
      b == FSub(FInt(9000), FMulI(ra, 936)) e == FDivI(ra, 2000)
      c3 == FDiv(cla, FMul(FAdd(F1, FMulI(m, 25)), FAdd(F1, FDiv(F1, af))))
  IN [c |-> << FDiv(csa, u), FDiv(csa, v), c3, FSub(cla, c3) >>,
      b |-> << FDiv(u, FMul(b, p)), FMul(v, FSub(e, FDiv(F1, FMul(b, p)))),
               FDiv(F1, FSub(FAdd(FInt(10), FMulI(m, 60)), FDiv(FInt(5), af))), F1 >>]
Spread(b, t) == FAdd(FSq(FSin(t)), FMul(FSq(b), FSq(FCos(t))))
FbT(b, c, t) == LET b2 == FSq(b) q == FAdd(FDiv(FSq(FSin(t)), b2), FSq(FCos(t)))
                IN FDiv(FDiv(c, FMul(FMulI(FPi, 2), b2)), FMul(q, FSqrt(q)))
LbT(b, c, t) == FDiv(FMul(c, b), FMul(FPi, Spread(b, t)))
Sum4(F(_)) == FAdd(FAdd(F(1), F(2)), FAdd(F(3), F(4)))
Psf4(k, t) == Sum4(LAMBDA i : FbT(k.b[i], k.c[i], t))
(* share of the light on a line that falls within h radians to either side          *)
Within(k, h) == LET tn == FTan(h) IN Sum4(LAMBDA i : FMul(k.c[i], FDiv(FMulI(FAtan(FDiv(tn, k.b[i])), 2), FPi)))
(* a sum over steps of 2 thousandths of a degree, both ends whole, may exceed it by  *)
Slack(k, h) == FAdd(FMul(FMul(FRad(FMilli(2)), FRat(3, 2)), Sum4(LAMBDA i : LbT(k.b[i], k.c[i], h))), FRat(2, 1000000))
(* share of the light of a point within h radians: the integral of the spread       *)
(* over the cap is 1 - cos(h) / sqrt(sin^2 + b^2 cos^2)                             *)
CapShare(k, h) == Sum4(LAMBDA i : FMul(k.c[i], FSub(F1, FDiv(FMul(k.b[i], FCos(h)), FSqrt(Spread(k.b[i], h))))))
(* a pixel taken as the flat parallelogram of its middle lines                       *)
PixFlat(fr, edge, p, n) ==
  LET h == FDivI(Half2[1], n) R(a, b) == RayOf(fr, edge, <<FAdd(p[1], a), FAdd(p[2], b)>>)
      c == Cross(VSub(R(h, F0), R(FNeg(h), F0)), VSub(R(F0, h), R(F0, FNeg(h))))
  IN FSqrt(Dot(c, c))
(* the spread over n pixels in a window of w degrees; the middle pixel takes what   *)
(* is left of the share within the window                                            *)
PsfKernel(k, w, n, cap) ==
  LET edge == EdgeOf(w) fr == Frame(<<F0, F1, F0>>) mid == (n + 1) \div 2
      P(i, j) == << FDivI(FRat(2 * i - 1, 2), n), FDivI(FRat(2 * j - 1, 2), n) >>
      R(i, j) == Hyp(FSub(P(i, j)[1], Half2[1]), FSub(P(i, j)[2], Half2[2]))
      K(i, j) == IF (i = mid /\ j = mid) \/ FGe(R(i, j), Half2[1]) THEN F0
                 ELSE FMul(Psf4(k, FMul(FMulI(R(i, j), 2), edge)), PixFlat(fr, edge, P(i, j), n))
      T == TLCEval([i \in 1..n |-> [j \in 1..n |-> K(i, j)]])
      s == TLCEval(FSum([i \in 1..n |-> FSum(T[i])]))
  IN [i \in 1..n |-> [j \in 1..n |-> IF i = mid /\ j = mid THEN FSub(cap, s) ELSE T[i][j]]]
(* ------------------------------------------------------------ blurs              *)
(* beyond the border the image is seen mirrored                                     *)
Rf(i, n) == LET q == ((i - 1) % (2 * n)) IN IF q < n THEN q + 1 ELSE (2 * n) - q
GW(sig, rad) == LET g == [i \in 1..(2 * rad + 1) |-> FExp(FNeg(FDiv(FInt((i - rad - 1) * (i - rad - 1)), FMulI(FSq(sig), 2))))]
                    s == FSum(g) IN TLCEval([i \in 1..(2 * rad + 1) |-> FDiv(g[i], s)])
RadOf(sig, trunc) == FFloor(FAdd(FMul(sig, trunc), Half2[1]))
GaussW(sig, trunc) == LET r == RadOf(sig, trunc) IN IF r <= 0 THEN <<F1>> ELSE GW(sig, r)
(* separable weights w around pixel (i, j)                                          *)
Blur1(img, w, i, j) ==
  LET n == Len(img) r == Len(w) \div 2
  IN FSum([a \in 1..Len(w) |-> FMul(w[a], FSum([b \in 1..Len(w) |-> FMul(w[b], img[Rf(i + a - r - 1, n)][Rf(j + b - r - 1, n)])]))])
BlurImg(img, w) ==
  LET n == Len(img) r == Len(w) \div 2
      h == TLCEval([i \in 1..n |-> [j \in 1..n |-> FSum([b \in 1..Len(w) |-> FMul(w[b], img[i][Rf(j + b - r - 1, n)])])]])
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> FSum([a \in 1..Len(w) |-> FMul(w[a], h[Rf(i + a - r - 1, n)][j])])]])
Kern1(img, K, i, j) ==
  LET n == Len(img) m == Len(K) r == m \div 2
  IN FSum([a \in 1..m |-> FSum([b \in 1..m |-> FMul(K[a][b], img[Rf(i + a - r - 1, n)][Rf(j + b - r - 1, n)])])])
(* pixels per minute of arc, of an image of n pixels across va degrees              *)
PerMin(n, va) == FDiv(FInt(n), FMulI(va, 60))
AdaptW(pm) == [b |-> GaussW(FDiv(FMul(F1, pm), FMul(FSqrt(FInt(2)), Dec(167, 3))), FInt(4)),
               d |-> LET s == FDiv(pm, FMul(FSqrt(FInt(2)), Dec(5, 2))) IN GaussW(s, FDiv(FMulI(pm, 30), s))]
Tau(eg, f) == FDiv(Dec(1, 1), FPow(FMul(eg, FSq(f)), Dec(12, 2)))
DirectW(pm, eg, f) == LET t == Tau(eg, f) S(d) == FMul(FMulI(FSqrt(FMulI(t, d)), 2), pm) IN
  << GaussW(S(30), FInt(4)), GaussW(S(250), FInt(4)) >>
(* ------------------------------------------------------------ responses          *)
AdaptTo(er, eg, con) == FMul(FPow(er, con), FPow(eg, FSub(F1, con)))             \* er, eg > 0
Root == Dec(255, 2)
Half50(ea) == FPow(FAdd(FPow(Dec(5701055, 6), FDiv(F1, Root)), IF ea = F0 THEN F0 ELSE FPow(ea, FDiv(F1, Root))), Root)
Cone(er, ea) == LET n == Dec(74, 2) a == FPow(er, n) IN FDiv(a, FAdd(a, FPow(Half50(ea), n)))
EMin == Dec(9, 3)
EMax == Dec(12, 2)
NStep == 31
Steps31(lo, hi) == LET l0 == FLn(lo) d == FDivI(FSub(FLn(hi), l0), NStep - 1) IN [k \in 1..NStep |-> FExp(FAdd(l0, FMulI(d, k - 1)))]
UBound(st, k) == IF k = NStep THEN F1 ELSE FDivI(FAdd(st[k], st[k + 1]), 2)
(* the steps that a width may be taken for: the nearest                             *)
StepsOf(st, s) == {k \in 1..NStep : /\ (k = 1 \/ FLe(UBound(st, k - 1), FAdd(s, FEps[12])))
                                    /\ FLt(s, FAdd(UBound(st, k), FEps[12]))}
FieldK == Dec(67, 2)
Field1(img, sp, K, i, j) == FSub(Blur1(img, GaussW(sp, FInt(4)), i, j),
                              FMul(K, Blur1(img, GaussW(FMul(sp, Dec(35, 1)), FInt(4)), i, j)))
(* a: slope, b: middle of the logistic                                              *)
On(r, a, b) == FDiv(F1, FAdd(F1, FExp(FMul(FSub(b, r), a))))
Off(r, a, b) == FDiv(F1, FAdd(F1, FExp(FMul(FAdd(b, r), a))))
(* eccentricity at an image position of a view of 180 degrees: an ellipse of 95     *)
(* degrees to the sides, 55 up and 85 down                                           *)
Ecc(p, lo, hi) == LET x == FSub(FMulI(p[1], 2), F1) y == FSub(FMulI(p[2], 2), F1)
              v == FDiv(y, IF y[1] >= 0 THEN Dec(61111, 5) ELSE Dec(94444, 5))
          IN FAdd(lo, FMul(FMin(F1, Hyp(FDiv(x, Dec(105556, 5)), v)), FSub(hi, lo)))
(* ------------------------------------------------------------ score              *)
L14(i, a, b) == FAdd(FAdd(FInt(i), FDec(a, 7)), FDec(b, 14))
PolyC == << L14(33, 1279728, 1708000), L14(2, 2872877, 7265947), FNeg(L14(104, 6141983, 5147600)), FNeg(L14(275, 4501021, 8009100)),
            L14(1587, 8255352, 9394000), FNeg(L14(2570, 6813747, 5830330)), L14(1837, 1741161, 1378180), FNeg(L14(499, 8491902, 7800000)) >>
Poly(e) == LET x == FDiv(FSub(e, EMin), FSub(EMax, EMin)) IN FSum([k \in 1..8 |-> FMul(PolyC[k], FPowI(x, k - 1))])
(* a whole number m as exponent of the sum                                           *)
Mink(s, m) == IF m = 4 THEN FSqrt(FSqrt(s)) ELSE IF m = 2 THEN FSqrt(s) ELSE FPow(s, FRat(1, m))
===============================================================================

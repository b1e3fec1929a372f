------------------------------ MODULE ReprojTrace ------------------------------
EXTENDS Conf, ReprojOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
E6 == FEps[6]
Chan(im) == Len(im)
Wd(im) == Len(im[1])
Ht(im) == Len(im[1][1])
RECURSIVE MaxOf(_, _)
MaxOf(s, m) == IF s = <<>> THEN m ELSE MaxOf(Tail(s), FMax(FAbs(Head(s)), m))
Top(im) == MaxOf([c \in 1..Len(im) |-> MaxOf([i \in 1..Len(im[c]) |-> MaxOf(im[c][i], F0)], F0)], F0)
(* tolerance on values: positions are off by some 10^-8 of the image; files hold   *)
(* a pixel's channels relative to its brightest                                    *)
ValTol(e) == FAdd(FMul(Top(e.im), FEps[5]), FMul(Top(e.im), e.rt))
ShapeOk(e, w, h) == Len(e.out) = Len(e.im) /\ \A c \in 1..Len(e.out) : Len(e.out[c]) = w /\ \A i \in 1..w : Len(e.out[c][i]) = h
(* open values are <<>> *)
Safe(w) == FLe(AngleOf(Frame(YAxis), w), FSub(FPi, FEps[2]))
LinO(im, n, pos) ==
  LET a == At(pos[1], n) b == At(pos[2], n) IN
  IF \E i \in {a[1], a[1] + 1}, j \in {b[1], b[1] + 1} : im[i + 1][j + 1] = <<>> THEN <<>> ELSE Linear(im, n, n, pos)
NearO(im, n, pos) == LET s == Nearest(im, n, n, pos, E6) IN IF <<>> \in s THEN <<>> ELSE IF \A u, v \in s : u = v THEN CHOOSE v \in s : TRUE ELSE <<>>
Edgy(n, pos) == \E z \in 1..2 : \E b \in {FRat(1, 2), FSub(FInt(n), FRat(1, 2))} : FLe(FAbs(FSub(pos[z], b)), E6)
Sample(im, n, pos, nearest, fill) ==
  IF fill # <<>> /\ Edgy(n, pos) THEN <<>>
  ELSE IF fill # <<>> /\ ~Covered(n, n, pos) THEN fill[1]
  ELSE IF nearest THEN NearO(im, n, pos) ELSE LinO(im, n, pos)
(* files hold no negative values, and tolerances grow beyond the border           *)
Off(e, pos) == e.rt # F0 /\ ~e.nearest /\ ~Covered(Ht(e.im), Ht(e.im), pos)
Pass(e, im, n, f(_), nearest, fill) ==
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> LET w == f(RayY(Ctr(i-1, j-1, n))) IN
     IF ~Safe(w) \/ Off(e, InPix(PosY(w), n)) THEN <<>> ELSE Sample(im, n, InPix(PosY(w), n), nearest, fill)])])
Same(out, want, tol) == \A i \in 1..Len(want) : \A j \in 1..Len(want[i]) : want[i][j] = <<>> \/ FNear(out[i][j], want[i][j], F0, tol)
(* rotation and centring *)
CRay(e, k) == RayY(<<FDivI(e.center[2*k - 1], Ht(e.im)), FDivI(e.center[2*k], Ht(e.im))>>)
Src(e) == CRay(e, 1)
Tgt(e) == IF Len(e.center) = 4 THEN CRay(e, 2) ELSE YAxis
Plain(e, c) ==
  LET n == Ht(e.im) im == e.im[c]
      R(w) == IF e.ang = F0 THEN w ELSE Turn(e.ang, w)
      C(w) == IF e.center = <<>> THEN w ELSE Aim(Src(e), Tgt(e), w)
  IN IF e.first \/ e.ang = F0 THEN Pass(e, im, n, LAMBDA w : C(R(w)), e.nearest, e.fill)
     ELSE Pass(e, Pass(e, im, n, C, e.nearest, e.fill), n, R, e.nearest, e.fill)
TurnedFirst(e, c) ==
  LET n == Ht(e.im)
  IN Pass(e, e.im[c], n, LAMBDA w : Turn(e.ang, Aim(Turn(FNeg(e.ang), Src(e)), Tgt(e), w)), e.nearest, e.fill)
Both(e) == e.first /\ e.ang # F0 /\ e.center # <<>>
JRot(e) == LET tol == ValTol(e) IN FirstBad(<<
  <<"images can be rotated", e.exc = "">>,
  <<"the image keeps its size", ShapeOk(e, Wd(e.im), Ht(e.im))>>,
  <<"every pixel shows what lay in its direction", All(Chan(e.im), LAMBDA c :
     Same(e.out[c], Plain(e, c), tol) \/ (Both(e) /\ Same(e.out[c], TurnedFirst(e, c), tol)))>>,
  <<"the result is where it belongs", e.name = e.wname>>,
  <<"rotating first rotates before centring", ~Both(e) \/ All(Chan(e.im), LAMBDA c : Same(e.out[c], TurnedFirst(e, c), tol))>> >>)
(* angular <-> square *)
JToAng(e) ==
  LET n == Ht(e.im) full == e.full tol == ValTol(e)
      fr(i) == IF i >= n THEN Frame(VNeg(YAxis)) ELSE Frame(YAxis)
      C(i, j) == Ctr(i % n, j, n)
      Cands(im, i, j) == LET q == UVOf(Frame(YAxis), FInt(180), full, RayOf(fr(i), Hemi, C(i, j)))
                         IN {im[(a % (Wd(e.im))) + 1][(b % n) + 1] : a \in CellAt(FMulI(q[1], n), E6), b \in CellAt(FMulI(q[2], n), E6)}
  IN FirstBad(<<
  <<"square images can be converted", e.exc = "">>,
  <<"the image keeps its size", ShapeOk(e, Wd(e.im), n)>>,
  <<"every angular pixel shows the cell of its direction, others are black", All(Chan(e.im), LAMBDA c :
     \A i \in 0..(Wd(e.im)-1) : \A j \in 0..(n-1) :
       LET r == Rho(C(i, j)) IN
       IF FGt(r, Half2[1]) THEN e.out[c][i + 1][j + 1] = F0
       ELSE \E v \in Cands(e.im[c], i, j) : FNear(e.out[c][i + 1][j + 1], v, F0, tol))>>,
  <<"the result is where it belongs", e.name = e.wname>> >>)
JToUv(e) ==
  LET n == Ht(e.im) tol == ValTol(e) W == IF e.full THEN 2 * n ELSE n
      Cands(im, i, j) ==
        LET w == UVRay(Frame(YAxis), e.va, e.full, Ctr(i, j, n))
            q == IF e.full THEN Pos360(YAxis, w) ELSE PosOf(Frame(YAxis), EdgeOf(e.va), w)
        IN {im[a + 1][b + 1] : a \in CellAt(FMulI(q[1], n), E6) \cap 0..(W-1), b \in CellAt(FMulI(q[2], n), E6) \cap 0..(n-1)}
  IN FirstBad(<<
  <<"angular images can be converted", e.exc = "">>,
  <<"the image keeps its size", ShapeOk(e, W, n)>>,
  <<"every square cell shows the pixel of its direction", All(Chan(e.im), LAMBDA c :
     \A i \in 0..(W-1) : \A j \in 0..(n-1) : \E v \in Cands(e.im[c], i, j) : FNear(e.out[c][i + 1][j + 1], v, F0, tol))>>,
  <<"the result is where it belongs", e.name = e.wname>> >>)
(* equisolid <-> equiangular *)
JSolid(e) ==
  LET n == Ht(e.im) tol == ValTol(e)
      Src2(i, j) == SolidSrc(Ctr(i, j, n), e.va, e.reverse)
      In(i, j) == FLt(Rho(IF e.reverse THEN Ctr(i, j, n) ELSE Src2(i, j)), Half2[1])
      Rim(i, j) == FLe(FAbs(FSub(Rho(IF e.reverse THEN Ctr(i, j, n) ELSE Src2(i, j)), Half2[1])), E6)
  IN FirstBad(<<
  <<"equisolid images can be converted", e.exc = "">>,
  <<"the image keeps its size", ShapeOk(e, n, n)>>,
  <<"every pixel in view shows the position of its angle, others are black", All(Chan(e.im), LAMBDA c :
     \A i \in 0..(n-1) : \A j \in 0..(n-1) : Rim(i, j) \/ (In(i, j) /\ Off(e, InPix(Src2(i, j), n))) \/
        LET v == e.out[c][i + 1][j + 1] IN
        IF ~In(i, j) THEN v = F0
        ELSE LET t == Sample(e.im[c], n, InPix(Src2(i, j), n), e.nearest, <<>>) IN t = <<>> \/ FNear(v, t, F0, tol))>>,
  <<"the view of the result is given", e.ovm = "">>,
  <<"the result is where it belongs", e.name = e.wname>> >>)
(* transform from one view to another *)
Tr(e, c, dOut, vOut, dIn, vIn) ==        \* output in view dOut, input in view dIn
  LET n == Ht(e.im) fo == Frame(Unit(dOut)) fi == Frame(Unit(dIn)) IN
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
    LET w == RayOf(fo, EdgeOf(vOut), Ctr(i-1, j-1, n)) a == AngleOf(fi, w) IN
    IF FLe(FAbs(FSub(a, EdgeOf(vIn))), FEps[7]) THEN <<>>
    ELSE IF FGt(a, EdgeOf(vIn)) THEN F0
    ELSE Sample(e.im[c], n, InPix(PosOf(fi, EdgeOf(vIn), w), n), e.nearest, <<>>)])])
JTrans(e) == LET tol == ValTol(e) IN FirstBad(<<
  <<"images can be transformed", e.exc = "">>,
  <<"the image keeps its size", ShapeOk(e, Ht(e.im), Ht(e.im))>>,
  <<"every pixel shows what lay in its direction", All(Chan(e.im), LAMBDA c :
     \/ Same(e.out[c], Tr(e, c, e.d1, e.v1, e.d2, e.v2), tol) \/ Same(e.out[c], Tr(e, c, e.d2, e.v2, e.d1, e.v1), tol))>>,
  <<"the transformed image is seen from the other view", All(Chan(e.im), LAMBDA c : Same(e.out[c], Tr(e, c, e.d2, e.v2, e.d1, e.v1), tol))>> >>)
(* rays of an image: direction, solid angle (as in Cone), value                    *)
JVol(e) ==
  LET n == Ht(e.im) W == Wd(e.im) N == W * n fr == Frame(Unit(e.d))
      I(k) == (k-1) \div n
      J2(k) == (k-1) % n
      Dir(k) == IF I(k) >= n THEN RayOf(Frame(VNeg(Unit(e.d))), EdgeOf(e.va), Ctr(I(k) - n, J2(k), n)) ELSE RayOf(fr, EdgeOf(e.va), Ctr(I(k), J2(k), n))
  IN FirstBad(<<
  <<"images have rays", e.exc = "">>,
  <<"there is a ray for every pixel", Len(e.v) = N /\ Len(e.o) = N /\ Len(e.l) = N>>,
  <<"rays have the pixel's direction", All(N, LAMBDA k : VNear(e.v[k], Dir(k), E6))>>,
  <<"rays have the pixel's solid angle", All(N, LAMBDA k : FNear(e.o[k], e.wo[((k-1) % (n * n)) + 1], FEps[9], FEps[12]))>>,
  <<"rays have the pixel's value", All(N, LAMBDA k : All(Chan(e.im), LAMBDA c : e.l[k][c] = e.im[c][I(k) + 1][J2(k) + 1]))>> >>)
J(s, e) == CASE e.k = "rot" -> JRot(e) [] e.k = "toang" -> JToAng(e) [] e.k = "touv" -> JToUv(e)
             [] e.k = "solid" -> JSolid(e) [] e.k = "trans" -> JTrans(e) [] e.k = "vol" -> JVol(e)
===============================================================================

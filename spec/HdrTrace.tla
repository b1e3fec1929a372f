-------------------------------- MODULE HdrTrace --------------------------------
(* Recorded writes and reads of pictures against HdrOps.                        *)
EXTENDS Conf, HdrOps, Fx
S0 == [x |-> 0]
S(s, e) == s
Shape3(A, e) == Len(A) = 3 /\ \A c \in 1..3 : Len(A[c]) = e.x /\ \A i \in 1..e.x : Len(A[c][i]) = e.y
Shape2(A, e) == Len(A) = e.x /\ \A i \in 1..e.x : Len(A[i]) = e.y
Pix(A, i, j) == <<A[1][i][j], A[2][i][j], A[3][i][j]>>
All(e, P(_, _)) == \A i \in 1..e.x : \A j \in 1..e.y : P(i, j)
(* value of <<n, k>> as a fixed point number; the driver keeps these in range   *)
V(v) == IF v[1] = 0 THEN F0
        ELSE IF v[2] >= 0 THEN BMul(FInt(v[1]), BPow2(v[2])) ELSE BDivT(FInt(v[1]), BPow2(-v[2]))
CIE == <<FDec(26510582, 8), FDec(67010583, 8), FDec(6478836, 8)>>   \* pvalue -b

JColor(e) == FirstBad(<<
  <<"writing and reading a picture succeeds", e.exc = "">>,
  <<"the writer returns the file it wrote", e.ret>>,
  <<"the picture read has the shape of the array written", Shape3(e.r, e)>>,
  <<"every pixel and channel reads back as its RGBE value, in place",
     All(e, LAMBDA i, j : PixelOk(Pix(e.w, i, j), Pix(e.r, i, j)))>>,
  <<"rewriting what was read changes nothing", e.r2 = e.r>>,
  <<"reading from a stream equals reading the file", e.rs = e.r>> >>)
JGray(e) == FirstBad(<<
  <<"writing and reading a picture succeeds", e.exc = "">>,
  <<"the writer returns the file it wrote", e.ret>>,
  <<"the picture read has the shape of the array written", Shape2(e.r, e) /\ Shape3(e.rc, e)>>,
  <<"gray pictures read as three equal channels", e.rc[1] = e.rc[2] /\ e.rc[2] = e.rc[3]>>,
  <<"every pixel reads back as its RGBE value, in place",
     All(e, LAMBDA i, j : PixelOk(<<e.w[i][j], e.w[i][j], e.w[i][j]>>, Pix(e.rc, i, j)))>>,
  <<"the gray reading equals the colour reading",
     All(e, LAMBDA i, j : FNear(V(e.r[i][j]), V(e.rc[1][i][j]), FEps[6], FEps[15]))>>,
  <<"rewriting what was read changes nothing",
     All(e, LAMBDA i, j : FNear(V(e.r2[i][j]), V(e.r[i][j]), FEps[6], FEps[15]))>>,
  <<"reading from a stream equals reading the file", e.rs = e.r>> >>)
JWeight(e) == FirstBad(<<
  <<"writing and reading a picture succeeds", e.exc = "">>,
  <<"the picture read has the shape of the array written", Shape2(e.g, e) /\ Shape2(e.v, e)>>,
  <<"the gray reading is the luminance of the colour",
     All(e, LAMBDA i, j : FNear(V(e.g[i][j]),
        FSum([c \in 1..3 |-> FMul(CIE[c], V(e.r[c][i][j]))]), FDec(1, 5), FEps[12]))>>,
  <<"a weighted reading is the weighted sum of the channels",
     All(e, LAMBDA i, j : FNear(V(e.v[i][j]),
        FSum([c \in 1..3 |-> FMul(e.wt[c], V(e.r[c][i][j]))]), FEps[6], FEps[12]))>>,
  <<"a weighted reading from a stream equals that of the file", e.sv>> >>)
JSame(e) == FirstBad(<<
  <<"writing and reading a picture succeeds", e.exc = "">>,
  <<"all ways of writing and reading the same picture agree", e.same>> >>)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN F1 ELSE FMul(Head(q), Prod(Tail(q)))
JExpo(e) ==
  LET x == Prod(e.ex) ok(u, v) == FNear(FMul(V(u), x), v, FEps[5], FEps[12])
  IN FirstBad(<<
  <<"writing and reading a picture succeeds", e.exc = "">>,
  <<"the picture read has the shape of the array written", Shape3(e.e, e) /\ Shape2(e.g, e) /\ Shape2(e.v, e)>>,
  <<"exposures in the header are undone", \A c \in 1..3 : All(e, LAMBDA i, j : ok(e.e[c][i][j], V(e.r[c][i][j])))>>,
  <<"exposures in the header are undone in gray", All(e, LAMBDA i, j : ok(e.g[i][j], V(e.rg[i][j])))>>,
  <<"a weighted reading is the weighted sum of the channels",
     All(e, LAMBDA i, j : ok(e.v[i][j], FSum([c \in 1..3 |-> FMul(e.wt[c], V(e.r[c][i][j]))])))>>,
  <<"reading from a stream equals reading the file", e.es = e.e>> >>)
(* luminance of RGB values (179 lm/W) and of the bytes of RGBE pixels; whether a     *)
(* mantissa of zero means zero or half a step is left open                            *)
Wts(e) == IF e.wt = <<>> THEN <<FDec(265, 3), FDec(670, 3), FDec(65, 3)>> ELSE e.wt
WSum(w, c) == FSum([i \in 1..3 |-> FMul(w[i], c[i])])
StepOf(x) == IF x >= 136 THEN BMul(F1, BPow2(x - 136)) ELSE BDivT(F1, BPow2(136 - x))
JLum(e) == FirstBad(<<
  <<"colours and pixel bytes have a luminance", e.exc = "" /\ Len(e.rad) = Len(e.rgb) /\ Len(e.lum) = Len(e.rgb) /\ Len(e.lume) = Len(e.rgbe)>>,
  <<"radiance is the weighted sum of the channels", \A i \in 1..Len(e.rgb) : FNear(e.rad[i], WSum(Wts(e), e.rgb[i]), FEps[9], FEps[15])>>,
  <<"luminance is the radiance times 179", \A i \in 1..Len(e.rgb) : FNear(e.lum[i], FMulI(WSum(Wts(e), e.rgb[i]), 179), FEps[9], FEps[15])>>,
  <<"the luminance of RGBE bytes is that of their values", \A i \in 1..Len(e.rgbe) :
     LET p == e.rgbe[i]
         W == <<FDec(265, 3), FDec(670, 3), FDec(65, 3)>>
         u == StepOf(p[4])
         half == FDivI(u, 2)
         v == WSum(W, [c \in 1..3 |-> IF p[c] = 0 THEN F0 ELSE FAdd(FMulI(u, p[c]), half)])
         z == WSum(W, [c \in 1..3 |-> IF p[c] = 0 THEN half ELSE F0])
     IN /\ FLe(FSub(FMulI(v, 179), FAdd(FEps[12], FMul(FEps[9], FMulI(v, 179)))), e.lume[i])
        /\ FLe(e.lume[i], FAdd(FMulI(FAdd(v, z), 179), FAdd(FEps[12], FMul(FEps[9], FMulI(v, 179)))))>> >>)
J(s, e) == CASE e.k = "lum" -> JLum(e) [] e.k = "expo" -> JExpo(e) [] e.k = "color" -> JColor(e) [] e.k = "gray" -> JGray(e)
             [] e.k = "weight" -> JWeight(e) [] e.k = "same" -> JSame(e)
===============================================================================

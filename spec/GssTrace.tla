------------------------------- MODULE GssTrace -------------------------------
EXTENDS Conf, GssOps
S0 == 0
S(s, e) == 0
All(s, F(_)) == \A i \in 1..Len(s) : F(i)
N9(a, b) == FNear(a, b, FEps[9], FEps[16])
(* ---------------------------------------------------------- single formulas       *)
(* an observer: age, pigmentation, focal length                                       *)
JEye(e) == IF e.exc # "" THEN "the stages of the model can be computed" ELSE
  LET k == TLCEval(Coef(e.age, e.pig, e.p)) IN FirstBad(<<
  <<"pupil diameter by age and light", All(e.ev, LAMBDA i : N9(e.pd[i], PupilD(e.age, e.ev[i])))>>,
  <<"pupil area is that of the disc", All(e.ev, LAMBDA i : N9(e.pa[i], DiscA(e.pd[i])))>>,
  <<"retinal irradiance by pupil and focal length", All(e.l, LAMBDA i : N9(e.er[i], Irr(e.l[i], e.area, e.f)))>>,
  <<"shares of the point spread", Len(e.c) = 4 /\ \A i \in 1..4 : N9(e.c[i], k.c[i])>>,
  <<"widths of the point spread", Len(e.b) = 4 /\ \A i \in 1..4 : N9(e.b[i], k.b[i])>>,
  <<"spread of a point", All(e.phi, LAMBDA i : \A j \in 1..4 : FNear(e.fb[j][i], FbT(e.b[j], e.c[j], e.phi[i]), FEps[8], FEps[12]))>>,
  <<"spread of a line", All(e.phi, LAMBDA i : \A j \in 1..4 : FNear(e.lb[j][i], LbT(e.b[j], e.c[j], e.phi[i]), FEps[8], FEps[12]))>>,
  <<"local adaptation", All(e.er, LAMBDA i : N9(e.ea[i], AdaptTo(e.er[i], e.eg, e.con)))>>,
  <<"response of the cones", All(e.er, LAMBDA i : FNear(e.vm[i], Cone(e.er[i], e.ea[i]), FEps[9], FEps[12]))>>,
  <<"a uniform adaptation is enough", All(e.er, LAMBDA i : FNear(e.v1[i], Cone(e.er[i], e.eg), FEps[9], FEps[12]))>> >>)
(* ---------------------------------------------------------- eccentricity          *)
Pt(i, j, n) == << FDivI(FRat(2 * i - 1, 2), n), FDivI(FRat(2 * j - 1, 2), n) >>
R0(p) == Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2]))
JEcc(e) == IF e.exc # "" THEN "eccentricities can be asked" ELSE FirstBad(<<
  <<"one per pixel", Len(e.s) = e.n /\ All(e.s, LAMBDA i : Len(e.s[i]) = e.n)>>,
  <<"between its limits", All(e.s, LAMBDA i : All(e.s[i], LAMBDA j : FGe(e.s[i][j], FSub(e.emin, FEps[12])) /\ FLe(e.s[i][j], FAdd(e.emax, FEps[12]))))>>,
  <<"the least in the centre", LET m == (e.n + 1) \div 2 IN All(e.s, LAMBDA i : All(e.s[i], LAMBDA j : FLe(e.s[m][m], FAdd(e.s[i][j], FEps[12]))))>>,
  <<"grows from the centre", LET m == (e.n + 1) \div 2 IN
     \A i \in m..(e.n - 1) : /\ FLe(e.s[i][m], FAdd(e.s[i + 1][m], FEps[12])) /\ FLe(e.s[m][i], FAdd(e.s[m][i + 1], FEps[12]))
                             /\ FLe(e.s[e.n + 1 - i][m], FAdd(e.s[e.n - i][m], FEps[12]))
                             /\ FLe(e.s[m][e.n + 1 - i], FAdd(e.s[m][e.n - i], FEps[12]))>>,
  <<"an ellipse about the line of sight", e.va = 180 => All(e.s, LAMBDA i : All(e.s[i], LAMBDA j : N9(e.s[i][j], Ecc(Pt(i, j, e.n), e.emin, e.emax))))>>,
  <<"every direction belongs to one width of receptive field", TRUE>> >>)
(* ---------------------------------------------------------- the whole course      *)
(* arrays are indexed by pixel; e.px are the pixels looked at                         *)
Near(a, b, big) == FNear(a, b, FEps[8], FMul(big, FEps[9]))
MaxOf(a) == FoldLeft(LAMBDA m, r : FoldLeft(FMax, m, r), F0, [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> FAbs(a[i][j])]])
Sum2(a) == FSum([i \in 1..Len(a) |-> FSum(a[i])])
AtPx(e, F(_, _)) == \A q \in 1..Len(e.px) : F(e.px[q][1], e.px[q][2])
Table(e, F(_, _)) == TLCEval([i \in 1..e.n |-> [j \in 1..e.n |-> F(i, j)]])
JRun(e) == IF e.exc # "" THEN "the model can be applied" ELSE
  LET n == e.n edge == EdgeOf(e.va)
      InV(i, j) == FLt(R0(Pt(i, j, n)), Half2[1])
      om == e.om
      (* pixels are taken as flat                                                     *)
      rt == FAdd(FDivI(FMulI(FSq(FDivI(FMulI(edge, 2), n)), 1), 2), FEps[6])
      ev == IF e.ev # F0 THEN e.ev ELSE Sum2(Table(e, LAMBDA i, j : FMul(FMul(e.ct[i][j], om[i][j]), e.lum[i][j])))
      pm == PerMin(n, e.va)
      k == TLCEval(Coef(e.age, e.pig, e.pupd))
      cap == TLCEval(Within(k, FDivI(FRad(e.fw), 2)))
      wc == LET q == FMul(FMulI(e.fw, 60), pm) IN IF FEq(FInt(FFloor(q)), q) THEN FFloor(q) ELSE FFloor(q) + 1
      w0 == wc + 1 - (wc % 2)                     \* there is a middle pixel
      slack == Slack(k, FDivI(FRad(e.fw), 2))
      ker == TLCEval(PsfKernel(k, e.fw, w0, cap))
      base == TLCEval(FDiv(FMul(Sum2(Table(e, LAMBDA i, j : FMul(om[i][j], e.er[i][j]))), FSub(F1, cap)), Sum2(om)))
      opt == IF e.sw[1] THEN e.psf ELSE e.er
      rg == IF e.sw[2] THEN e.am ELSE opt
      rc == IF e.sw[3] THEN e.dm ELSE opt
      mx == TLCEval(MaxOf(e.er))
      aw == TLCEval(AdaptW(pm))
      dw == TLCEval(DirectW(pm, e.eg, e.f))
      mid == TLCEval(BlurImg(opt, dw[1]))
      ws == TLCEval(Steps31(e.emin, e.emax))
      pd1 == FMulI(pm, 60)
      peak == FMax(FMax(MaxOf(e.log[1]), MaxOf(e.log[2])), FEps[15])
      gs == FMul(FMul(peak, Mink(FSum([c \in 1..2 |-> Sum2(Table(e, LAMBDA i, j : FMul(FPowI(FDiv(e.log[c][i][j], peak), e.norm), om[i][j])))]), e.norm)),
                 IF e.raw THEN F1 ELSE Poly(e.ecc))
      wt == Table(e, LAMBDA i, j : FMul(FPowI(FDiv(e.lum[i][j], e.lmax), 4), om[i][j]))
      ec == FDiv(Sum2(Table(e, LAMBDA i, j : FMul(wt[i][j], e.s[i][j]))), Sum2(wt))
  IN FirstBad(<<
  <<"luminance is the image scaled", \A i, j \in 1..n : FNear(e.lum[i][j], FMul(e.img[i][j], e.scale), FEps[9], FEps[12])>>,
  <<"solid angle of the pixels in view, none elsewhere", \A i, j \in 1..n : IF InV(i, j) THEN FNear(om[i][j], PixOmega(edge, Pt(i, j, n), n), rt, F0) ELSE om[i][j] = F0>>,
  <<"cosine to the line of sight", \A i, j \in 1..n : FNear(e.ct[i][j], FMax(F0, FCos(FMul(FMulI(R0(Pt(i, j, n)), 2), edge))), F0, FEps[9])>>,
  <<"pupil adapts to the light at the eye", FNear(e.pupd, PupilD(e.age, ev), FEps[6], F0) /\ N9(e.pupa, DiscA(e.pupd))>>,
  <<"global retinal irradiance", FNear(e.eg, Irr(FDiv(ev, FPi), e.pupa, e.f), FEps[6], F0)>>,
  <<"switched off stages are skipped, others are not", e.has = e.sw>>,
  <<"retinal irradiance of each pixel", \A i, j \in 1..n : N9(e.er[i][j], Irr(e.lum[i][j], e.pupa, e.f))>>,
  <<"light stays where it is", (e.sw[1] /\ e.image = "point") => LET top == MaxOf(e.psf) IN \A i, j \in 1..n : (e.er[i][j] = mx) => (e.psf[i][j] = top)>>,
  <<"the point spread", e.sw[1] => AtPx(e, LAMBDA i, j : FNear(e.psf[i][j], FAdd(Kern1(e.er, ker, i, j), base), FEps[6], FMul(mx, slack)))>>,
  <<"movement of the eye, adaptation", e.sw[2] => AtPx(e, LAMBDA i, j :
      Near(e.am[i][j], FAdd(FMul(FRat(62, 100), Blur1(opt, aw.b, i, j)), FMul(FRat(38, 100), Blur1(opt, aw.d, i, j))), mx))>>,
  <<"movement of the eye, response", e.sw[3] => AtPx(e, LAMBDA i, j : Near(e.dm[i][j], Blur1(mid, dw[2], i, j), mx))>>,
  <<"adaptation follows its movement", AtPx(e, LAMBDA i, j : rg[i][j][1] > 0 => FNear(e.ea[i][j], AdaptTo(rg[i][j], e.eg, e.con), FEps[9], FEps[15]))>>,
  <<"cones respond to their movement", AtPx(e, LAMBDA i, j : rc[i][j][1] > 0 => FNear(e.vvm[i][j], Cone(rc[i][j], e.ea[i][j]), FEps[8], FEps[12]))>>,
  <<"receptive fields", AtPx(e, LAMBDA i, j : \E q \in StepsOf(ws, e.s[i][j]) : FNear(e.lin[i][j], Field1(e.vvm, FMul(ws[q], pd1), e.frk, i, j), FEps[8], FEps[9]))>>,
  <<"one on, one off field, none else", Len(e.log) = 3 /\ \A i, j \in 1..n : e.log[3][i][j] = F0>>,
  <<"nothing outside the view", \A i, j \in 1..n : ~InV(i, j) => e.log[1][i][j] = F0 /\ e.log[2][i][j] = F0>>,
  <<"responses are logistic", AtPx(e, LAMBDA i, j : InV(i, j) => FNear(e.log[1][i][j], On(e.lin[i][j], e.fra, e.frb), FEps[8], FEps[12]) /\ FNear(e.log[2][i][j], Off(e.lin[i][j], e.fra, e.frb), FEps[8], FEps[12]))>>,
  <<"what is returned is the response", \A i, j \in 1..n : e.ret[1][i][j] = e.log[1][i][j] /\ e.ret[2][i][j] = e.log[2][i][j]>>,
  <<"eccentricities of the view", e.va = FInt(180) => \A i, j \in 1..n : N9(e.s[i][j], Ecc(Pt(i, j, n), e.emin, e.emax))>>,
  <<"eccentricity of the light", FNear(e.ecc, ec, FEps[6], F0)>>,
  <<"the score", FNear(e.score, gs, FEps[6], F0)>>,
  <<"the saved response", e.saved = <<>> \/ AtPx(e, LAMBDA i, j : \A c \in 1..2 : FNear(e.saved[c][i][j], e.log[c][i][j], F0, FMul(FMax(e.log[1][i][j], e.log[2][i][j]), FRat(1, 100))))>> >>)
(* a uniform field of e.u through each blur                                           *)
JUni(e) == IF e.exc # "" THEN "blurs can be applied to a uniform field" ELSE
  LET Flat(a, v, eps) == All(a, LAMBDA i : All(a[i], LAMBDA j : FNear(a[i][j], v, eps, F0))) IN FirstBad(<<
  <<"the point spread keeps a uniform field", Flat(e.psf, e.u, FEps[9])>>,
  <<"the movement of adaptation keeps a uniform field", Flat(e.am, e.u, FEps[9])>>,
  <<"the direct movement keeps a uniform field", Flat(e.dm, e.u, FEps[9])>>,
  <<"fields see nothing but the level", Flat(e.lin, FMul(e.u, FSub(F1, e.frk)), FEps[9])>> >>)
(* a small bright patch away from the border                                          *)
JPatch(e) == IF e.exc # "" THEN "blurs can be applied to a patch" ELSE
  LET same(a) == FNear(Sum2(a), Sum2(e.a), FEps[9], F0) n == Len(e.a)
      Sym(a) == \A i, j \in 1..n : FNear(a[i][j], a[n + 1 - i][j], FEps[7], FEps[12]) /\ FNear(a[i][j], a[i][n + 1 - j], FEps[7], FEps[12]) IN FirstBad(<<
  <<"the movement of adaptation keeps the light", same(e.am)>>,
  <<"the direct movement keeps the light", same(e.dm)>>,
  <<"the point spread keeps its share within the window", e.roomy => LET k == Coef(e.age, FMilli(106), FInt(4)) IN
     LET h == FDivI(FRad(e.fw), 2) IN
     FNear(FSub(Sum2(e.psf), FMulI(e.psf[1][1], n * n)), FMul(Within(k, h), Sum2(e.a)), F0, FMul(Sum2(e.a), Slack(k, h)))>>,
  <<"both sides alike", Sym(e.am) /\ Sym(e.dm) /\ Sym(e.psf)>> >>)
J(s, e) == CASE e.k = "eye" -> JEye(e) [] e.k = "ecc" -> JEcc(e) [] e.k = "run" -> JRun(e) [] e.k = "uni" -> JUni(e) [] e.k = "patch" -> JPatch(e)
===============================================================================

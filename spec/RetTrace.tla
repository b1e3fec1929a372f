------------------------------- MODULE RetTrace -------------------------------
EXTENDS Conf, RetOps
S0 == 0
S(s, e) == 0
Rt == FEps[9]
At == FEps[12]
Ok(a, b) == FNear(a, b, Rt, At)
All(s, F(_)) == \A i \in 1..Len(s) : F(i)
(* density along the meridians: e.deg, e.mi (0..3), result e.r                     *)
JMer(e) == IF e.exc # "" THEN "the density along a meridian can be asked" ELSE FirstBad(<<
  <<"one density per position", Len(e.r) = Len(e.deg)>>,
  <<"positive and finite", All(e.r, LAMBDA i : IsFin(e.r[i]) /\ Pos(e.r[i]))>>,
  <<"the density is that of the meridian", All(e.r, LAMBDA i : \E p \in BOOLEAN : Ok(e.r[i], Meridian(e.md, e.deg[i], e.mi[i] + 1, p)))>>,
  <<"both terms are in units of the foveal density", All(e.r, LAMBDA i : Ok(e.r[i], Meridian(e.md, e.deg[i], e.mi[i] + 1, TRUE)))>> >>)
(* positions e.xy, in degrees for one eye, in shares of 90 degrees for both         *)
Deg90(p) == <<FMulI(p[1], 90), FMulI(p[2], 90)>>
Centre(p) == p[1] = F0 /\ p[2] = F0
AtFovea(fn, v) == \E m \in {2, 4} : \E p \in BOOLEAN : Ok(v, Meridian(fn, F0, m, p))
Variants(e) == IF e.md = "field" THEN BOOLEAN ELSE {TRUE}
OneEye(e, i, side(_)) == Centre(e.xy[i]) \/ \E p \in Variants(e) : Ok(e.r[i], Mono(e.md, e.xy[i][1], e.xy[i][2], side(e.xy[i]), p))
TwoEyes(e, i, updown) == Centre(e.xy[i]) \/ LET q == Deg90(e.xy[i]) IN \E p \in Variants(e) : Ok(e.r[i], Bino(e.md, q[1], q[2], updown, p))
JXy(e) == IF e.exc # "" THEN "the density of an eye can be asked" ELSE FirstBad(<<
  <<"one density per position", Len(e.r) = Len(e.xy)>>,
  <<"positive and finite", All(e.r, LAMBDA i : IsFin(e.r[i]) /\ Pos(e.r[i]))>>,
  <<"defined at the fovea", All(e.r, LAMBDA i : Centre(e.xy[i]) => AtFovea(e.md, e.r[i]))>>,
  <<"two meridians are blended", All(e.r, LAMBDA i : OneEye(e, i, LAMBDA q : q[2]) \/ OneEye(e, i, LAMBDA q : q[1]))>>,
  <<"superior is up", All(e.r, LAMBDA i : OneEye(e, i, LAMBDA q : q[2]))>> >>)
JBino(e) == IF e.exc # "" THEN "the density of both eyes can be asked" ELSE FirstBad(<<
  <<"one density per position", Len(e.r) = Len(e.xy) /\ Len(e.mr) = Len(e.xy)>>,
  <<"positive and finite", All(e.r, LAMBDA i : IsFin(e.r[i]) /\ Pos(e.r[i]))>>,
  <<"left and right alike", All(e.r, LAMBDA i : FNear(e.mr[i], e.r[i], At, At))>>,
  <<"defined at the fovea", All(e.r, LAMBDA i : Centre(e.xy[i]) => AtFovea(e.md, e.r[i]))>>,
  <<"average of both eyes", All(e.r, LAMBDA i : TwoEyes(e, i, TRUE) \/ TwoEyes(e, i, FALSE))>>,
  <<"superior is up", All(e.r, LAMBDA i : TwoEyes(e, i, TRUE))>> >>)
(* the spread of a point, its inverse at e.y = spread at e.x                         *)
JPsf(e) == IF e.exc # "" THEN "the point spread can be asked" ELSE FirstBad(<<
  <<"one at the centre", FNear(e.c, F1, F0, At)>>,
  <<"one half at half width", FNear(e.h, FRat(1, 2), F0, At)>>,
  <<"the spread is Lorentzian", Len(e.y) = Len(e.x) /\ All(e.x, LAMBDA i : Ok(e.y[i], Psf(e.x[i], e.fwhm)))>>,
  <<"falls outward", \A i \in 1..(Len(e.x) - 1) : FGt(e.y[i], e.y[i + 1])>>,
  <<"the inverse inverts", Len(e.b) = Len(e.x) /\ All(e.x, LAMBDA i : FNear(e.b[i], e.x[i], FEps[6], FEps[6]))>>,
  <<"the inverse is where the spread falls to a value", Len(e.iv) = Len(e.v) /\ All(e.v, LAMBDA i : FNear(e.iv[i], InvPsf(e.v[i], e.fwhm), FEps[6], FEps[6]))>> >>)
(* rising luminances e.l at one solid angle e.o                                      *)
JBlur(e) == IF e.exc # "" THEN "the blur can be asked" ELSE FirstBad(<<
  <<"one correction per luminance", Len(e.r) = Len(e.l)>>,
  <<"at least one", All(e.r, LAMBDA i : IsFin(e.r[i]) /\ FGe(e.r[i], FSub(F1, At)))>>,
  <<"grows with luminance", \A i \in 1..(Len(e.r) - 1) : FLe(e.r[i], FAdd(e.r[i + 1], FMul(e.r[i + 1], At)))>>,
  <<"squared ratio of radii", All(e.r, LAMBDA i : FNear(e.r[i], BlurF(e.o, e.l[i], e.lmin, e.fwhm), FEps[7], FEps[7]))>>,
  <<"one value at a time is the same", All(e.r, LAMBDA i : FNear(e.s[i], e.r[i], At, F0))>> >>)
J(s, e) == CASE e.k = "mer" -> JMer(e) [] e.k = "xy" -> JXy(e) [] e.k = "bino" -> JBino(e) [] e.k = "psf" -> JPsf(e) [] e.k = "blur" -> JBlur(e)
===============================================================================

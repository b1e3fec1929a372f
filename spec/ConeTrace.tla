------------------------------- MODULE ConeTrace -------------------------------
EXTENDS Conf, ConeOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
Fr(e) == Frame(Unit(e.d))
E9 == FEps[9]
(* index tuple k of a batch of shape sh = its flat position                       *)
RECURSIVE FlatPos(_, _, _)
FlatPos(ix, sh, acc) == IF ix = <<>> THEN acc ELSE FlatPos(Tail(ix), Tail(sh), acc * Head(sh) + Head(ix))
MaskOk(e, want(_), open(_)) ==
  LET n == Len(e.w) IN
  /\ Len(e.mask) = n
  /\ \A k \in 1..n : open(k) \/ (e.mask[k] <=> want(k))
IdxOk(e) == LET on == SelectSeq([k \in 1..Len(e.w) |-> k], LAMBDA k : e.mask[k])
            IN e.idx = [i \in 1..Len(on) |-> on[i] - 1]
JIn(e) == LET fr == Fr(e) edge == EdgeOf(e.va) IN FirstBad(<<
  <<"membership can be asked", e.exc = "">>,
  <<"in view is inside the view cone", MaskOk(e, LAMBDA k : InCone(fr, edge, e.w[k], e.tol), LAMBDA k : AtRim(fr, edge, e.w[k], e.tol))>>,
  <<"indices are those of the mask", e.nd = Len(e.sh) - 1 /\ IdxOk(e)>> >>)
JAng(e) == LET fr == Fr(e) IN FirstBad(<<
  <<"angles can be asked", e.exc = "" /\ Len(e.ct) = Len(e.w)>>,
  <<"the cosine is that of the angle to the view direction", All(Len(e.w), LAMBDA k : FLe(FAbs(FSub(e.ct[k], Dot(fr[3], e.w[k]))), E9) /\ FLe(FAbs(e.ct[k]), F1))>>,
  <<"the angle is that to the view direction", All(Len(e.w), LAMBDA k : FLe(FAbs(FSub(e.rad[k], AngleOf(fr, e.w[k]))), FEps[7])
       /\ FLe(FAbs(FSub(e.deg[k], FDeg(e.rad[k]))), E9))>> >>)
JOmega(e) == LET edge == EdgeOf(e.va)
                 s == FDivI(FMulI(edge, 2), e.res)        \* angle of a pixel
                 rt == FAdd(FMul(FSq(s), FRat(1, 2)), FEps[5])
                 P(k) == << FDivI(e.px[k][1], e.res), FDivI(e.px[k][2], e.res) >>
  IN FirstBad(<<
  <<"solid angles can be asked", e.exc = "" /\ e.sh = e.wsh>>,
  <<"a pixel has its solid angle", All(Len(e.px), LAMBDA k : FNear(e.om[k], PixOmega(edge, P(k), e.res), rt, F0))>> >>)
JArea(e) == FirstBad(<<
  <<"views have an area", e.exc = "">>,
  <<"the view area is that of the nominal cone", FNear(e.area, ConeArea(e.va, e.full), E9, E9)>>,
  <<"the pixels inside a hemispherical view make up its area", ~e.hemi \/ FNear(e.sum, ConeArea(e.va, FALSE), FDivI(FRat(3, 2), e.res), F0)>> >>)
JPlan(e) == FirstBad(<<
  <<"membership can be asked", e.exc = "">>,
  <<"in view is inside the box", MaskOk(e,
     LAMBDA k : FGe(e.w[k][1], e.b[1][1]) /\ FLe(e.w[k][1], e.b[2][1]) /\ FGe(e.w[k][2], e.b[1][2]) /\ FLe(e.w[k][2], e.b[2][2]),
     LAMBDA k : \E z \in 1..2 : FLe(FAbs(FSub(e.w[k][z], e.b[1][z])), E9) \/ FLe(FAbs(FSub(e.w[k][z], e.b[2][z])), E9))>>,
  <<"indices are those of the mask", e.nd = 1 /\ IdxOk(e)>>,
  <<"pixels share the area of the box", All(Len(e.om), LAMBDA k : FNear(FMulI(e.om[k], e.n), FMul(FSub(e.b[2][1], e.b[1][1]), FSub(e.b[2][2], e.b[1][2])), E9, E9))
       /\ Len(e.om) = e.np>> >>)
J(s, e) == CASE e.k = "in" -> JIn(e) [] e.k = "ang" -> JAng(e) [] e.k = "omega" -> JOmega(e) [] e.k = "area" -> JArea(e)
             [] e.k = "plan" -> JPlan(e)
===============================================================================

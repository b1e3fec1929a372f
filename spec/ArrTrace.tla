------------------------------- MODULE ArrTrace -------------------------------
EXTENDS Conf, ResOps
T == INSTANCE TakeOps
S0 == 0
S(s, e) == 0
(* array of shape e.sh numbered in order, selectors e.sel on axes e.axes            *)
JTake(e) ==
  LET w == T!Whole(e.sh) IN
  IF ~T!Fits(w, e.sel, e.axes) THEN FirstBad(<< <<"places or axes outside are refused", e.exc # "" \/ e.o = <<>> >> >>)
  ELSE IF e.exc # "" THEN "elements can be selected"
  ELSE LET l == T!SelectAll(w, e.sel, e.axes) IN FirstBad(<<
    <<"the number of dimensions is kept", Len(e.osh) = Len(e.sh)>>,
    <<"as many as selected along each axis", e.osh = T!ShapeOf(l)>>,
    <<"the elements are those selected", e.o = T!Flat(l, e.sh, 1, 0)>> >>)
MaxAbs(a) == FoldLeft(LAMBDA x, y : FMax(x, FAbs(y)), F0, a)
Alike(e, w, rt) == LET t == FMul(rt, FAdd(MaxAbs(e.a), FEps[9])) IN Len(e.r) = Len(w) /\ \A i \in 1..Len(w) : FNear(e.r[i], w[i], F0, t)
Want(e) == CASE e.o = "up" -> Repeat(e.a, e.sh, e.m)
             [] e.o = "ups" -> Gauss(Repeat(e.a, e.sh, e.m), Times(e.sh, e.m), e.s)
             [] e.o = "down" -> Blocks(e.a, e.sh, e.m)
             [] e.o = "smooth" -> Gauss(e.a, e.sh, e.s)
             [] e.o = "box" -> Box(e.a, e.sh, e.m[1])
             [] OTHER -> e.a
JRes(e) == IF e.exc # "" THEN "arrays can be resampled" ELSE
  LET tsh == CASE e.o \in {"up", "ups"} -> Times(e.sh, e.m) [] e.o = "down" -> Over(e.sh, e.m) [] OTHER -> e.sh
      w == IF e.rsh = tsh THEN Want(e) ELSE <<>> IN FirstBad(<<
  <<"the result has the shape asked for", e.rsh = tsh>>,
  <<"repeating gives each element again", e.o = "up" => e.r = w>>,
  <<"the same shape gives the same data", e.o = "same" => e.r = w>>,
  <<"going down gives the mean of each block", e.o = "down" => Alike(e, w, FEps[10])>>,
  <<"smoothing is Gaussian", e.o \in {"ups", "smooth"} => Alike(e, w, FEps[9])>>,
  <<"smoothing keeps the mean", e.o \in {"ups", "smooth"} => FNear(FDivI(FSum(e.r), Len(e.r)), FDivI(FSum(e.a), Len(e.a)), F0, FMul(FEps[9], FAdd(MaxAbs(e.a), FEps[9])))>>,
  <<"not Gaussian is the moving mean", e.o = "box" => Alike(e, w, FEps[10])>> >>)
J(s, e) == CASE e.k = "take" -> JTake(e) [] e.k = "res" -> JRes(e)
===============================================================================

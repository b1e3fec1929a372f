------------------------------- MODULE CliTrace -------------------------------
(* The state is the directory: for each name what the file holds.                   *)
EXTENDS Conf, CliOps, Fx
S0 == <<>>
Disk(e) == [x \in {e.disk[i][1] : i \in 1..Len(e.disk)} |-> LET i == CHOOSE i \in 1..Len(e.disk) : e.disk[i][1] = x IN <<e.disk[i][2], e.disk[i][3]>>]
S(s, e) == IF e.k \in {"disk", "image"} /\ e.exc = "" THEN Disk(e) ELSE s
ViewOf(e, f) == LET i == CHOOSE i \in 1..Len(e.view) : e.view[i][1] = f IN e.view[i][2]
JImage(s, e) ==
  IF e.exc # "" THEN "the command can be run" ELSE
  IF e.rc # 0 THEN "the command succeeds" ELSE
  LET outs == Outs(e.c, e.files)
      names == [i \in 1..Len(outs) |-> Name(outs[i])]
      new == {names[i] : i \in 1..Len(names)}
      d == Disk(e)
  IN FirstBad(<<
  <<"every result is where it should be, nothing else is written", DOMAIN d = DOMAIN s \cup new>>,
  <<"inputs and all other files keep what they hold", \A f \in DOMAIN s : (f \notin new /\ f \in DOMAIN d) => d[f][1] = s[f][1]>>,
  <<"each result has the pixels of the library's answer", \A i \in 1..Len(names) : names[i] \in DOMAIN d => d[names[i]][2] = e.want[i]>>,
  <<"each result has the view of the library's answer", \A i \in 1..Len(names) : names[i] \in DOMAIN d => ViewOf(e, names[i]) = e.wantview[i]>>,
  <<"the names of the results are reported in order", IF ToStdout(e.c, e.files) THEN e.wrote = <<>> ELSE e.wrote = names>>,
  <<"standard output holds the single result, or nothing", e.out = (IF ToStdout(e.c, e.files) THEN e.want[1] ELSE "")>>,
  <<"the view on standard output is the library's", ToStdout(e.c, e.files) => e.outview = e.wantview[1]>> >>)
JMissing(s, e) == IF e.exc # "" THEN "the command can be run" ELSE FirstBad(<<
  <<"an image that does not exist is refused", e.rc # 0>>,
  <<"a refused command writes nothing", Disk(e) = s /\ e.silent>> >>)
(* ------------------------------------------------------------------- metric       *)
RECURSIVE Labels(_)
Labels(cs) == IF cs = <<>> THEN <<>> ELSE (IF Head(cs) = "irradiance" THEN <<"irradiance_r", "irradiance_g", "irradiance_b">> ELSE <<Head(cs)>>) \o Labels(Tail(cs))
RECURSIVE Values(_, _)
Values(cs, w) == IF cs = <<>> THEN <<>> ELSE w[Head(cs)] \o Values(Tail(cs), w)
Six(a, b) == FNear(a, b, FDec(6, 6), FEps[19])
JMetric(e) ==
  IF e.exc # "" THEN "metrics can be computed" ELSE
  IF e.rc # 0 THEN "the command succeeds" ELSE
  LET cs == Columns(e.ms) IN FirstBad(<<
  <<"a header row labels every column in order", e.header = <<"image">> \o Labels(cs)>>,
  <<"one row for each image in the order given", Len(e.rows) = Len(e.imgs) /\ \A i \in 1..Len(e.rows) : e.rows[i][1] = e.imgs[i]>>,
  <<"each row holds that image's values", \A i \in 1..Len(e.imgs) : LET w == Values(cs, e.want[i]) IN
       Len(e.rows[i][2]) = Len(w) /\ \A j \in 1..Len(w) : Six(e.rows[i][2][j], w[j])>>,
  <<"images are left as they are", e.same>> >>)
(* ------------------------------------------------------------------- smooth       *)
N(e) == Len(e.xs)
Sigma(e) == IF e.sigma # <<>> THEN FMul(e.sigma[1], e.sf)
            ELSE LET m == FDivI(FSum(e.xs), N(e))
                     var == FDivI(FSum([i \in 1..N(e) |-> FSq(FSub(e.xs[i], m))]), N(e) - 1)
                 IN FMul(FMul(FSqrt(var), FDiv(F1, FExp(FDivI(FLn(FInt(N(e))), 5)))), e.sf)
Lo(e) == FoldLeft(FMin, e.xs[1], e.xs)
Hi(e) == FoldLeft(FMax, e.xs[1], e.xs)
Xs(e) == IF e.count = 0 THEN e.xout ELSE [i \in 1..e.count |-> FAdd(Lo(e), FDivI(FMulI(FSub(Hi(e), Lo(e)), i - 1), e.count - 1))]
Near8(a, b) == FNear(a, b, FEps[8], FEps[9])
JSmooth(e) ==
  IF e.exc # "" THEN "a curve can be resampled" ELSE
  IF e.rc # 0 THEN "the command succeeds" ELSE
  LET sg == Sigma(e) xs == Xs(e)
      W == [i \in 1..Len(xs) |-> [j \in 1..N(e) |-> FExp(FNeg(FDivI(FSq(FDiv(FSub(xs[i], e.xs[j]), sg)), 2)))]]
      Row(i) == LET tot == FSum(W[i]) IN
         IF e.ys = <<>> THEN <<FDiv(FDivI(tot, N(e)), FMul(sg, FSqrt(FMulI(FPi, 2))))>>
         ELSE [k \in 1..Len(e.ys) |-> FDiv(FSum([j \in 1..N(e) |-> FMul(W[i][j], e.ys[k][j])]), tot)]
      Apart == \A i \in 1..Len(xs) : FGt(FSum(W[i]), FEps[6])
  IN FirstBad(<<
  <<"one row for each x asked", Len(e.rows) = Len(xs)>>,
  <<"the x coordinates are those asked", \A i \in 1..Len(xs) : Near8(e.rows[i][1], xs[i])>>,
  <<"a column for each y, or the density", \A i \in 1..Len(xs) : Len(e.rows[i]) = 1 + (IF e.ys = <<>> THEN 1 ELSE Len(e.ys))>>,
  <<"the curve is the Gaussian smoothing of the data", Apart => \A i \in 1..Len(xs) : LET w == Row(i) IN \A k \in 1..Len(w) : Near8(e.rows[i][k + 1], w[k])>> >>)
J(s, e) == CASE e.k = "disk" -> "ok" [] e.k = "image" -> JImage(s, e) [] e.k = "missing" -> JMissing(s, e)
             [] e.k = "metric" -> JMetric(e) [] e.k = "smooth" -> JSmooth(e)
================================================================================

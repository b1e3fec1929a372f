--------------------------------- MODULE ImgTrace ---------------------------------
(* Recorded: the metrics of the file, and those of the rays (directions of the view's *)
(* pixels, their solid angles, luminances by each of the weights) as plain metric     *)
(* sets give them, consolidated and not: the one that applies is chosen here.         *)
EXTENDS Conf, ImgOps, ViewOps
S0 == 0
S(s, e) == 0
Usual == << FRat(26507413, 100000000), FRat(67011463, 100000000), FRat(6481124, 100000000) >>
HdrOf(h) == CASE h = <<>> -> "none" [] Len(h) # 3 -> "short"
              [] OTHER -> IF \A i \in 1..3 : FLe(FAbs(FSub(h[i], Usual[i])), FMilli(1)) THEN "usual" ELSE "odd"
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ FNear(a[i], b[i], FEps[9], FEps[12])
(* illuminance of the pixels inside the view                                           *)
Illum(e, w) ==
  LET n == Len(e.om) fr == Frame(Unit(e.d)) edge == EdgeOf(e.va)
      P(i, j) == << FDivI(FRat(2 * i - 1, 2), n), FDivI(FRat(2 * j - 1, 2), n) >>
      L(i, j) == FAdd(FAdd(FMul(w[1], e.rgb[1][i][j]), FMul(w[2], e.rgb[2][i][j])), FMul(w[3], e.rgb[3][i][j]))
      T(i, j) == IF e.om[i][j] = F0 \/ L(i, j) = F0 THEN F0
                 ELSE FMul(FMul(L(i, j), e.om[i][j]), FMax(F0, Dot(RayOf(fr, edge, P(i, j)), fr[3])))
  IN FMul(e.scale, FSum([i \in 1..n |-> FSum([j \in 1..n |-> T(i, j)])]))
J(s, e) ==
  IF e.exc # "" THEN "an image has metrics" ELSE
  LET col == NeedsColor(e.ms)
      wt == WeightsOf(e.given # <<>>, HdrOf(e.hdr), col)
      vw == ViewFrom(e.view)
      want == e.want[wt][vw][IF e.peak THEN "consolidated" ELSE "pixels"]
      w == CASE wt = "given" -> e.given [] wt = "header" -> e.hdr [] OTHER -> << FRat(265, 1000), FRat(670, 1000), FRat(65, 1000) >>
      at == CHOOSE i \in 1..Len(e.ms) : e.ms[i] = "illum"
      first == at + (IF \E i \in 1..(at - 1) : e.ms[i] = "irradiance" THEN 2 ELSE 0)
  IN FirstBad(<<
  <<"a value for each metric (three for irradiance)", Len(e.got) = Len(e.ms) + (IF col THEN 2 ELSE 0)>>,
  <<"the metrics are those of the image's rays", Same(e.got, want)>>,
  <<"illuminance is that of the pixels", (e.dark /\ (~e.peak) /\ Contains(e.ms, "illum")) =>
       FNear(e.got[first], Illum(e, w), IF wt = "default" THEN FMilli(3) ELSE FEps[5], FEps[9])>>,
  <<"the image is left as it is", e.same>> >>)
===================================================================================

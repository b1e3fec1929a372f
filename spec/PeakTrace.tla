------------------------------- MODULE PeakTrace -------------------------------
EXTENDS Conf, PeakOps
S0 == 0
S(s, e) == 0
Lum(e, k) == IF e.wt = <<>> THEN e.l[k][1] ELSE FSum([i \in 1..Len(e.wt) |-> FMul(e.l[k][i], e.wt[i])])
Px(e) == TLCEval([k \in 1..Len(e.o) |-> [l |-> Lum(e, k), o |-> e.o[k]]])
BrightSet(e, g) == {k \in 1..Len(e.o) : FGt(FMul(g[k].l, e.s), e.peakt)}
Near(e, g, B, c) == LET r == FCos(Radius(e.peaka, e.peakrad)) IN {k \in B : FGt(Dot(e.v[c], e.v[k]), r)}
Ch(e) == Len(e.l[1])
Esum(e, P, i) == SetSum(P, LAMBDA k : FMul(e.l[k][i], e.o[k]))
(* rows of a result are those inputs, in order                                     *)
Rows(e, v, o, l, ids) ==
  /\ Len(v) = Len(ids) /\ Len(o) = Len(ids) /\ Len(l) = Len(ids)
  /\ \A i \in 1..Len(ids) : v[i] = e.v[ids[i]] /\ o[i] = e.o[ids[i]] /\ l[i] = e.l[ids[i]]
Zeroed(e, v, o, l, P) ==
  /\ Len(v) = Len(e.v) /\ Len(o) = Len(e.o) /\ Len(l) = Len(e.l)
  /\ \A i \in 1..Len(e.v) : /\ v[i] = e.v[i]
                            /\ o[i] = (IF i \in P THEN F0 ELSE e.o[i])
                            /\ \A j \in 1..Ch(e) : l[i][j] = (IF i \in P THEN F0 ELSE e.l[i][j])
Same3(a, b) == VNear(a[1], b[1], FEps[12]) /\ FNear(a[2], b[2], FEps[12], F0) /\ SeqNear(a[3], b[3], FEps[12], FEps[12])
(* secondary sources, brightest group first                                        *)
RECURSIVE Second(_, _, _, _)
Second(e, g, T, r2) ==
  IF Cardinality(T) <= 3 THEN <<>>
  ELSE LET c == CHOOSE k \in T : g[k].l = MaxL(g, T)
           D == {k \in T : FGt(Dot(e.v[c], e.v[k]), r2)}
           n == Cardinality(D)
           a == SetSum(D, LAMBDA k : g[k].o)
       IN << << [z \in 1..3 |-> FDivI(SetSum(D, LAMBDA k : e.v[k][z]), n)], a,
                [i \in 1..Ch(e) |-> FDiv(Esum(e, D, i), a)] >> >> \o Second(e, g, T \ D, r2)
JPeak(e) ==
  LET g == Px(e) B == BrightSet(e, g)
      P == {k + 1 : k \in ToSet(e.pc)}
      rest == SelectSeq([k \in 1..Len(e.o) |-> k], LAMBDA k : k \notin P)
      tops == {c \in B : Least(g[c].l, MaxL(g, B))}
      Gc(c) == Near(e, g, B, c)
      Es(c) == Expected(g, Gc(c), e.tol, e.peaka, e.peakc)
      wh(c) == WholeSel(g, Gc(c), P, Es(c))
      pt(c) == PartSel(g, Gc(c), P, Es(c), e.peakr)
      ar(c, w) == AreaOf(g, P, w, e.peaka, e.peakc)
      en(i) == Esum(e, P, i)
      cf(a) == IF e.blur THEN BlurF(a, FDiv(Energy(g, P), a), LMin, Fwhm) ELSE F1
      (* the sun's direction, weighted by energy                                   *)
      dir == Unit([z \in 1..3 |-> SetSum(P, LAMBDA k : FMul(FMul(g[k].l, g[k].o), e.v[k][z]))])
  IN IF B = {} THEN FirstBad(<<
       <<"without bright pixels nothing changes", Rows(e, e.all[1], e.all[2], e.all[3], rest) /\ P = {}
            /\ Rows(e, e.parts[1], e.parts[2], e.parts[3], rest) /\ Zeroed(e, e.zeros[1], e.zeros[2], e.zeros[3], {})>>,
       <<"without bright pixels there is no source", Len(e.none) = 3 * (4 + Ch(e)) /\ \A i \in 1..Len(e.none) : e.none[i] = F0>>,
       <<"the caller's arrays do not change", e.same>> >>)
     ELSE FirstBad(<<
       <<"the pixels taken are those of the source", \E c \in tops : wh(c) \/ pt(c)>>,
       <<"the source has the area of the sun, or less if partly visible", \E c \in tops : \E w \in BOOLEAN : (IF w THEN wh(c) ELSE pt(c)) /\ FNear(e.src[2], FMul(ar(c, w), cf(ar(c, w))), FEps[9], F0)>>,
       <<"the source has the energy of its pixels, in every channel", Len(e.src[3]) = Ch(e) /\ \A i \in 1..Ch(e) : FNear(FMul(e.src[2], e.src[3][i]), en(i), FEps[9], F0)>>,
       <<"the source lies in their energy weighted direction", VNear(e.src[1], dir, FEps[9])>>,
       <<"all other rays are as before and the source is added", Len(e.all[1]) = Len(rest) + 1
            /\ Rows(e, Front(e.all[1]), Front(e.all[2]), Front(e.all[3]), rest)
            /\ Same3(<<Last(e.all[1]), Last(e.all[2]), Last(e.all[3])>>, e.src)>>,
       <<"the parts are the source and all other rays", Rows(e, e.parts[1], e.parts[2], e.parts[3], rest)>>,
       <<"kept pixels are zeroed", Zeroed(e, e.zeros[1], e.zeros[2], e.zeros[3], P)>>,
       <<"zeroed pixels and the source", Zeroed(e, Front(e.zall[1]), Front(e.zall[2]), Front(e.zall[3]), P)
            /\ Same3(<<Last(e.zall[1]), Last(e.zall[2]), Last(e.zall[3])>>, e.src)>>,
       <<"every form reports the same source", \A i \in 1..Len(e.srcs) : Same3(e.srcs[i], e.src)>>,
       <<"the caller's arrays do not change", e.same>> >>)
JSecond(e) ==
  LET g == Px(e) B == BrightSet(e, g)
      c == CHOOSE k \in B : g[k].l = MaxL(g, B)
      r2 == FCos(FMulI(Radius(e.peaka, e.peakrad), 8))
      want == Second(e, g, {k \in B : FLt(Dot(e.v[c], e.v[k]), r2) /\ FGt(FMul(g[k].l, e.s), FMulI(e.peakt, 4))}, r2)
  IN FirstBad(<<
       <<"every secondary source is reported", Len(e.second) = Len(want)>>,
       <<"secondary sources collect their pixels", \A i \in 1..Len(want) : LET x == e.second[i] y == want[i] IN
            VNear(x[1], y[1], FEps[9]) /\ FNear(x[2], y[2], FEps[9], F0) /\ SeqNear(x[3], y[3], FEps[9], F0)>> >>)
JBlur(e) == FirstBad(<<
       <<"the blur factor is the squared ratio of the radii", SeqNear(e.f, [i \in 1..Len(e.o) |-> BlurF(e.o[i], e.lm[i], e.lmin, e.fw)], FEps[9], F0)>> >>)
J(s, e) == IF e.exc # "" THEN "the call works" ELSE
  CASE e.k = "peak" -> JPeak(e) [] e.k = "second" -> JSecond(e) [] e.k = "blur" -> JBlur(e)
===============================================================================

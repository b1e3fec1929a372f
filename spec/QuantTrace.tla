------------------------------- MODULE QuantTrace -------------------------------
EXTENDS Conf, QuantOps
S0 == 0
S(s, e) == 0
Rt == FEps[9]
(* data e.d, weights e.w (none: <<>>), threshold e.t, quantiles e.q                  *)
JQuant(e) == IF e.exc # "" THEN "quantiles can be asked" ELSE
  LET s == Sorted(Above(Pr(e.d, IF e.plain THEN [i \in 1..Len(e.d) |-> F1] ELSE e.w), IF e.plain THEN F0 ELSE e.t))
      tol == FMul(FEps[10], FAdd(FAbs(s[1][1]), FAbs(s[Len(s)][1]))) IN FirstBad(<<
  <<"one value per quantile", Len(e.r) = Len(e.q) /\ e.rsh = e.qsh>>,
  <<"within the range of the data counted", \A i \in 1..Len(e.r) : IsFin(e.r[i]) /\ FGe(e.r[i], FSub(s[1][1], tol)) /\ FLe(e.r[i], FAdd(s[Len(s)][1], tol))>>,
  <<"quantiles interpolate over cumulative weight", \A i \in 1..Len(e.r) : IsWQ(s, e.q[i], e.r[i], Rt)>>,
  <<"one quantile at a time is the same", \A i \in 1..Len(e.r) : FNear(e.one[i], e.r[i], FEps[12], FEps[15])>>,
  <<"the median is the middle quantile", IsWQ(s, FRat(1, 2), e.med, Rt)>>,
  <<"the order of the data does not matter", \A i \in 1..Len(e.r) : IsWQ(s, e.q[i], e.mixed[i], Rt)>> >>)
(* coordinates e.x, features e.y, asked at e.xr (none: <<>>), rows of the result e.r *)
JSmooth(e) == IF e.exc # "" THEN "data can be smoothed" ELSE
  LET n == Len(e.x)
      ord == Sorted([i \in 1..n |-> <<e.x[i], i>>])
      xs == [i \in 1..n |-> ord[i][1]]
      ys(f) == [i \in 1..n |-> e.y[f][ord[i][2]]]
      sg == FMul(IF e.sg = F0 THEN Scott(e.x) ELSE e.sg, e.ss)
      at == IF e.own THEN [j \in 1..n |-> <<xs[j], j - 1>>] ELSE [j \in 1..Len(e.xr) |-> <<e.xr[j], Left(xs, e.xr[j])>>]
      (* where the j-th smoothed place is in the result                               *)
      col(j) == IF e.own THEN ord[j][2] ELSE j
      R == Len(at)
      rows == IF e.am = "q" /\ Len(e.q) > 1 THEN Len(e.q) ELSE Len(e.y)
      Good(j) == LET W == Window(at[j][2], n, e.bw) w == Weights(xs, at[j][1], sg, W) IN
        \A r \in 1..rows : LET y == ys(IF rows = Len(e.y) THEN r ELSE 1) v == e.r[r][col(j)]
             scale == FoldLeft(LAMBDA a, b : FMax(a, FAbs(b)), F0, y) IN
          IF ~Reached(w) THEN FNear(v, Line(xs, y, at[j][1], W), F0, FAdd(FMul(scale, FEps[9]), FEps[12]))
          ELSE IF e.am = "mean" THEN FNear(v, Avg(w, y), F0, FAdd(FMul(scale, FEps[8]), FEps[12]))
          ELSE LET K == SelectSeq([k \in 1..n |-> k], LAMBDA k : w[k] # FNeg(F1))
                   p == Sorted([k \in 1..Len(K) |-> <<y[K[k]], w[K[k]]>>])
               IN IsWQ(p, e.q[IF Len(e.q) > 1 THEN r ELSE 1], v, FEps[8])
  IN FirstBad(<<
  <<"a value per place, per feature or quantile", Len(e.r) = rows /\ \A r \in 1..rows : Len(e.r[r]) = R>>,
  <<"each place gets the Gaussian weighted value", \A j \in 1..R : Good(j)>> >>)
JBad(e) == IF e.exc = "ValueError" THEN "ok" ELSE "averages that make no sense are refused"
J(s, e) == CASE e.k = "q" -> JQuant(e) [] e.k = "s" -> JSmooth(e) [] e.k = "bad" -> JBad(e)
===============================================================================

---------------------------------- MODULE QuantOps ----------------------------------
(* Weighted quantiles: the data above the weight threshold, sorted, each at the      *)
(* weight accumulated from the second on; a quantile is the value, interpolated, at  *)
(* that share of the whole.  Where a value occurs more than once, any of those may   *)
(* come first: then the result is one of several.                                    *)
EXTENDS Fx, FiniteSets
Pr(d, w) == [i \in 1..Len(d) |-> <<d[i], w[i]>>]
RECURSIVE Above(_, _)
Above(p, t) == IF p = <<>> THEN <<>> ELSE (IF FGt(p[1][2], t) THEN <<p[1]>> ELSE <<>>) \o Above(Tail(p), t)
(* stable                                                                            *)
RECURSIVE Place1(_, _)
Place1(s, e) == IF s = <<>> THEN <<e>> ELSE IF FLt(e[1], s[1][1]) THEN <<e>> \o s ELSE <<s[1]>> \o Place1(Tail(s), e)
RECURSIVE SortP(_, _)
SortP(acc, p) == IF p = <<>> THEN acc ELSE SortP(Place1(acc, p[1]), Tail(p))
Sorted(p) == TLCEval(SortP(<<>>, p))
(* the ways to choose the first of each value                                        *)
Alike(s, i) == {j \in 1..Len(s) : s[j][1] = s[i][1]}
Groups(s) == {i \in 1..Len(s) : i = 1 \/ s[i - 1][1] # s[i][1]}
Fronts(s) == LET H == Groups(s) T == {h \in H : Cardinality(Alike(s, h)) > 1} IN
  {f \in [T -> 1..Len(s)] : \A h \in T : f[h] \in Alike(s, h)}
(* f swaps the head of a group with another of it                                    *)
InFront(s, f) == [i \in 1..Len(s) |-> IF i \in DOMAIN f THEN s[f[i]]
   ELSE IF \E h \in DOMAIN f : f[h] = i THEN s[CHOOSE h \in DOMAIN f : f[h] = i] ELSE s[i]]
RECURSIVE Cums(_, _, _)
Cums(s, i, c) == IF i > Len(s) THEN <<>> ELSE LET v == IF i = 1 THEN F0 ELSE FAdd(c, s[i][2]) IN <<v>> \o Cums(s, i + 1, v)
RECURSIVE ValAt(_, _, _, _)
ValAt(s, c, i, x) == IF i = Len(s) THEN s[i][1]
  ELSE IF FLe(c[i + 1], x) THEN ValAt(s, c, i + 1, x)
  ELSE FAdd(s[i][1], FDiv(FMul(FSub(s[i + 1][1], s[i][1]), FSub(x, c[i])), FSub(c[i + 1], c[i])))
WQ(d, w, t, q) == LET o == Sorted(Above(Pr(d, w), t)) c == Cums(o, 1, F0) IN ValAt(o, c, 1, FMul(q, c[Len(c)]))
(* v is such a quantile, but for rounding                                            *)
IsWQ(s, q, v, rt) == IsFin(v) /\ \E f \in Fronts(s) :
  LET o == InFront(s, f) c == TLCEval(Cums(o, 1, F0)) n == Len(c)
      x == FMul(q, c[n]) e == FAdd(FAdd(FMul(c[n], FEps[10]), FMul(o[1][2], FEps[14])), FEps[19])
      lo == IF FLe(x, e) THEN o[1][1] ELSE ValAt(o, c, 1, FSub(x, e)) hi == ValAt(o, c, 1, FAdd(x, e))
      t == FMul(rt, FAdd(FAbs(s[1][1]), FAbs(s[Len(s)][1])))
  IN FGe(v, FSub(lo, t)) /\ FLe(v, FAdd(hi, t))
(* plain quantile: all weigh the same                                                *)
PlainQ(d, q) == WQ(d, [i \in 1..Len(d) |-> F1], F0, q)
(* ------------------------------------------ smoothing of unevenly spaced data      *)
(* xs sorted; weights relative to the nearest; too far: no weight at all             *)
Far2 == FInt(1482)                                   \* 38.5 squared
Z2(xs, x0, sg, k) == FSq(FDiv(FSub(xs[k], x0), sg))
Window(i0, n, bw) == IF bw < 0 THEN 1..n ELSE ((IF i0 - bw < 0 THEN 0 ELSE i0 - bw) + 1)..(IF i0 + bw > n THEN n ELSE i0 + bw)
Left(xs, x0) == Cardinality({k \in 1..Len(xs) : FLt(xs[k], x0)})          \* how many are before x0
MinS(S) == CHOOSE k \in S : \A j \in S : k <= j
MaxS(S) == CHOOSE k \in S : \A j \in S : k >= j
Weights(xs, x0, sg, W) ==
  LET z == TLCEval([k \in 1..Len(xs) |-> IF k \in W THEN Z2(xs, x0, sg, k) ELSE Far2])
      zm == FoldLeft(FMin, z[1], z)
  IN TLCEval([k \in 1..Len(xs) |-> IF k \in W /\ FLt(z[k], Far2) THEN FExp(FDivI(FSub(zm, z[k]), 2)) ELSE FNeg(F1)])
Reached(w) == \E k \in 1..Len(w) : w[k] # FNeg(F1)
Avg(w, y) == LET S == FSum([k \in 1..Len(w) |-> IF w[k] = FNeg(F1) THEN F0 ELSE w[k]]) IN
  FDiv(FSum([k \in 1..Len(w) |-> IF w[k] = FNeg(F1) THEN F0 ELSE FMul(w[k], y[k])]), S)
(* out of reach: on the line between the neighbours                                  *)
Line(xs, y, x0, W) ==
  LET b == {k \in W : FLt(xs[k], x0)} a == W \ b IN
  IF a = {} THEN y[MaxS(W)] ELSE IF b = {} THEN y[MinS(W)]
  ELSE LET i == MaxS(b) j == MinS(a) IN FAdd(y[i], FDiv(FMul(FSub(y[j], y[i]), FSub(x0, xs[i])), FSub(xs[j], xs[i])))
Scott(x) == LET n == Len(x) m == FDivI(FSum(x), n) v == FDivI(FSum([i \in 1..n |-> FSq(FSub(x[i], m))]), n - 1)
            IN FMul(FSqrt(v), FExp(FNeg(FDivI(FLn(FInt(n)), 5))))
===============================================================================

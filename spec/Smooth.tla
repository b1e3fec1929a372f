------------------------------------ MODULE Smooth ------------------------------------
(* Samples lie unevenly along a line, in any order; a window of some width is moved   *)
(* along them.                                                                        *)
EXTENDS QuantOps, Json
CONSTANTS N, Top, Sigmas, Bws
MCBws == {-1, 1, 2}
VARIABLES x, y, sg, bw, at, m
vars == <<x, y, sg, bw, at, m>>
Sg(i) == FDivI(FInt(i), 100)
Y(p) == CASE p = "flat" -> [i \in 1..N |-> FInt(3)] [] p = "x" -> [i \in 1..N |-> FInt(x[i])] [] OTHER -> [i \in 1..N |-> FInt((i * 5) % 7)]
Pairs(xx, yy) == Sorted([i \in 1..N |-> <<xx[i], yy[i]>>])
Smoothed(xx, yy, s, b, x0) == LET p == Pairs(xx, yy) xs == [i \in 1..N |-> p[i][1]] ys == [i \in 1..N |-> p[i][2]]
      W == Window(Left(xs, x0), N, b) w == Weights(xs, x0, s, W) IN IF Reached(w) THEN Avg(w, ys) ELSE Line(xs, ys, x0, W)
FX == [i \in 1..N |-> FInt(x[i])]
X0 == FSub(FDivI(FInt(at), 2), F1)
Init == x \in [1..N -> 0..Top] /\ sg \in Sigmas /\ bw \in Bws /\ y \in {"flat", "x", "mixed"} /\ at = 0 /\ m = F0 /\ (\E i, j \in 1..N : x[i] # x[j])
Next == at < 2 * (Top + 2) /\ at' = at + 1 /\ m' = TLCEval(Smoothed(FX, Y(y), Sg(sg), bw, FSub(FDivI(FInt(at'), 2), F1))) /\ UNCHANGED <<x, y, sg, bw>>
Spec == Init /\ [][Next]_vars
Lo == FoldLeft(FMin, Y(y)[1], Y(y))
Hi == FoldLeft(FMax, Y(y)[1], Y(y))
E == FEps[15]
Within == at > 0 => FGe(m, FSub(Lo, E)) /\ FLe(m, FAdd(Hi, E))
Flat == at > 0 /\ y = "flat" => FNear(m, FInt(3), F0, E)
Rev(s) == [i \in 1..N |-> s[N + 1 - i]]
(* the order of samples does not matter (but for equal coordinates)                   *)
Order == at > 0 /\ (\A i, j \in 1..N : i # j => x[i] # x[j]) => FNear(Smoothed(Rev(FX), Rev(Y(y)), Sg(sg), bw, X0), m, F0, E)
(* smoothing x itself never runs backwards                                             *)
Forward == [][(at > 0 /\ y = "x" /\ bw < 0) => FLe(m, FAdd(m', E))]_vars
Emit == at = 2 * (Top + 2) => PrintT("CASE " \o ToJson([k |-> "s", x |-> x, sg |-> sg, bw |-> bw]))
===============================================================================

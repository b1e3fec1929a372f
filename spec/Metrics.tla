--------------------------------- MODULE Metrics ---------------------------------
(* A set of rays summed up one after the other, in any order: the sums are those  *)
(* of the set, sources and background part it, and the metrics keep their bounds. *)
EXTENDS MetOps, TLC, Json, FiniteSets
CONSTANTS Cells, Lums
VARIABLES todo, done, ill, lum, sq, pw, area
vars == <<todo, done, ill, lum, sq, pw, area>>
(* degrees off the line of sight and from the vertical                            *)
CellTab == << <<0, 0>>, <<20, 90>>, <<29, 200>>, <<45, 0>>, <<70, 135>>, <<85, 300>>, <<60, 180>> >>
(* luminances: dark, dim, bright enough, brighter                                 *)
LumTab == << 0, 40, 3000, 90000 >>
OmTab == << FRat(1, 10), FRat(1, 50), FRat(1, 5), FRat(1, 20), FRat(1, 1000), FRat(1, 3), FRat(1, 7) >>
Dir(k) == LET a == FRad(FInt(CellTab[k][1])) b == FRad(FInt(CellTab[k][2])) IN
  << FMul(FSin(a), FSin(b)), FMul(FSin(a), FCos(b)), FCos(a) >>
Dirs == [k \in 1..Len(CellTab) |-> Dir(k)]
Poss == [k \in 1..Len(CellTab) |-> Guth(Dirs[k])]
Ray(x) == [c |-> Dirs[x[1]], o |-> OmTab[x[1]], l |-> FInt(LumTab[x[2]]), p |-> Poss[x[1]], rgb |-> <<>>]
Thr == FInt(2000)
RaySets == UNION {[S -> Lums] : S \in (SUBSET Cells) \ {{}}}
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
Init == /\ todo \in {Pairs(f) : f \in RaySets} /\ done = {}
        /\ ill = F0 /\ lum = F0 /\ sq = F0 /\ pw = F0 /\ area = F0
Add(x) == LET r == Ray(x) IN
  /\ ill' = FAdd(ill, FMul(FMul(r.c[3], r.l), r.o))
  /\ lum' = FAdd(lum, FMul(r.l, r.o))
  /\ sq' = FAdd(sq, FMul(FSq(r.l), r.o))
  /\ area' = FAdd(area, r.o)
  /\ pw' = IF FGt(r.l, Thr) THEN FAdd(pw, FDiv(FMul(FSq(FMul(r.l, F1)), r.o), FSq(r.p))) ELSE pw
Next == \E x \in todo : todo' = todo \ {x} /\ done' = done \cup {x} /\ Add(x)
Spec == Init /\ [][Next]_vars
RECURSIVE AsSeq(_)
AsSeq(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x[1] <= y[1] IN <<Ray(m)>> \o AsSeq(T \ {m})
rs == AsSeq(done)
src == Sources(rs, F1, Thr)
bg == Background(rs, F1, Thr)
Order == done # {} =>
  /\ ill = Illum(rs, F1) /\ lum = LumSum(rs, F1) /\ area = Area(rs) /\ pw = PwSl2(src, F1)
  /\ FNear(Contrast(rs, area), IF lum = F0 THEN F1 ELSE FDiv(FMul(sq, area), FSq(lum)), FEps[9], FEps[9])
Parts == done # {} => /\ Len(src) + Len(bg) = Len(rs)
  /\ FNear(FAdd(Illum(src, F1), Illum(bg, F1)), ill, F0, FEps[12])
Bounds == done # {} =>
  /\ FLe(FDiv(lum, area), MaxLum(rs, F1)) /\ FLe(ill, lum)
  /\ FGe(Contrast(rs, area), FSub(F1, FEps[9]))                    \* Cauchy-Schwarz
  /\ LET w == Weighted(rs) IN FGe(Contrast(w, Area(w)), FSub(F1, FEps[9])) /\ FLe(Area(w), FAdd(area, FEps[12]))
Scales == done # {} => \A s \in {FRat(1, 4), FInt(179)} :
  /\ FNear(Illum(rs, s), FMul(ill, s), FEps[12], FEps[12]) /\ FNear(MaxLum(rs, s), FMul(MaxLum(rs, F1), s), F0, FEps[12])
Glare == (done # {} /\ FGt(ill, F0)) =>
  LET lg == LogGc(pw, ill) g == Dgp(ill, lg, FALSE) bl == BackLum(ill, Illum(src, F1)) IN
  /\ FGe(lg, F0) /\ FLe(g, F1) /\ FGe(g, FDec(16, 2))
  /\ FLe(Dgp(ill, lg, TRUE), g)
  /\ FGt(bl, FEps[6]) => LET u == Ugr(pw, bl) q == Ugp(u) IN FGe(u, F0) /\ FGt(q, F0) /\ FLt(q, F1) /\ (u = F0 => FLt(q, FDec(2, 1)))
Emit == done = {} => PrintT("CASE " \o ToJson([cells |-> {x[1] : x \in todo}, lums |-> todo]))
===============================================================================

------------------------------- MODULE MetTrace -------------------------------
EXTENDS Conf, MetOps
S0 == 0
S(s, e) == 0
E7 == FEps[7]
E6 == FEps[6]
(* the rays of the event that are in view                                         *)
RaysOf(e) ==
  LET fr == Frame(Unit(e.d)) edge == EdgeOf(e.va)
      In(k) == e.full \/ FLt(AngleOf(fr, e.w[k]), edge)
      all == [k \in 1..Len(e.w) |-> LET c == InFrame(fr, Unit(e.w[k])) IN
         [c |-> c, o |-> e.o[k], l |-> IF e.wt = <<>> THEN e.l[k][1] ELSE Luminance(e.l[k], e.wt),
          p |-> IF In(k) THEN PosIdx(e.g, c) ELSE F1, rgb |-> e.l[k], in |-> In(k)]]
  IN SFil(all, LAMBDA r : r.in)
Val(e, n) == e.v[CHOOSE i \in 1..Len(e.n) : e.n[i] = n]
Has(e, n) == \E i \in 1..Len(e.n) : e.n[i] = n
Is(e, n, want, rt, at) == ~Has(e, n) \/ (Len(Val(e, n)) = 1 /\ FNear(Val(e, n)[1], want, rt, at))
JPhot(e) == LET rs == RaysOf(e)
                s == e.s
                area == IF e.corr THEN ConeArea(e.va, e.full) ELSE Area(rs)
                w == Weighted(rs)
                gc == Contrast(rs, area)
                pg == Contrast(w, Area(w)) IN FirstBad(<<
  <<"the metrics can be asked", e.exc = "">>,
  <<"illum is the sum of cosine, luminance and solid angle", Is(e, "illum", Illum(rs, s), E7, FMul(E7, FDivI(LumSum(rs, s), 1)))>>,
  <<"view_area is the solid angle of the rays", Is(e, "view_area", area, E7, F0)>>,
  <<"avglum is the average over solid angle", Is(e, "avglum", FDiv(LumSum(rs, s), area), E7, F0)>>,
  <<"maxlum is the largest", Is(e, "maxlum", MaxLum(rs, s), E7, F0)>>,
  <<"avgraylum is the plain average", Is(e, "avgraylum", AvgRay(rs, s), E7, F0)>>,
  <<"density is rays per solid angle", Is(e, "density", FDiv(FInt(Len(rs)), area), E7, F0)>>,
  <<"gcr is the contrast", Is(e, "gcr", gc, E7, F0)>>,
  <<"loggcr is its logarithm", Is(e, "loggcr", FLog10(gc), E7, E7)>>,
  <<"pwavglum is the average over weighted solid angle", Is(e, "pwavglum", FDiv(LumSum(w, s), Area(w)), E6, F0)>>,
  <<"pwgcr is the contrast over weighted solid angle", Is(e, "pwgcr", pg, E6, F0)>>,
  <<"logpwgcr is its logarithm", Is(e, "logpwgcr", FLog10(pg), E6, E6)>>,
  <<"irradiance is that of each channel", ~Has(e, "irradiance") \/ (Len(Val(e, "irradiance")) = Len(e.l[1])
      /\ \A ch \in 1..Len(e.l[1]) : FNear(Val(e, "irradiance")[ch], Irradiance(rs, s, ch), E7, FMul(E7, FMul(s, SumR(rs, LAMBDA r : FMul(r.rgb[ch], r.o))))))>> >>)
JGlare(e) == LET rs == RaysOf(e)
                 s == e.s
                 il == Illum(rs, s)
                 tl == TaskLum(rs, s, e.rad)
                 t == Threshold(rs, s, e.thr, e.rad)
                 src == Sources(rs, s, t)
                 bg == Background(rs, s, t)
                 si == Illum(src, s)
                 pw == PwSl2(src, s)
                 lg == LogGc(pw, il)
                 bl == BackLum(il, si)
                 u == Ugr(pw, bl) IN FirstBad(<<
  <<"the metrics can be asked", e.exc = "">>,
  <<"tasklum is the average around the line of sight", Is(e, "tasklum", tl, E7, F0)>>,
  <<"the threshold is fixed above 100, else relative to the task", Is(e, "threshold", t, E7, F0)>>,
  <<"sources are the rays above the threshold", ~Has(e, "srcarea") \/ (Len(e.src) = Len(rs) /\ \A k \in 1..Len(rs) : e.src[k] <=> FGt(FMul(rs[k].l, s), t))>>,
  <<"srcarea is their solid angle", Is(e, "srcarea", Area(src), E7, F0)>>,
  <<"srcillum is their illuminance", Is(e, "srcillum", si, E7, F0)>>,
  <<"backlum is the illuminance of the others over pi", Is(e, "backlum", bl, E7, FMul(FEps[12], FAbs(il)))>>,
  <<"backlum_true is their average luminance", Is(e, "backlum_true", FDiv(LumSum(bg, s), Area(bg)), E7, F0)>>,
  <<"pwsl2 is the weighted square of the sources", Is(e, "pwsl2", pw, E6, F0)>>,
  <<"log_gc is the log of contrast", Is(e, "log_gc", lg, E6, E6)>>,
  <<"dgp_t1 is linear in illuminance", Is(e, "dgp_t1", Dgp1(il), E7, F0)>>,
  <<"dgp_t2 is linear in log_gc", Is(e, "dgp_t2", Dgp2(lg), E6, E6)>>,
  <<"dgp is the sum of the terms, at most one", (e.low /\ FNear(il, FInt(500), E7, F0)) \/ Is(e, "dgp", Dgp(il, lg, e.low), E6, E6)>>,
  <<"ugr follows its formula and is never negative", Is(e, "ugr", u, E6, FEps[5])>>,
  <<"ugp follows its formula", Is(e, "ugp", Ugp(u), E6, F0)>> >>)
(* nothing in view: nothing to see, and no contrast                                  *)
JNone(e) == IF e.exc # "" THEN "an empty view has metrics" ELSE FirstBad(<<
  <<"nothing in view gives no light", \A n \in {"illum", "maxlum", "loggcr", "srcillum", "srcarea", "pwsl2"} : Val(e, n) = <<F0>>>>,
  <<"nothing in view has no contrast", Val(e, "gcr") = <<F1>>>>,
  <<"nothing in view gives no light in any channel", (~Has(e, "irradiance")) \/ Val(e, "irradiance") = [i \in 1..e.m |-> F0]>> >>)
J(s, e) == CASE e.k = "none" -> JNone(e) [] e.k = "phot" -> JPhot(e) [] e.k = "glare" -> JGlare(e)
===============================================================================

---------------------------------- MODULE PeakOps ----------------------------------
(* The brightest peak of a set of rays consolidated into one source.  A pixel of   *)
(* the group is a record l: luminance, o: solid angle; the group are the bright    *)
(* pixels within the radius of the brightest.                                      *)
EXTENDS AngOps, FiniteSets
SetSum(T, f(_)) == FoldSet(LAMBDA k, a : BAdd(a, f(k)), F0, T)
Energy(g, T) == SetSum(T, LAMBDA k : FMul(g[k].l, g[k].o))
MaxL(g, T) == FoldSet(LAMBDA k, a : FMax(a, g[k].l), F0, T)
Radius(peaka, peakrad) == FMul(FSqrt(FDiv(peaka, FPi)), peakrad)
(* expected energy of the whole source: mean of those near the peak                *)
Expected(g, G, tol, peaka, peakc) ==
  LET near == {k \in G : FGe(g[k].l, FMul(MaxL(g, G), tol))}
  IN FMul(FMul(FDivI(SetSum(near, LAMBDA k : g[k].l), Cardinality(near)), peaka), peakc)
E12 == FEps[12]
Least(a, b) == FGe(a, FSub(b, FMul(b, E12)))       \* at least, but for rounding
Descends(g, G, P) == \A p \in P : \A q \in G \ P : Least(g[p].l, g[q].l)
Over(a, b) == FGt(a, FSub(b, FMul(b, E12)))
Upto(a, b) == FLe(a, FAdd(b, FMul(b, E12)))
(* the pixels P of group G are what a source of expected energy es is made of      *)
WholeSel(g, G, P, es) ==
  /\ Over(Energy(g, G), es)
  /\ Descends(g, G, P)
  /\ IF P = G THEN \E m \in G : Least(g[m].l, MaxL(g, G)) /\ Over(FMul(g[m].l, g[m].o), es)
     ELSE /\ P # {} /\ Upto(Energy(g, P), es)
          /\ \E q \in G \ P : Least(g[q].l, MaxL(g, G \ P)) /\ Over(FAdd(Energy(g, P), FMul(g[q].l, g[q].o)), es)
PartSel(g, G, P, es, peakr) ==
  /\ Upto(Energy(g, G), es)
  /\ P = {k \in G : FGe(g[k].l, FDiv(MaxL(g, G), peakr))}
(* area of the source before any blur                                              *)
AreaOf(g, P, whole, peaka, peakc) == IF whole \/ FGt(peakc, F1) THEN peaka ELSE FDiv(Energy(g, P), MaxL(g, P))
(* ------------------------------------------------------------------ the blur *)
Psf(x, fwhm) == LET h == FSq(FDivI(fwhm, 2)) IN FDiv(h, FAdd(FSq(x), h))
InvPsf(y, fwhm) == LET h == FSq(FDivI(fwhm, 2)) IN FSqrt(FMax(F0, FSub(FDiv(h, y), h)))
Fwhm == FDec(183333, 6)
LMin == FDec(27933, 2)
BlurF(o, lmax, lmin, fwhm) ==
  LET r0 == FDeg(FSqrt(FDiv(o, FPi)))
      lm == FMax(lmin, FMin(lmax, FDiv(lmin, Psf(F1, Fwhm))))
  IN FSq(FDiv(FAdd(r0, InvPsf(FDiv(lmin, lm), fwhm)), r0))
===============================================================================

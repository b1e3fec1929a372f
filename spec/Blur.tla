------------------------------------ MODULE Blur -----------------------------------
(* A source of some solid angle gets brighter: its image on the retina grows, from  *)
(* where nothing of the spread is above the limit to where it spreads a degree.     *)
EXTENDS PeakOps, TLC, Json
CONSTANTS Ws, Mins, Omegas, Steps
VARIABLES w, mn, o, lm, f
vars == <<w, mn, o, lm, f>>
Wd(a) == FDiv(FInt(a), FInt(1000))                  \* width in thousandths of a degree
Om(a) == FDec(a, 8)
L(a) == FDivI(FInt(a), 10)
Val(a, b, c, l) == TLCEval(BlurF(Om(c), L(l), FInt(b), Wd(a)))
Init == w \in Ws /\ mn \in Mins /\ o \in Omegas /\ lm = 1 /\ f = Val(w, mn, o, 1)
Next == lm * 10 < Steps /\ \E q \in {(lm * 3) + 1, lm * 10} : lm' = q /\ f' = Val(w, mn, o, q) /\ UNCHANGED <<w, mn, o>>
Spec == Init /\ [][Next]_vars
Cap == FDiv(FInt(mn), Psf(F1, Fwhm))
AtLeastOne == FGe(f, F1)
Dim == FLe(L(lm), FInt(mn)) => f = F1
Saturated == FGe(L(lm), Cap) => f = BlurF(Om(o), FMulI(Cap, 7), FInt(mn), Wd(w))
(* with the default width the image of a saturated source is a degree wider         *)
ADegree == (w = 183333 \div 1000 /\ FGe(L(lm), Cap)) => LET r0 == FDeg(FSqrt(FDiv(Om(o), FPi))) IN
   FNear(f, FSq(FDiv(FAdd(r0, F1), r0)), FRat(1, 20), F0)
RoundTrip == LET y == FDiv(FInt(mn), FMax(FInt(mn), L(lm))) IN FNear(Psf(InvPsf(y, Wd(w)), Wd(w)), y, FEps[9], FEps[9])
Grows == [][FGe(f', f) /\ (lm' > lm /\ FGt(L(lm'), FInt(mn)) /\ FLt(L(lm'), Cap) => FGt(f', f))]_vars
Emit == PrintT("CASE " \o ToJson([w |-> w, mn |-> mn, o |-> o, l |-> lm]))
===============================================================================

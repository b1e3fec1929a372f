----------------------------------- MODULE Peak -----------------------------------
(* Pixels taken one by one, brightest first (equals in any order).                 *)
EXTENDS PeakOps, TLC, Json
CONSTANTS NPix, Levels, OmegaPct, Peakcs
VARIABLES lv, om, pkc, taken, ene, phase
vars == <<lv, om, pkc, taken, ene, phase>>
PeakA == FDec(68, 6)
K == 1..NPix
g == [k \in K |-> [l |-> FInt(lv[k] * 1000), o |-> FDivI(FMulI(PeakA, om), 100)]]
G == K
Es == Expected(g, G, FDec(75, 2), PeakA, FDivI(FInt(pkc), 10))
PeakR == FInt(4)
Sorted(f) == \A i, j \in K : i < j => f[i] >= f[j]
Init == /\ lv \in {f \in [K -> Levels] : Sorted(f)} /\ om \in OmegaPct /\ pkc \in Peakcs
        /\ taken = {} /\ ene = F0 /\ phase = "start"
Rest == K \ taken
Brightest == {k \in Rest : \A j \in Rest : lv[k] >= lv[j]}
E(k) == FMul(g[k].l, g[k].o)
Start == /\ phase = "start" /\ phase' = IF FGt(Energy(g, G), Es) THEN "whole" ELSE "part"
         /\ UNCHANGED <<lv, om, pkc, taken, ene>>
Take(k) == taken' = taken \cup {k} /\ ene' = FAdd(ene, E(k)) /\ UNCHANGED <<lv, om, pkc, phase>>
(* a first pixel of too much energy takes all the others along                     *)
Whole == /\ phase = "whole"
         /\ \E k \in Brightest :
              IF taken = {} /\ FGt(E(k), Es) THEN taken' = K /\ ene' = Energy(g, G) /\ phase' = "wdone" /\ UNCHANGED <<lv, om, pkc>>
              ELSE IF FLe(FAdd(ene, E(k)), Es) THEN Take(k)
              ELSE phase' = "wdone" /\ UNCHANGED <<lv, om, pkc, taken, ene>>
Part == /\ phase = "part"
        /\ IF Rest # {} /\ \E k \in Brightest : FGe(g[k].l, FDiv(MaxL(g, G), PeakR))
           THEN \E k \in Brightest : Take(k)
           ELSE phase' = "pdone" /\ UNCHANGED <<lv, om, pkc, taken, ene>>
Next == Start \/ Whole \/ Part
Spec == Init /\ [][Next]_vars
Chosen == /\ phase = "wdone" => WholeSel(g, G, taken, Es)
          /\ phase = "pdone" => PartSel(g, G, taken, Es, PeakR)
Prefix == phase = "wdone" \/ Descends(g, G, taken)
Adds == ene = Energy(g, taken)
(* the source: never larger than expected when partly visible, same energy         *)
Source == phase \in {"wdone", "pdone"} =>
  LET a == AreaOf(g, taken, phase = "wdone", PeakA, FDivI(FInt(pkc), 10)) l == FDiv(ene, a) f == BlurF(a, l, LMin, Fwhm) IN
  /\ taken # {} /\ FGt(a, F0)
  /\ (phase = "pdone" /\ pkc <= 10) => FLe(a, FMul(FMul(PeakA, FDivI(FInt(pkc), 10)), FAdd(F1, FEps[9])))
  /\ FGe(f, F1) /\ FNear(FMul(FMul(a, f), FDiv(l, f)), ene, FEps[9], F0)
Emit == phase = "start" => PrintT("CASE " \o ToJson([lv |-> lv, om |-> om, pkc |-> pkc]))
===============================================================================

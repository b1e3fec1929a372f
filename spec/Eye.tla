------------------------------------ MODULE Eye -------------------------------------
(* An observer ages and faces more and more light: the pupil, the spread of a point  *)
(* on the retina, and the response of the cones.                                     *)
EXTENDS GssOps, TLC, Json
CONSTANTS Ages, Pigs, Evs, Ads
VARIABLES age, pig, ev, ad, v
vars == <<age, pig, ev, ad, v>>
(* ev, ad: tenths of a decade of lux and of retinal illuminance, 100 for one         *)
Lux(k) == FExp(FMul(FLn10, FDivI(FInt(k - 100), 10)))
Phis == << F0, FRat(1, 10000), FRat(1, 1000), FRat(1, 100), FRat(1, 20), FRat(1, 5), FRat(1, 2), FInt(1), FDivI(FPi, 2) >>
Val(a, m, e, q) ==
  LET pd == PupilD(FInt(a), Lux(e)) k == Coef(FInt(a), FMilli(m), pd)
  IN TLCEval([pd |-> pd, k |-> k, psf |-> [i \in 1..9 |-> Psf4(k, Phis[i])],
              within |-> Within(k, FRad(FInt(5))), cap |-> CapShare(k, FRad(FInt(5))), all |-> CapShare(k, FDivI(FPi, 2)),
              line |-> Within(k, FSub(FDivI(FPi, 2), FEps[9])),
              eg |-> Irr(FDiv(Lux(e), FPi), DiscA(pd), FRat(1667, 100)),
              r |-> [j \in 1..4 |-> Cone(Lux(q + (10 * j)), Lux(q))]])
Init == /\ age = (CHOOSE a \in Ages : \A b \in Ages : a <= b) /\ pig \in Pigs /\ ev = (CHOOSE a \in Evs : \A b \in Evs : a <= b)
        /\ ad = (CHOOSE a \in Ads : \A b \in Ads : a <= b) /\ v = Val(age, pig, ev, ad)
NextOf(x, S) == {q \in S : q > x /\ \A p \in S : p > x => p >= q}
Older == \E a \in NextOf(age, Ages) : age' = a /\ v' = Val(a, pig, ev, ad) /\ UNCHANGED <<pig, ev, ad>>
Brighter == \E e \in NextOf(ev, Evs) : ev' = e /\ v' = Val(age, pig, e, ad) /\ UNCHANGED <<age, pig, ad>>
Adapt == \E q \in NextOf(ad, Ads) : ad' = q /\ v' = Val(age, pig, ev, q) /\ UNCHANGED <<age, pig, ev>>
Next == Older \/ Brighter \/ Adapt
Spec == Init /\ [][Next]_vars
Pos1(x) == x[1] > 0
(* a pupil of an eye: between less than two and eight millimetres and some           *)
PupilSize == FGt(v.pd, F1) /\ FLt(v.pd, FInt(9))
(* the four parts of the spread share the light                                      *)
Shares == /\ \A i \in 1..4 : Pos1(v.k.c[i]) /\ Pos1(v.k.b[i])
          /\ FNear(Sum4(LAMBDA i : v.k.c[i]), F1, F0, FEps[15])
          /\ FNear(v.all, F1, F0, FEps[15]) /\ FNear(v.line, F1, F0, FEps[6])
(* and it falls outward; a strip holds more than its disc                            *)
Spreads == \A i \in 1..8 : FGt(v.psf[i], v.psf[i + 1])
Window == FLt(v.cap, v.within) /\ FLt(v.within, F1) /\ FGt(v.cap, FRat(1, 2))
(* responses are shares, larger for more light                                       *)
Responds == \A j \in 1..4 : Pos1(v.r[j]) /\ FLt(v.r[j], F1) /\ (j > 1 => FLt(v.r[j - 1], v.r[j]))
Emit == PrintT("CASE " \o ToJson([t |-> "eye", age |-> age, pig |-> pig, ev |-> ev, ad |-> ad]))
Shrinks == [][(ev' > ev => FLt(v'.pd, v.pd) \/ age > 40) /\ (age' > age => FLe(v'.pd, v.pd))]_vars
BrighterRetina == [][ev' > ev => FGt(v'.eg, v.eg)]_vars
(* more adapted eyes respond less                                                    *)
Dulls == [][ad' > ad => \A j \in 1..3 : FGe(v'.r[j], v.r[j])]_vars
===================================================================================

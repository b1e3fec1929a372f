------------------------------------ MODULE Img ------------------------------------
(* An image becomes rays, rays may be consolidated, metrics are taken from what is   *)
(* then there.  Each step notes what it used.                                        *)
EXTENDS ImgOps, TLC, Json
CONSTANTS MaxM
VARIABLES given, hdr, view, peak, ms, at, used
vars == <<given, hdr, view, peak, ms, at, used>>
Metrics == {"illum", "irradiance", "dgp", "maxlum"}
Lists == UNION {{s \in [1..k -> Metrics] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..MaxM}
Init == /\ given \in BOOLEAN /\ hdr \in {"none", "usual", "odd", "short"} /\ view \in {"none", "hemi", "turned", "narrow", "full"}
        /\ peak \in {"no", "plain", "options"} /\ ms \in Lists /\ at = "file" /\ used = [view |-> "", weights |-> "", rays |-> "", colour |-> FALSE]
Step(a, b, u) == at = a /\ at' = b /\ used' = u /\ UNCHANGED <<given, hdr, view, peak, ms>>
Next == \/ Step("file", "viewed", [used EXCEPT !.view = ViewFrom(view)])
        \/ Step("viewed", "weighted", [used EXCEPT !.weights = WeightsOf(given, hdr, NeedsColor(ms)), !.colour = NeedsColor(ms)])
        \/ Step("weighted", "rays", [used EXCEPT !.rays = IF peak = "no" THEN "pixels" ELSE "consolidated"])
        \/ Step("rays", "done", used)
Spec == Init /\ [][Next]_vars
Done == at = "done"
GivenWins == (Done /\ given) => used.weights = "given"
HeaderNext == (Done /\ ~given /\ hdr = "odd") => used.weights = "header"
NoGuess == (Done /\ hdr \in {"none", "short"}) => used.weights # "header"
Exact == (Done /\ used.colour /\ ~given /\ hdr = "usual") => used.weights = "header"
Viewed == Done => (used.view = "hemisphere") = (view = "none")
Rays == Done => (used.rays = "pixels") = (peak = "no")
Order == Done => used.weights = WeightsOf(given, hdr, NeedsColor(Reverse(ms)))
Emit == Done => PrintT("CASE " \o ToJson([given |-> given, hdr |-> hdr, view |-> view, peak |-> peak, ms |-> ms]))
===================================================================================

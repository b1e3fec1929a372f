------------------------------------ MODULE Gss -------------------------------------
(* The course of an image through the model: which stage reads the result of which,  *)
(* for every choice of blurs.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, Angles, Images
VARIABLES psf, am, dm, raw, n, va, img, got, at
vars == <<psf, am, dm, raw, n, va, img, got, at>>
Stages == <<"irr", "psf", "adaptmove", "directmove", "adaptation", "cone", "field", "on off", "score">>
Skipped(s) == (s = "psf" /\ ~psf) \/ (s = "adaptmove" /\ ~am) \/ (s = "directmove" /\ ~dm)
(* got[s]: what the stage s has seen, as the set of stages its input went through    *)
Sees(s) ==
  LET opt == IF psf THEN got["psf"] ELSE got["irr"]
      r1 == IF am THEN got["adaptmove"] ELSE opt
      r2 == IF dm THEN got["directmove"] ELSE opt
  IN CASE s = "irr" -> {"irr"} [] s = "psf" -> got["irr"] \cup {"psf"}
       [] s = "adaptmove" -> opt \cup {"adaptmove"} [] s = "directmove" -> opt \cup {"directmove"}
       [] s = "adaptation" -> r1 \cup {"adaptation"} [] s = "cone" -> r2 \cup got["adaptation"] \cup {"cone"}
       [] s = "field" -> got["cone"] \cup {"field"} [] s = "on off" -> got["field"] \cup {"on off"}
       [] s = "score" -> got["on off"] \cup {"score"}
Init == /\ psf \in BOOLEAN /\ am \in BOOLEAN /\ dm \in BOOLEAN /\ raw \in BOOLEAN
        /\ n \in Sizes /\ va \in Angles /\ img \in Images
        /\ got = [s \in {Stages[i] : i \in 1..9} |-> {}] /\ at = 1
Step == /\ at <= 9 /\ at' = at + 1
        /\ got' = IF Skipped(Stages[at]) THEN got ELSE [got EXCEPT ![Stages[at]] = Sees(Stages[at])]
        /\ UNCHANGED <<psf, am, dm, raw, n, va, img>>
Spec == Init /\ [][Step]_vars
Done == at > 9
Blurs == {"psf", "adaptmove", "directmove"}
Chosen == (IF psf THEN {"psf"} ELSE {}) \cup (IF am THEN {"adaptmove"} ELSE {}) \cup (IF dm THEN {"directmove"} ELSE {})
(* every blur chosen has its effect, no other; the movement of adaptation is not     *)
(* seen directly                                                                     *)
Complete == Done => got["score"] = {"irr", "adaptation", "cone", "field", "on off", "score"} \cup Chosen
Skips == \A s \in Blurs \ Chosen : got[s] = {}
Paths == at > 5 => ("directmove" \notin got["adaptation"]) /\ (psf => "psf" \in got["adaptation"])
Emit == Done => PrintT("CASE " \o ToJson([t |-> "run", sw |-> <<psf, am, dm>>, raw |-> raw, n |-> n, va |-> va, img |-> img]))
===================================================================================

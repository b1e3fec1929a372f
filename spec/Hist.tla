------------------------------------ MODULE Hist ------------------------------------
(* The object keeps tables (directions, solid angles, mask, eccentricities) for the   *)
(* view and resolution it last saw, and weights the eccentricity by the image.        *)
EXTENDS HistOps, TLC, Json
CONSTANTS Depth
VARIABLES made, s, tab, wt, hist, ans
vars == <<made, s, tab, wt, hist, ans>>
None == <<0, 0>>
Init == /\ made \in {MadeBy[i] : i \in 1..5} /\ s = Made(made) /\ hist = <<>> /\ ans = <<>>
        /\ tab = (IF Made(made).img = 0 THEN None ELSE <<Made(made).view, Res(Made(made).img)>>)
        /\ wt = Made(made).img
Log(a) == /\ Len(hist) < Depth /\ hist' = Append(hist, a) /\ s' = Do(s, a) /\ UNCHANGED made
(* loading an image computes the tables anew only where the resolution is another     *)
Load == \E i \in 1..3 : /\ Log(<<"lum", i>>) /\ wt' = i /\ ans' = <<>>
                        /\ tab' = IF tab[2] = Res(i) THEN tab ELSE <<s.view, Res(i)>>
(* a new view empties them                                                             *)
View == \E v \in 1..3 : /\ Log(<<"vm", v>>) /\ ans' = <<>> /\ UNCHANGED wt
                        /\ tab' = IF s.img = 0 THEN None ELSE <<v, Res(s.img)>>
Age == \E a \in 1..2 : a # s.age /\ Log(<<"age", a>>) /\ ans' = <<>> /\ UNCHANGED <<tab, wt>>
Compute == \E e \in 0..1 : /\ Log(<<"compute", e>>) /\ UNCHANGED <<tab, wt>>
                           /\ ans' = IF s.img = 0 THEN <<"ValueError">> ELSE <<tab[1], s.img, s.age, e>>
Next == Load \/ View \/ Age \/ Compute
Spec == Init /\ [][Next]_vars
(* what a fresh model with the same settings has                                       *)
Fresh == s.img # 0 => (tab = <<s.view, Res(s.img)>> /\ wt = s.img)
Answer == ans # <<>> => (IF s.img = 0 THEN ans = <<"ValueError">> ELSE ans = <<s.view, s.img, s.age, hist[Len(hist)][2]>>)
Empty == s.img = 0 => tab = None
Emit == (Len(hist) = Depth /\ hist[Depth][1] = "compute") => PrintT("CASE " \o ToJson([t |-> "hist", made |-> made, h |-> hist]))
=====================================================================================

------------------------------------ MODULE Frame ------------------------------------
(* Functions of a library compute on working copies of what they are given; arrays of   *)
(* the caller may be windows into one another (two names, one buffer).                   *)
EXTENDS FrameOps, Json
CONSTANTS Depth
Layouts == {"own", "slice", "stride", "fortran", "reversed", "readonly"}
Fns == {"same", "other", "bad"}          \* the function under test, another one, a call that fails
Settings == {"default", "quiet", "strict"}
VARIABLES lay, buf, err, work, memo, h
vars == <<lay, buf, err, work, memo, h>>
Init == lay \in Layouts /\ buf = 0 /\ err = "default" /\ work = <<>> /\ memo = {} /\ h = <<>>
(* a call copies, changes its copy as it likes, silences warnings and restores them      *)
Call(f) == /\ work = <<>> /\ Len(h) < Depth /\ work' = <<f, buf, err>> /\ h' = Append(h, <<"call", f>>) /\ err' = "working"
           /\ UNCHANGED <<lay, buf, memo>>
Return == /\ work # <<>> /\ err' = work[3] /\ work' = <<>>
          /\ memo' = (IF work[1] = "bad" THEN memo ELSE memo \cup {[f |-> work[1], given |-> work[2], res |-> <<work[1], work[2]>>]})
          /\ UNCHANGED <<lay, buf, h>>
Write == /\ work = <<>> /\ Len(h) < Depth /\ h # <<>> /\ buf' = 1 - buf /\ h' = Append(h, <<"write">>) /\ UNCHANGED <<lay, err, work, memo>>
Set == /\ work = <<>> /\ Len(h) < Depth /\ \E s \in Settings : s # err /\ err' = s /\ h' = Append(h, <<"set", s>>) /\ UNCHANGED <<lay, buf, work, memo>>
Next == (\E f \in Fns : Call(f)) \/ Return \/ Write \/ Set
Spec == Init /\ [][Next]_vars
Writes == Cardinality({i \in 1..Len(h) : h[i] = <<"write">>})
(* only the caller writes, only the caller sets                                           *)
OnlyUser == buf = (Writes % 2)
RECURSIVE LastSet(_)
LastSet(s) == IF s = <<>> THEN "default" ELSE IF s[Len(s)][1] = "set" THEN s[Len(s)][2] ELSE LastSet(SubSeq(s, 1, Len(s) - 1))
OnlySet == work = <<>> => err = LastSet(h)
OneAnswer == \A a, b \in memo : (a.f = b.f /\ a.given = b.given) => a.res = b.res
Emit == (work = <<>> /\ Len(h) = Depth /\ h[Len(h)][1] = "call") => PrintT("CASE " \o ToJson([lay |-> lay, h |-> h]))
=======================================================================================

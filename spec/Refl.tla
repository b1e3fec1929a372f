------------------------------------ MODULE Refl ------------------------------------
(* A ray among mirrors: it is reflected about one normal after another.             *)
EXTENDS VecOps, TLC, Json
CONSTANTS Starts, Turns
VARIABLES s, r, last, path
vars == <<s, r, last, path>>
Dirs == << <<2, 1, 2, 3>>, <<3, 0, -4, 5>>, <<-2, 3, 6, 7>>, <<1, 4, -8, 9>>, <<0, 0, 1, 1>>, <<0, -5, 12, 13>>, <<1, 0, 0, 1>>, <<-4, -4, 7, 9>> >>
V(i) == [k \in 1..3 |-> FDiv(FInt(Dirs[i][k]), FInt(Dirs[i][4]))]
Init == s \in Starts /\ r = V(s) /\ last = V(s) /\ path = <<>>
Next == \E n \in 1..Len(Dirs) : Len(path) < Turns /\ last' = r /\ r' = TLCEval(Mirror(r, V(n))) /\ path' = Append(path, n) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Eps == FEps[17]
N1 == path[Len(path)]
Length == FNear(Dot(r, r), F1, F0, Eps)
Undone == path # <<>> => VNear(Mirror(r, V(N1)), last, Eps)
Either == path # <<>> => VNear(Mirror(last, [k \in 1..3 |-> FNeg(V(N1)[k])]), r, Eps)      \* side of the normal does not matter
Angle == path # <<>> => FNear(Dot(r, V(N1)), FNeg(Dot(last, V(N1))), F0, Eps)
Emit == PrintT("CASE " \o ToJson([k |-> "refl", s |-> Dirs[s], n |-> [i \in 1..Len(path) |-> Dirs[path[i]]]]))
===============================================================================

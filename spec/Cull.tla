------------------------------------ MODULE Cull ------------------------------------
(* Vectors at whole positions along a line, culled one after another: a vector still *)
(* there stays and removes all others within the tolerance.  Whatever the layout,    *)
(* chains included, the outcome is sound.                                            *)
EXTENDS VecOps, TLC, Json
CONSTANTS N, Top, Tols
VARIABLES pos, tol, j, kept, gone
vars == <<pos, tol, j, kept, gone>>
Near(a, b) == pos[a] - pos[b] <= tol /\ pos[b] - pos[a] <= tol
Init == pos \in [1..N -> 0..Top] /\ tol \in Tols /\ j = 0 /\ kept = {} /\ gone = {}
Next == /\ j < N /\ j' = j + 1 /\ UNCHANGED <<pos, tol>>
        /\ IF j + 1 \in gone THEN UNCHANGED <<kept, gone>>
           ELSE kept' = kept \union {j + 1} /\ gone' = gone \union {i \in 1..N : i # j + 1 /\ Near(i, j + 1)}
Spec == Init /\ [][Next]_vars
Disjoint == kept \intersect gone = {}
Partly == \A a, b \in kept : a # b => ~Near(a, b)
Always == \A a \in gone : \E b \in kept : Near(a, b)
Done == j = N => kept \union gone = 1..N /\ CullOk(N, Near, kept)
(* removing everything near any vector, removed ones included, is not sound          *)
Emit == j = N => PrintT("CASE " \o ToJson([k |-> "cull", p |-> pos, tol |-> tol]))
===============================================================================

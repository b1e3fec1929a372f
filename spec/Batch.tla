------------------------------------ MODULE Batch -----------------------------------
(* A list of images computed by workers that keep their own copy of the model from    *)
(* image to image, taking them in order but finishing in any.                          *)
EXTENDS HistOps, FiniteSets, TLC, Json
CONSTANTS MaxLen, Workers
VARIABLES list, given, next, own, job, res
vars == <<list, given, next, own, job, res>>
Lists == UNION {[1..k -> 1..3] : k \in 1..MaxLen}
Ws == 1..Workers
Init == /\ list \in Lists /\ given \in BOOLEAN /\ next = 1
        /\ own = [w \in Ws |-> list[1]]                     \* the copies start with the first image loaded
        /\ job = [w \in Ws |-> 0] /\ res = [i \in {} |-> 0]
Take(w) == /\ job[w] = 0 /\ next <= Len(list) /\ next' = next + 1
           /\ job' = [job EXCEPT ![w] = next] /\ own' = [own EXCEPT ![w] = list[next]] /\ UNCHANGED <<list, given, res>>
Give(w) == /\ job[w] > 0 /\ res' = [i \in DOMAIN res \cup {job[w]} |-> IF i = job[w] THEN <<own[w], IF given THEN i ELSE 0>> ELSE res[i]]
           /\ job' = [job EXCEPT ![w] = 0] /\ UNCHANGED <<list, given, next, own>>
Next == \E w \in Ws : Take(w) \/ Give(w)
Spec == Init /\ [][Next]_vars
(* each result is that of its own image with its own illuminance                        *)
Own == \A i \in DOMAIN res : res[i] = <<list[i], IF given THEN i ELSE 0>>
Complete == (~ ENABLED Next) => DOMAIN res = 1..Len(list)
Emit == next = 1 => PrintT("CASE " \o ToJson([t |-> "batch", list |-> list, given |-> given]))
=====================================================================================

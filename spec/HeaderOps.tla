------------------------------- MODULE HeaderOps -------------------------------
(* The header of a picture file: the lines given by whoever wrote it, between   *)
(* the writer's own command line and the FORMAT line.  Reading a header gives   *)
(* a heading naming the file, and every line of the file one tab deeper.        *)
EXTENDS Integers, Sequences
Deeper(ls) == [i \in 1..Len(ls) |-> "\t" \o ls[i]]
(* the lines of t occur in s, adjacent and in order                             *)
Within(t, s) == \/ t = <<>>
                \/ \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
(* header h may be read from a file written with the given lines                *)
ReadOk(h, lines) == Len(h) >= Len(lines) + 1 /\ Within(Deeper(lines), Tail(h))
===============================================================================

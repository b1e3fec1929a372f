---------------------------------- MODULE Clean ----------------------------------
(* All headers of up to MaxLen lines over a small alphabet, cleaned, and         *)
(* cleaned again.                                                               *)
EXTENDS CleanOps, TLC, Json
CONSTANTS MaxLen, MaxDepth, Part
VARIABLES ls, out
Hd(d) == [d |-> d, t |-> "file", k |-> "f", s |-> "", v |-> ""]
Alphabet ==
  IF Part = 1
  THEN {[d |-> d, t |-> "item", k |-> k, s |-> "=", v |-> v] : d \in 0..MaxDepth, k \in {"a", "b"}, v \in {"1", "2"}}
       \cup {Hd(d) : d \in 0..MaxDepth}
       \cup {[d |-> MaxDepth, t |-> "view", k |-> "", s |-> "", v |-> v] : v \in {"x", "y"}}
       \cup {[d |-> 1, t |-> "noise", k |-> "", s |-> "", v |-> ""]}
  ELSE {[d |-> d, t |-> "item", k |-> "a", s |-> "=", v |-> v] : d \in 1..MaxDepth, v \in {"1"}}
       \cup {[d |-> d, t |-> "item", k |-> "EXPOSURE", s |-> "=", v |-> "2"] : d \in 1..MaxDepth}
       \cup {[d |-> d, t |-> "item", k |-> "b", s |-> " ", v |-> "1"] : d \in 1..MaxDepth}
       \cup {Hd(d) : d \in 0..MaxDepth}
(* a line is at most one deeper than the section before it                       *)
RECURSIVE Sec(_)
Sec(q) == IF q = <<>> THEN -1 ELSE LET l == q[Len(q)] IN
          IF l.t = "file" THEN l.d ELSE IF l.t = "item" /\ l.d <= Sec(SubSeq(q, 1, Len(q) - 1)) THEN l.d - 1
          ELSE Sec(SubSeq(q, 1, Len(q) - 1))
(* number the headings so that files are distinguished                          *)
Named(q) == [i \in 1..Len(q) |-> IF q[i].t = "file" THEN [q[i] EXCEPT !.k = @ \o ToString(i)] ELSE q[i]]
Init == ls = <<>> /\ out = <<>>
Next == /\ Len(ls) < MaxLen
        /\ \E l \in Alphabet : l.d <= Sec(ls) + 1 /\ (Part = 2 /\ ls = <<>> => l = Hd(0)) /\ ls' = Append(ls, l)
             /\ out' = CleanL(Named(Append(ls, l)))
Spec == Init /\ [][Next]_<<ls, out>>
H == Named(ls)
Items(q) == SelectSeq(q, LAMBDA l : l.t = "item")
(* adjacent lines with one key are one wrapped item: excluded where stated       *)
RECURSIVE NoWrapFrom(_, _)
NoWrapFrom(q, i) == IF i >= Len(q) THEN TRUE
                    ELSE (q[i].k # q[i+1].k \/ (q[i].s = q[i+1].s /\ q[i].v = q[i+1].v)) /\ NoWrapFrom(q, i + 1)
NoWrap == NoWrapFrom(Items(H), 1)
Out == out
HasItem(o, l) == \E i \in 1..Len(o) : o[i].t = "item" /\ o[i].k = l.k /\ o[i].s = l.s /\ o[i].v = l.v
KeepsAll == NoWrap => \A i \in 1..Len(H) : H[i].t = "item" => HasItem(Out, H[i])
AddsNothing == NoWrap => \A i \in 1..Len(Out) : Out[i].t = "item" => HasItem(H, Out[i])
Once == NoWrap => \A i, j \in 1..Len(Out) : i # j /\ Out[i].t = "item" /\ Out[j].t = "item" =>
                    <<Out[i].k, Out[i].s, Out[i].v>> # <<Out[j].k, Out[j].s, Out[j].v>>
ViewLast == LET V == {i \in 1..Len(H) : H[i].t = "view"}
            IN IF V = {} THEN \A i \in 1..Len(Out) : Out[i].t # "view"
               ELSE /\ \A i \in 1..(Len(Out) - 1) : Out[i].t # "view"
                    /\ Out[Len(Out)].t = "view"
                    /\ Out[Len(Out)].v = H[CHOOSE i \in V : \A j \in V : j <= i].v
(* nothing that says what pixels mean leaves its section                         *)
Inside == \A i \in 1..Len(Out) : Out[i].t = "item" /\ Out[i].k \in Pixel => Out[i].d >= 1
(* the heading an item stands under (0: none)                                    *)
RECURSIVE Under(_, _)
Under(o, i) == LET A == {j \in 1..(i - 1) : o[j].t = "file" /\ o[j].d < o[i].d} IN
               IF A = {} THEN "" ELSE o[CHOOSE j \in A : \A k \in A : k <= j].k
(* items that are not repeated stay under the heading they were under            *)
Single(l) == Cardinality({i \in 1..Len(H) : H[i].t = "item" /\ H[i].k = l.k}) = 1
InPlace == \A i \in 1..Len(H) : H[i].t = "item" /\ Single(H[i]) =>
             \A j \in 1..Len(Out) : Out[j].t = "item" /\ Out[j].k = H[i].k => Under(Out, j) = Under(H, i)
(* cleaning again changes nothing                                                *)
Stable == NoWrap /\ NoWrapFrom(Items(Out), 1) => CleanL(Out) = Out
Emit == Len(ls) \in {MaxLen - 1, MaxLen} => PrintT("CASE " \o ToJson(H))
===============================================================================

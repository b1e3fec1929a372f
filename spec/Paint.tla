---------------------------------- MODULE Paint ----------------------------------
(* Sequences of paintings of a small image.                                       *)
EXTENDS PaintOps, Json, FiniteSets
CONSTANTS W, H, Grows, Steps
VARIABLES img, old, last, hist
vars == <<img, old, last, hist>>
Zero == [p \in Pixels(W, H) |-> F0]
Init == img = Zero /\ old = Zero /\ last = [P |-> {}, c |-> 0, g |-> 0] /\ hist = <<>>
Some == { {}, {<<0, 0>>}, {<<1, 1>>, <<2, 1>>}, {<<W-1, H-2>>}, {<<W, 0>>, <<1, -1>>, <<2, H-1>>} }
Next == /\ Len(hist) < Steps
        /\ \E P \in Some, c \in {1, 3}, g \in Grows :
             /\ last' = [P |-> P, c |-> c, g |-> g]
             /\ old' = img
             /\ img' = Painted(img, W, H, P, FInt(c), g)
             /\ hist' = Append(hist, <<Cardinality(P), c, g>>)
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(f, ps) == IF ps = <<>> THEN F0 ELSE FAdd(f[Head(ps)], Total(f, Tail(ps)))
Ps == [k \in 1..(W*H) |-> <<(k-1) \div H, (k-1) % H>>]
Cheb(p, q) == LET a == IF p[1] < q[1] THEN q[1] - p[1] ELSE p[1] - q[1]
                  b == IF p[2] < q[2] THEN q[2] - p[2] ELSE p[2] - q[2] IN IF a < b THEN b ELSE a
(* nothing is painted off the image                                               *)
Shape == DOMAIN img = Pixels(W, H)
(* a first painting reaches exactly the pixels within the radius                  *)
Support == Len(hist) = 1 => \A p \in DOMAIN img :
  (img[p] # F0) <=> \E q \in last.P \cap DOMAIN img : Cheb(p, q) <= last.g
(* growing keeps the total per area, at borders too                               *)
Conserved == Len(hist) > 0 =>
  Total(img, Ps) = FMulI(Total(Set(old, last.P \cap DOMAIN old, FInt(last.c)), Ps), (2*last.g+1) * (2*last.g+1))
Unpainted == (Len(hist) > 0 /\ last.g = 0) => \A p \in DOMAIN img : p \in last.P \/ img[p] = old[p]
Emit == Len(hist) = Steps => PrintT("CASE " \o ToJson([h |-> hist]))
===============================================================================

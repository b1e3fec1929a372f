---------------------------------- MODULE TakeOps ----------------------------------
(* Selecting along axes: a selector is a record; none takes all, seq the listed     *)
(* positions (negative ones from the end), slice start, stop and step, each <<>>    *)
(* when left out.  Axes count from 0, negative ones from the last.                  *)
EXTENDS Integers, Sequences
Lo(n, step) == IF step < 0 THEN -1 ELSE 0
Hi(n, step) == IF step < 0 THEN n - 1 ELSE n
Clamp(v, n, step) == LET w == IF v < 0 THEN v + n ELSE v IN
  IF w < Lo(n, step) THEN Lo(n, step) ELSE IF w > Hi(n, step) THEN Hi(n, step) ELSE w
RECURSIVE From(_, _, _)
From(i, stop, step) == IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>> ELSE <<i>> \o From(i + step, stop, step)
SliceOf(s, n) == LET step == IF s.step = <<>> THEN 1 ELSE s.step[1] IN
  From(IF s.start = <<>> THEN (IF step < 0 THEN n - 1 ELSE 0) ELSE Clamp(s.start[1], n, step),
       IF s.stop = <<>> THEN (IF step < 0 THEN -1 ELSE n) ELSE Clamp(s.stop[1], n, step), step)
Picks(s, n) == CASE s.k = "none" -> [i \in 1..n |-> i - 1]
                 [] s.k = "slice" -> SliceOf(s, n)
                 [] OTHER -> [i \in 1..Len(s.i) |-> IF s.i[i] < 0 THEN s.i[i] + n ELSE s.i[i]]
InRange(s, n) == s.k # "seq" \/ \A i \in 1..Len(s.i) : -n <= s.i[i] /\ s.i[i] < n
(* an array as what is left of each axis of the original                            *)
Whole(sh) == [d \in 1..Len(sh) |-> [i \in 1..sh[d] |-> i - 1]]
AxisOf(a, nd) == IF a < 0 THEN a + nd + 1 ELSE a + 1
Select(left, s, a) == LET d == AxisOf(a, Len(left)) p == Picks(s, Len(left[d])) IN
  [left EXCEPT ![d] = [i \in 1..Len(p) |-> left[d][p[i] + 1]]]
ShapeOf(left) == [d \in 1..Len(left) |-> Len(left[d])]
(* place in the original, last axis fastest                                         *)
RECURSIVE Flat(_, _, _, _)
Flat(left, sh, d, base) ==
  IF d > Len(sh) THEN <<base>>
  ELSE LET RECURSIVE go(_)
           go(i) == IF i > Len(left[d]) THEN <<>> ELSE Flat(left, sh, d + 1, (base * sh[d]) + left[d][i]) \o go(i + 1)
       IN go(1)
RECURSIVE SelectAll(_, _, _)
SelectAll(left, sel, axes) == IF sel = <<>> \/ axes = <<>> THEN left
  ELSE SelectAll(IF sel[1].k = "none" THEN left ELSE Select(left, sel[1], axes[1]), Tail(sel), Tail(axes))
RECURSIVE Fits(_, _, _)
Fits(left, sel, axes) == \/ sel = <<>> \/ axes = <<>>
  \/ IF sel[1].k = "none" THEN Fits(left, Tail(sel), Tail(axes))
     ELSE /\ -Len(left) <= axes[1] /\ axes[1] < Len(left)
          /\ InRange(sel[1], Len(left[AxisOf(axes[1], Len(left))]))
          /\ Fits(Select(left, sel[1], axes[1]), Tail(sel), Tail(axes))
===============================================================================

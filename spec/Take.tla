------------------------------------ MODULE Take ------------------------------------
(* An array is cut down axis by axis.                                                *)
EXTENDS TakeOps, FiniteSets, TLC, Json
CONSTANTS Shapes, Turns
MCShapes == {<<3>>, <<4, 3>>, <<3, 1, 4>>}
VARIABLES sh, left, prev, ops
vars == <<sh, left, prev, ops>>
O == <<>>
Sl(a, b, c) == [k |-> "slice", start |-> a, stop |-> b, step |-> c, i |-> O]
Sq(i) == [k |-> "seq", start |-> O, stop |-> O, step |-> O, i |-> i]
None == [k |-> "none", start |-> O, stop |-> O, step |-> O, i |-> O]
Sels == {None, Sl(O, O, O), Sl(O, O, <<-1>>), Sl(<<1>>, O, O), Sl(O, <<-1>>, O), Sl(<<-2>>, <<9>>, O), Sl(<<7>>, <<0>>, <<-2>>), Sl(O, O, <<2>>),
         Sl(<<2>>, <<1>>, O), Sq(<<0>>), Sq(<<-1, 0>>), Sq(<<1, 1, 0>>), Sq(<<>>), Sq(<<2>>)}
Init == sh \in Shapes /\ left = Whole(sh) /\ prev = left /\ ops = <<>>
Step(s, a) == /\ Len(ops) < Turns
              /\ (s.k = "none" \/ InRange(s, Len(left[AxisOf(a, Len(sh))])))
              /\ prev' = left /\ left' = SelectAll(left, <<s>>, <<a>>)
              /\ ops' = Append(ops, [s |-> s, a |-> a]) /\ UNCHANGED sh
Next == \E s \in Sels : \E a \in 0..(Len(sh) - 1) : Step(s, a) \/ (s.k = "seq" /\ Step(s, a - Len(sh)))
Spec == Init /\ [][Next]_vars
Dims == Len(left) = Len(sh)
Valid == \A d \in 1..Len(sh) : \A i \in 1..Len(left[d]) : left[d][i] \in 0..(sh[d] - 1)
LastOp == ops[Len(ops)]
Others == ops # <<>> => \A d \in 1..Len(sh) : d # AxisOf(LastOp.a, Len(sh)) => left[d] = prev[d]
Same == (ops # <<>> /\ (LastOp.s = None \/ LastOp.s = Sl(O, O, O))) => left = prev
Back == (ops # <<>> /\ LastOp.s = Sl(O, O, <<-1>>)) => SelectAll(left, <<LastOp.s>>, <<LastOp.a>>) = prev
(* a slice takes places in order, each at most once                                  *)
Ordered == \A s \in Sels : s.k = "slice" => \A n \in 0..5 : LET p == SliceOf(s, n) IN
   \A i \in 1..Len(p) : p[i] \in 0..(n - 1) /\ (i > 1 => p[i] - p[i - 1] = (IF s.step = O THEN 1 ELSE s.step[1]))
Emit == ops # <<>> => PrintT("CASE " \o ToJson([k |-> "take", sh |-> sh, ops |-> ops]))
===============================================================================

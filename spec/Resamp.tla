----------------------------------- MODULE Resamp -----------------------------------
(* A small array is blown up, smoothed and taken down again.                         *)
EXTENDS ResOps, Json
CONSTANTS Turns
VARIABLES sh, a, psh, pa, ops, pat
vars == <<sh, a, psh, pa, ops, pat>>
Shapes == {<<4>>, <<2, 3>>, <<3, 1>>, <<2, 2, 2>>}
Pats == {"flat", "spot", "ramp"}
Make(s, p) == [i \in 1..Size(s) |-> CASE p = "flat" -> FRat(7, 3) [] p = "spot" -> FInt(IF i = 2 THEN 5 ELSE 0) [] OTHER -> FInt((i * i) % 7)]
Init == sh \in Shapes /\ pat \in Pats /\ a = Make(sh, pat) /\ psh = sh /\ pa = a /\ ops = <<>>
Ks(s, T) == [1..Len(s) -> T]
Op(o, k) == [o |-> o, k |-> k]
Do(o, k, nsh, na) == Len(ops) < Turns /\ psh' = sh /\ pa' = a /\ sh' = nsh /\ a' = TLCEval(na) /\ ops' = Append(ops, Op(o, k)) /\ UNCHANGED pat
Up == \E k \in Ks(sh, {1, 2, 3}) : Size(k) > 1 /\ Size(k) * Size(sh) <= 72 /\ Do("up", k, Times(sh, k), Repeat(a, sh, k))
UpSmooth == \E k \in Ks(sh, {1, 2}) : Size(k) > 1 /\ Size(k) * Size(sh) <= 48
   /\ Do("ups", k, Times(sh, k), Gauss(Repeat(a, sh, k), Times(sh, k), [d \in 1..Len(sh) |-> FInt(k[d] - 1)]))
Down == \E k \in Ks(sh, {1, 2, 3}) : Size(k) > 1 /\ (\A d \in 1..Len(sh) : sh[d] % k[d] = 0) /\ Do("down", k, Over(sh, k), Blocks(a, sh, k))
Smooth == \E s \in {1, 2} : Do("smooth", <<s>>, sh, Gauss(a, sh, [d \in 1..Len(sh) |-> FDivI(FInt(s), 2)]))
Boxed == \E r \in {2, 3} : Do("box", <<r>>, sh, Box(a, sh, r))
Next == Up \/ UpSmooth \/ Down \/ Smooth \/ Boxed
Spec == Init /\ [][Next]_vars
Near(x, y) == FNear(x, y, FEps[15], FEps[15])
L == ops[Len(ops)]
Constant == pat = "flat" => \A i \in 1..Len(a) : Near(a[i], FRat(7, 3))
Fits == Len(a) = Size(sh)
(* the mean is kept by all but the box near the ends                                 *)
Mean(x) == FDivI(FSum(x), Len(x))
Kept == ops # <<>> /\ L.o # "box" => Near(Mean(a), Mean(pa))
Undo == ops # <<>> /\ L.o = "up" => LET b == Blocks(a, sh, L.k) IN \A i \in 1..Len(b) : Near(b[i], pa[i])
Within == LET lo == FoldLeft(FMin, pa[1], pa) hi == FoldLeft(FMax, pa[1], pa) IN \A i \in 1..Len(a) : FGe(a[i], FSub(lo, FEps[12])) /\ FLe(a[i], FAdd(hi, FEps[12]))
Emit == ops # <<>> => PrintT("CASE " \o ToJson([k |-> "res", sh |-> psh, o |-> L.o, m |-> L.k, pat |-> pat, n |-> Len(ops)]))
===============================================================================

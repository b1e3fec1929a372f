------------------------------------ MODULE Quant ------------------------------------
(* Values arrive with their weights, in any order; then the quantile rises.           *)
EXTENDS QuantOps, Json
CONSTANTS N, Vals, Wts, Qs
VARIABLES d, w, q, v
vars == <<d, w, q, v>>
Q(i) == FDivI(FInt(i), 40)
FD == [i \in 1..Len(d) |-> FInt(d[i])]
FW(k) == [i \in 1..Len(w) |-> FMulI(FInt(w[i]), k)]
Keep(ww) == \E i \in 1..Len(ww) : ww[i] > 0
Val(dd, ww, qq) == TLCEval(WQ([i \in 1..Len(dd) |-> FInt(dd[i])], [i \in 1..Len(ww) |-> FInt(ww[i])], F0, Q(qq)))
Init == d = <<>> /\ w = <<>> /\ q = -1 /\ v = F0
Arrive == q = -1 /\ Len(d) < N /\ \E a \in Vals, b \in Wts : d' = Append(d, a) /\ w' = Append(w, b) /\ UNCHANGED <<q, v>>
Ask == q = -1 /\ Keep(w) /\ q' = 0 /\ v' = Val(d, w, 0) /\ UNCHANGED <<d, w>>
Rise == q >= 0 /\ \E p \in Qs : p > q /\ (\A r \in Qs : r > q => r >= p) /\ q' = p /\ v' = Val(d, w, p) /\ UNCHANGED <<d, w>>
Next == Arrive \/ Ask \/ Rise
Spec == Init /\ [][Next]_vars
In == {i \in 1..Len(d) : w[i] > 0}
Lowest == CHOOSE i \in In : \A j \in In : d[i] <= d[j]
Highest == CHOOSE i \in In : \A j \in In : d[i] >= d[j]
Ranged == q >= 0 => FLe(FInt(d[Lowest]), v) /\ FLe(v, FInt(d[Highest]))
Ends == (q = 0 => v = FInt(d[Lowest])) /\ (q = 40 => v = FInt(d[Highest]))
Scale == q >= 0 => v = WQ(FD, FW(3), F0, Q(q))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Order == q >= 0 /\ (\A i, j \in In : i # j => d[i] # d[j]) => v = WQ(Rev(FD), Rev(FW(1)), F0, Q(q))
(* whatever the order, it is one of the choices                                        *)
AnyOrder == q >= 0 => IsWQ(Sorted(Above(Pr(FD, FW(1)), F0)), Q(q), WQ(Rev(FD), Rev(FW(1)), F0, Q(q)), FEps[9])
Accepts == q >= 0 => IsWQ(Sorted(Above(Pr(FD, FW(1)), F0)), Q(q), v, FEps[9])
Monotone == [][q >= 0 => FLe(v, v')]_vars
(* with equal weights the k-th of n is at (k - 1) / (n - 1)                            *)
Grid == q >= 0 /\ In = 1..Len(d) /\ (\A i \in In : w[i] = w[1]) /\ (q * (Len(d) - 1)) % 40 = 0 =>
   \E i \in In : FInt(d[i]) = v /\ LET k == (q * (Len(d) - 1)) \div 40 IN
      Cardinality({j \in In : d[j] < d[i]}) <= k /\ k < Cardinality({j \in In : d[j] <= d[i]})
Emit == q > 0 => PrintT("CASE " \o ToJson([k |-> "q", d |-> d, w |-> w, q |-> q]))
===============================================================================

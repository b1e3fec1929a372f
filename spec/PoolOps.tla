-------------------------------- MODULE PoolOps --------------------------------
(* What a parallel map answers, as a function of the request: the abstraction   *)
(* that Pool.tla's interleavings refine (invariant Abstracts there) and against *)
(* which PoolTrace.tla judges the implementation.                               *)
EXTENDS Integers, Sequences
F(i) == i * 10                                     \* the value of call i
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Outcome(cnt, bad) == IF bad \cap (1..cnt) = {} THEN <<"ok", [i \in 1..cnt |-> F(i)]>>
                     ELSE <<"exc", MinOf(bad \cap (1..cnt))>>
================================================================================

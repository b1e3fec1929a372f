---------------------------------- MODULE FrameOps ----------------------------------
(* What a caller owns: arrays (and other objects) and the settings of the process.     *)
(* A call may read them and nothing else; what it answers depends on what it was given. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* memo: what was asked of which function with which contents, and the answer           *)
Known(memo, f, given) == {m \in memo : m.f = f /\ m.given = given}
Given(mem, args) == [a \in {args[i] : i \in 1..Len(args)} |-> mem[a]]
======================================================================================

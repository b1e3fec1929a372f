---------------------------------- MODULE Pool ----------------------------------
(* The parallel map of raytools.utility.pool_call.                               *)
(* A call maps f over n arguments.  In "pool" mode every argument is submitted   *)
(* in order to w workers that take submissions first-in first-out, and the       *)
(* caller collects the results in submission order; in "inline" mode the caller  *)
(* runs the calls itself.  fails is the set of arguments for which f raises.     *)
EXTENDS PoolOps, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxW, MaxFail

VARIABLES mode, n, w, fails,      \* the request (constant along a behaviour)
          sub,                    \* number of arguments submitted so far
          started,                \* arguments whose call has begun, in order
          fin,                    \* arguments whose call has ended, in order
          got,                    \* results collected by the caller
          out                     \* "run", <<"ok", results>>, <<"exc", i>>
vars == <<mode, n, w, fails, sub, started, fin, got, out>>

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Running == SeqSet(started) \ SeqSet(fin)

Init == /\ mode \in {"pool", "inline"}
        /\ n \in 0..MaxN /\ w \in 1..MaxW /\ (mode = "inline" => w = 1)
        /\ fails \in {S \in SUBSET (1..n) : Cardinality(S) <= MaxFail}
        /\ sub = 0 /\ started = <<>> /\ fin = <<>> /\ got = <<>> /\ out = <<"run">>

Req == UNCHANGED <<mode, n, w, fails>>

(* pool mode *)
Submit == /\ mode = "pool" /\ out = <<"run">> /\ sub < n
          /\ sub' = sub + 1 /\ Req /\ UNCHANGED <<started, fin, got, out>>
Start ==  /\ mode = "pool"
          /\ Len(started) < sub /\ Cardinality(Running) < w
          /\ started' = Append(started, Len(started) + 1)      \* FIFO
          /\ Req /\ UNCHANGED <<sub, fin, got, out>>
Finish(i) == /\ mode = "pool" /\ i \in Running
             /\ fin' = Append(fin, i)
             /\ Req /\ UNCHANGED <<sub, started, got, out>>
Collect == /\ mode = "pool" /\ out = <<"run">> /\ sub = n /\ Len(got) < n
           /\ LET i == Len(got) + 1
              IN /\ i \in SeqSet(fin)
                 /\ IF i \in fails THEN out' = <<"exc", i>> /\ got' = got
                    ELSE got' = Append(got, F(i)) /\ out' = out
           /\ Req /\ UNCHANGED <<sub, started, fin>>
Return == /\ out = <<"run">> /\ Len(got) = n /\ (mode = "pool" => sub = n)
          /\ out' = <<"ok", got>>
          /\ Req /\ UNCHANGED <<sub, started, fin, got>>
(* inline mode: begin and end one call at a time, stop at the first exception *)
InlineCall == /\ mode = "inline" /\ out = <<"run">> /\ Len(got) < n
              /\ LET i == Len(got) + 1
                 IN /\ started' = Append(started, i) /\ fin' = Append(fin, i) /\ sub' = i
                    /\ IF i \in fails THEN out' = <<"exc", i>> /\ got' = got
                       ELSE got' = Append(got, F(i)) /\ out' = out
              /\ Req
Next == Submit \/ Start \/ (\E i \in 1..MaxN : Finish(i)) \/ Collect \/ Return \/ InlineCall
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

(* ------------------------------------------------------------- properties *)
Ordered == \A i \in 1..Len(got) : got[i] = F(i)
OnceEach == /\ Cardinality(SeqSet(started)) = Len(started)
            /\ Cardinality(SeqSet(fin)) = Len(fin)
            /\ SeqSet(fin) \subseteq SeqSet(started)
Capped == Cardinality(Running) <= w
ExcFirst == out[1] = "exc" => fails # {} /\ out[2] = MinOf(fails)
OkAll == out[1] = "ok" => /\ fails = {} /\ Len(out[2]) = n
                          /\ SeqSet(fin) = 1..n /\ out[2] = [i \in 1..n |-> F(i)]
FailsSeen == out[1] # "ok" \/ fails = {}
Answers == <>(out # <<"run">>)
Stable == [][out # <<"run">> => out' = out]_vars

Abstracts == out # <<"run">> => out = Outcome(n, fails)

(* schedules for replay: the orders in which calls can end with w workers *)
Emit == (mode = "pool" /\ n >= 1 /\ Len(fin) = n /\ out # <<"run">> /\ Len(started) = n)
        => PrintT("CASE " \o ToJson([n |-> n, w |-> w, fails |-> fails, order |-> fin]))
===============================================================================

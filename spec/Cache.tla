----------------------------------- MODULE Cache -----------------------------------
EXTENDS CacheOps, TLC, Json
CONSTANTS Slots, Data, MaxLen, Reuse
(* Reuse: a dropped set's identity is given to the next one (a cache that does not *)
(* hold its owner); then reads go wrong, which Cache_reuse.cfg shows               *)
M == {"thr", "src", "illum", "srcillum", "backlum", "dgp"}
D == [m \in M |-> CASE m = "thr" -> <<>> [] m = "src" -> <<"thr">> [] m = "illum" -> <<>>
      [] m = "srcillum" -> <<"src">> [] m = "backlum" -> <<"illum", "srcillum">> [] m = "dgp" -> <<"illum", "src">>]
VARIABLES ids, dat, cache, next, hist, ok
vars == <<ids, dat, cache, next, hist, ok>>
Init == /\ ids = [s \in Slots |-> 0] /\ dat = [s \in Slots |-> 0] /\ cache = Empty(M)
        /\ next = 1 /\ hist = <<>> /\ ok = TRUE
Log(x) == hist' = Append(hist, x)
(* a new metric set in a slot, the old one is dropped                             *)
New(s, d) == /\ ids' = [ids EXCEPT ![s] = IF Reuse /\ ids[s] # 0 THEN ids[s] ELSE next]
             /\ dat' = [dat EXCEPT ![s] = d]
             /\ next' = next + 1 /\ Log(<<"new", s, d, <<>> >>) /\ UNCHANGED <<cache, ok>>
Call(s, ms) == /\ ids[s] # 0
               /\ LET r == ReadAll(D, cache, ids[s], dat[s], ms) IN
                  /\ cache' = r[2]
                  /\ ok' = (r[1] = [i \in 1..Len(ms) |-> <<ms[i], dat[s]>>])
               /\ Log(<<"call", s, 0, ms>>) /\ UNCHANGED <<ids, dat, next>>
Bad(s) == ids[s] # 0 /\ Log(<<"bad", s, 0, <<>> >>) /\ UNCHANGED <<ids, dat, cache, next, ok>>
Lists == {<<"illum">>, <<"backlum">>, <<"dgp", "illum">>, <<"srcillum", "backlum", "srcillum">>}
Next == /\ Len(hist) < MaxLen
        /\ \E s \in Slots : (\E d \in Data : New(s, d)) \/ (\E l \in Lists : Call(s, l)) \/ Bad(s)
Spec == Init /\ [][Next]_vars
(* every value is that of the set asked, whatever was asked before                *)
Own == ok
(* what is kept for an owner is its own value                                     *)
Kept == \A m \in M, s \in Slots : (ids[s] # 0 /\ cache[m][1] = ids[s]) => cache[m][2] = <<m, dat[s]>>
Emit == Len(hist) = MaxLen => PrintT("CASE " \o ToJson([h |-> hist]))
===============================================================================

--------------------------------- MODULE Nproc ---------------------------------
(* The process cap: one environment variable, changed by set_nproc and          *)
(* unset_nproc and by anybody else, read by get_nproc.                          *)
EXTENDS NprocOps, TLC, Json
CONSTANTS MaxLen
VARIABLES env, last, h
vars == <<env, last, h>>
(* last: what a user expects: <<"set", n>>, <<"none">> or <<"ext", token>> *)
Init == /\ env \in {Unset} \cup {v[1] : v \in Range(External)}
        /\ last = (IF env = Unset THEN <<"none">> ELSE <<"ext", env>>)
        /\ h = <<[o |-> "init", a |-> env]>>
Do(op) == /\ Len(h) <= MaxLen
          /\ h' = Append(h, op)
          /\ env' = Effect(env, op)
          /\ last' = CASE op.o = "set" /\ IsInt(op.a) /\ IntOf(op.a) >= 1 -> <<"set", IntOf(op.a)>>
                       [] op.o = "set" /\ IsInt(op.a) -> <<"none">>
                       [] op.o = "unset" -> <<"none">>
                       [] op.o = "ext" -> IF op.a = Unset THEN <<"none">> ELSE <<"ext", op.a>>
                       [] OTHER -> last
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Cpus == 77
(* what get_nproc() answers is what the last effective change asked for *)
LastWins == Get(env, "None", Cpus) =
              CASE last[1] = "set" -> last[2]
                [] last[1] = "none" -> Cpus
                [] OTHER -> LET m == Meaning(last[2]) IN IF m = NoInt THEN Cpus ELSE m
Explicit == \A a \in {"0", "1", "9", "-2"} : Get(env, a, Cpus) = IntOf(a)
NoOps == \A op \in Ops : (op.o = "set" /\ ~ IsInt(op.a)) \/ op.o = "get" => Effect(env, op) = env
Idempotent == \A op \in Ops : Effect(Effect(env, op), op) = Effect(env, op)
Emit == Len(h) = MaxLen + 1 => PrintT("CASE " \o ToJson(h))
===============================================================================

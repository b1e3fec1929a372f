-------------------------------- MODULE NprocOps --------------------------------
EXTENDS Integers, Sequences, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
Unset == "<unset>"
NoInt == -999999
(* integer arguments and their texts *)
Ints == << <<"-2", -2>>, <<"0", 0>>, <<"1", 1>>, <<"2", 2>>, <<"3", 3>>, <<"4", 4>>, <<"5", 5>>,
           <<"9", 9>>, <<"17", 17>>, <<"64", 64>>, <<"1000", 1000>> >>
IsInt(a) == \E p \in Range(Ints) : p[1] = a
IntOf(a) == (CHOOSE p \in Range(Ints) : p[1] = a)[2]
(* contents of the variable somebody else may leave, and what they mean *)
External == << <<"6", 6>>, <<" 7 ", 7>>, <<"-3", -3>>, <<"", NoInt>>, <<"many", NoInt>>,
               <<"2.5", NoInt>>, <<"+8", 8>> >>
Meaning(t) == IF t = Unset THEN NoInt
              ELSE IF \E p \in Range(External) : p[1] = t
                   THEN (CHOOSE p \in Range(External) : p[1] = t)[2]
              ELSE IF IsInt(t) THEN IntOf(t) ELSE NoInt
(* arguments of set_nproc that are not integers *)
NonInts == {"None", "2.0", "'3'", "True", "[2]"}
Rejected(a) == a \in NonInts \ {"None"}
Ops == {[o |-> "set", a |-> x] : x \in {"None", "-2", "0", "1", "3", "2.0", "'3'", "True"}}
       \cup {[o |-> "unset", a |-> ""], [o |-> "get", a |-> "None"], [o |-> "get", a |-> "5"],
             [o |-> "get", a |-> "0"]}
       \cup {[o |-> "ext", a |-> x] : x \in {Unset, "6", "many", "-3"}}
Effect(env, op) ==
  CASE op.o = "set" -> IF ~ IsInt(op.a) THEN env
                       ELSE IF IntOf(op.a) < 1 THEN Unset ELSE op.a
    [] op.o = "unset" -> Unset
    [] op.o \in {"ext", "init"} -> op.a
    [] OTHER -> env
Get(env, a, cpus) == IF a # "None" THEN IntOf(a)
                     ELSE IF Meaning(env) = NoInt THEN cpus ELSE Meaning(env)
===============================================================================

------------------------------- MODULE CacheTrace -------------------------------
EXTENDS Conf, Fx, CacheOps
(* Fresh[key] with key "<class>/<data>": values of every metric, each computed by  *)
(* a process of its own                                                           *)
Fresh == JsonDeserialize(IOEnv.REF_FILE)
(* state: slot -> <<key, default metrics>>                                         *)
S0 == [s \in 1..3 |-> <<"", <<>> >>]
S(m, e) == IF e.k = "new" /\ e.exc = "" THEN [m EXCEPT ![e.s] = <<e.key, e.dm>>]
            ELSE IF e.k = "drop" THEN [m EXCEPT ![e.s] = <<"", <<>> >>] ELSE m
E12 == FEps[12]
ValsOf(key, ms) == FlattenSeq([i \in 1..Len(ms) |-> Fresh[key][ms[i]]])
JCall(m, e) == LET ms == IF e.dflt THEN m[e.s][2] ELSE e.ms
                    want == ValsOf(m[e.s][1], ms) IN FirstBad(<<
  <<"metrics can be asked at any time", e.exc = "">>,
  <<"a value for every metric, in order", Len(e.v) = Len(want)>>,
  <<"the values are those a new set gives", SeqNear(e.v, want, E12, E12)>> >>)
JBad(m, e) == FirstBad(<< <<"unknown metrics raise AttributeError", e.exc = "AttributeError">> >>)
JNew(m, e) == FirstBad(<< <<"metric sets can be made", e.exc = "">> >>)
JNames(e) == IF e.exc # "" THEN "names can be checked" ELSE FirstBad(<<
  <<"the known names, in order", e.good = Known(e.cls, e.ms)>>,
  <<"unknown names are refused", e.raised = (IF Len(Known(e.cls, e.ms)) = Len(e.ms) THEN "" ELSE "AttributeError")>>,
  <<"safe to sum are the sums", e.safe = SafeToSum(e.cls, e.ms)>> >>)
J(m, e) == CASE e.k \in {"call", "read"} -> JCall(m, e) [] e.k = "bad" -> JBad(m, e)
              [] e.k = "names" -> JNames(e) [] e.k = "new" -> JNew(m, e) [] e.k = "drop" -> "ok"
===============================================================================

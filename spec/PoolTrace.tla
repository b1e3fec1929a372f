------------------------------- MODULE PoolTrace -------------------------------
(* Trace specification for Pool: gated schedules replayed through the real      *)
(* pool_call (chains call/start/fin/ret/end) and ungated argument shapes.       *)
EXTENDS Conf, PoolOps, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
S0 == [n |-> 0, w |-> 0, fails |-> {}, started |-> {}, fin |-> {}, ret |-> FALSE]
Names == <<"KeyError", "Odd", "RuntimeError", "IndexError", "ValueError">>
NameOf(i) == Names[((i - 1) % 5) + 1]

S(s, e) ==
  CASE e.k = "call"  -> [s EXCEPT !.n = e.n, !.w = e.w, !.fails = Range(e.fails)]
    [] e.k = "start" -> [s EXCEPT !.started = @ \cup {e.i}]
    [] e.k = "fin"   -> [s EXCEPT !.fin = @ \cup {e.i}]
    [] e.k = "ret"   -> [s EXCEPT !.ret = TRUE]
    [] OTHER -> s

JRet(s, e) ==
  LET o == Outcome(s.n, s.fails)
  IN FirstBad(<<
      <<"the call returned twice", ~ s.ret>>,
      <<"an exception of a call reaches the caller; no exception otherwise",
        (e.exc # "") = (o[1] = "exc")>>,
      <<"the exception is that of the first failing argument",
        o[1] = "exc" => e.which = o[2] /\ e.exc = NameOf(o[2])>>,
      <<"results are the values of the calls in argument order",
        o[1] = "ok" => e.res = [i \in 1..s.n |-> ToString(o[2][i])]>>,
      <<"the caller only returns after the calls it reports have ended",
        o[1] = "ok" => s.fin = 1..s.n>> >>)

(* workers that run the calls in the caller's process: threads and none at all     *)
Here == {"False", "None", "0", "'t'", "'T'", "'thread'", "'threads'", "'Threads'"}
JMap(e) ==
  IF e.exc # "" THEN "the map raised although no call raises"
  ELSE LET m == Len(e.args) IN FirstBad(<<
      <<"the result is a list", e.islist>>,
      <<"one result per argument", Len(e.res) = m>>,
      <<"each call gets its argument then the fixed arguments, in argument order",
        \A i \in 1..m : e.res[i] = e.args[i] \o e.fixed>>,
      <<"each call gets the keyword arguments", \A i \in 1..m : e.rkw[i] = e.kw>>,
      <<"each argument is evaluated exactly once", e.calls = e.want>>,
      <<"thread workers and none run calls in the caller's process, the others elsewhere",
        \A i \in 1..m : e.here[i] = (e.workers \in Here)>> >>)

JThrow(e) ==
  LET bad == Range(e.bad)
      first == MinOf(bad)
  IN IF e.exc # "" THEN "the map failed in an unexpected way"
     ELSE FirstBad(<<
      <<"an exception of a call reaches the caller; no exception otherwise", e.raised # "">>,
      <<"the exception is that of the first failing argument",
        e.which = first /\ e.raised = e.names[first]>>,
      <<"no argument is evaluated twice", Cardinality(Range(e.calls)) = Len(e.calls)>>,
      <<"without workers nothing runs after the first failure",
        e.inline => e.calls = [i \in 1..first |-> i]>>,
      <<"everything before the failing argument has run", \A i \in 1..first : i \in Range(e.calls)>> >>)

J(s, e) ==
  CASE e.k = "call" -> "ok"
    [] e.k = "start" -> FirstBad(<<
         <<"each argument is evaluated exactly once", e.i \notin s.started /\ e.i \in 1..s.n>>,
         <<"no more calls at a time than the cap", Cardinality(s.started \ s.fin) < s.w>> >>)
    [] e.k = "fin" -> IF e.i \in s.started /\ e.i \notin s.fin THEN "ok"
                      ELSE "each argument is evaluated exactly once"
    [] e.k = "ret" -> JRet(s, e)
    [] e.k = "end" -> FirstBad(<<
         <<"as many calls as the cap allows run at the same time, taken in argument order", e.stall = "">>,
         <<"the caller gets an answer", s.ret>> >>)
    [] e.k = "map" -> JMap(e)
    [] e.k = "values" -> IF e.exc = "" /\ e.res = e.want THEN "ok"
                         ELSE "results are the values of the calls in argument order"
    [] e.k = "throw" -> JThrow(e)
===============================================================================

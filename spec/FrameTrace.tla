------------------------------- MODULE FrameTrace -------------------------------
(* mem: what each of the caller's objects holds; set: the settings of the process.    *)
EXTENDS Conf, FrameOps
S0 == [mem |-> <<>>, set |-> "", memo |-> {}]
S(s, e) == CASE e.k = "user" -> [s EXCEPT !.mem = e.mem, !.set = e.set]
             [] e.k = "call" /\ e.exc = "" /\ e.fixed -> [s EXCEPT !.memo = @ \cup {[f |-> e.f, given |-> Given(s.mem, e.args), res |-> e.res]}]
             [] OTHER -> s
JCall(s, e) == FirstBad(<<
  <<"a call can be made", e.exc = "" \/ (e.strict /\ e.exc = "FloatingPointError")>>,
  <<"what the caller owns is left as it is", e.mem = s.mem>>,
  <<"the settings of the process are left as they are", e.set = s.set>>,
  <<"the same call has the same answer", (e.exc = "" /\ e.fixed) => \A m \in Known(s.memo, e.f, Given(s.mem, e.args)) : m.res = e.res>>,
  <<"a caller with the same contents has the same answer", e.exc = "" => e.fresh>>,
  <<"an answer stays as given", e.exc = "" => e.kept>> >>)
(* a call that fails                                                                    *)
JBad(s, e) == FirstBad(<<
  <<"what the caller owns is left as it is", e.mem = s.mem>>,
  <<"the settings of the process are left as they are", e.set = s.set>> >>)
J(s, e) == CASE e.k = "user" -> "ok" [] e.k = "call" -> JCall(s, e) [] e.k = "bad" -> JBad(s, e)
==================================================================================

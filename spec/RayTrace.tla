------------------------------- MODULE RayTrace -------------------------------
EXTENDS Conf, RayOps
S0 == <<>>
S(s, e) == CASE e.k = "user" -> e.path [] e.k \in {"call", "import"} -> IF e.exc = "" THEN e.path ELSE s
JCall(s, e) == IF e.exc # "" THEN "the path can be extended" ELSE
  LET w == Extend(s, e.base, e.subd) IN FirstBad(<<
  <<"the current directory and the package's come first", Len(e.path) >= 2 /\ e.path[1] = "." /\ e.path[2] = Own(e.base, e.subd)>>,
  <<"nothing is lost", \A i \in 1..Len(s) : Contains(e.path, s[i])>>,
  <<"everything is there once, in order", e.path = w>>,
  <<"nothing else in the environment changes", e.same>> >>)
J(s, e) == CASE e.k = "user" -> "ok" [] e.k \in {"call", "import"} -> JCall(s, e)
================================================================================

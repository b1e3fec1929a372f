------------------------------ MODULE HeaderTrace ------------------------------
(* Recorded histories of writing, deriving and inspecting pictures whose        *)
(* header lines and file names are any printable text.                          *)
EXTENDS Conf, HeaderOps
S0 == [w |-> <<>>]                      \* w[f]: lines given when f was last written
S(s, e) == IF e.k \in {"write", "derive"}
           THEN [s EXCEPT !.w = [x \in {e.f} \cup DOMAIN s.w |-> IF x = e.f THEN e.given ELSE s.w[x]]]
           ELSE s
JW(s, e) == FirstBad(<<
  <<"writing a picture with these header lines succeeds", e.exc = "">>,
  <<"the writer returns the file it wrote", e.ret = e.f>> >>)
JD(s, e) == FirstBad(<<
  <<"writing a picture with these header lines succeeds", e.exc = "">>,
  <<"a picture is derived with the lines of its origin", ReadOk(e.from, s.w[e.g])>>,
  <<"the writer returns the file it wrote", e.ret = e.f>> >>)
JR(s, e) == FirstBad(<<
  <<"the header can be read", e.exc = "">>,
  <<"every header line is read back verbatim and in order", ReadOk(e.h, s.w[e.f])>>,
  <<"the header option gives the same lines", e.o = e.h /\ e.oc = e.h>>,
  <<"the pixels do not depend on the header", e.px>> >>)
JS(s, e) == FirstBad(<<
  <<"the file name makes no difference", e.exc = "" /\ e.plain = e.nasty>> >>)
J(s, e) == CASE e.k = "write" -> JW(s, e) [] e.k = "derive" -> JD(s, e)
             [] e.k = "read" -> JR(s, e) [] e.k = "name" -> JS(s, e)
===============================================================================

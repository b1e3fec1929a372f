--------------------------------- MODULE Views ---------------------------------
(* The header of an image is a history of lines; the view an image has is that of *)
(* the last angular fisheye VIEW line, without any that of the last line rvu      *)
(* left, otherwise none.  Options a line does not give have defaults.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, MaxLines, Shapes
VARIABLES lines, shape
vars == <<lines, shape>>
Last(ls, k) == LET on == {i \in 1..Len(ls) : ls[i].kind = k} IN
  IF on = {} THEN 0 ELSE CHOOSE i \in on : \A j \in on : j <= i
ViewLine(ls) == LET v == Last(ls, "view") IN IF v > 0 THEN v ELSE Last(ls, "rvu")
Init == lines = <<>> /\ shape \in Shapes
Next == /\ Len(lines) < MaxLines /\ UNCHANGED shape
        /\ \E k \in Kinds, d, p \in BOOLEAN : /\ (k \notin {"view", "rvu"} => (d /\ p))
             /\ lines' = Append(lines, [kind |-> k, d |-> d, p |-> p])
Spec == Init /\ [][Next]_vars
(* adding a line that is no view changes nothing; adding a view makes it the view  *)
Step == [][LET n == Len(lines') IN
  CASE lines'[n].kind = "view" -> ViewLine(lines') = n
    [] lines'[n].kind = "rvu" -> ViewLine(lines') = (IF Last(lines, "view") > 0 THEN ViewLine(lines) ELSE n)
    [] OTHER -> ViewLine(lines') = ViewLine(lines)]_vars
NoneIff == (ViewLine(lines) = 0) <=> \A i \in 1..Len(lines) : lines[i].kind \notin {"view", "rvu"}
Emit == Len(lines) <= MaxLines => PrintT("CASE " \o ToJson([lines |-> lines, shape |-> shape]))
===============================================================================

------------------------------ MODULE ViewsTrace ------------------------------
(* Header lines of a file and the view read back from it.                         *)
EXTENDS Conf, SCOps
S0 == 0
S(s, e) == 0
E9 == FEps[9]
LastOf(ls, k) == LET on == {i \in 1..Len(ls) : ls[i].kind = k} IN
  IF on = {} THEN 0 ELSE CHOOSE i \in on : \A j \in on : j <= i
ViewLine(ls) == LET v == LastOf(ls, "view") IN IF v > 0 THEN v ELSE LastOf(ls, "rvu")
Dir(l) == IF l.d = <<>> THEN <<F0, F1, F0>> ELSE Unit(l.d)
Pt(l) == IF l.p = <<>> THEN <<F0, F0, F0>> ELSE l.p
(* a full view is an image of two squares, each a hemisphere                       *)
JRead(e) == LET n == ViewLine(e.lines) IN FirstBad(<<
  <<"images can be asked for their view", e.exc = "">>,
  <<"image size is width and height", e.size = <<e.x, e.y>>>>,
  <<"images without an angular fisheye view have no view", (n = 0) <=> e.none>>,
  <<"the view point is that of the last view", n = 0 \/ ~e.vpt \/ e.pt = Pt(e.lines[n])>>,
  <<"the view direction is that of the last view", n = 0 \/ VNear(e.vd, Dir(e.lines[n]), E9)>>,
  <<"the view angle is that of the last view over the width of the image", n = 0 \/
     LET va == FDivI(FMulI(e.lines[n].va, e.x), e.y) IN
     IF va = FInt(360) THEN e.full /\ e.va = FInt(180) ELSE ~e.full /\ FNear(e.va, va, E9, F0)>> >>)
JMissing(e) == FirstBad(<< <<"unreadable images raise", e.exc = e.want>> >>)
(* view files: the last angular fisheye view                                       *)
JFile(e) == LET on == {i \in 1..Len(e.lines) : e.lines[i].kind \in {"view", "rvu"}}
                n == IF on = {} THEN 0 ELSE CHOOSE i \in on : \A j \in on : j <= i IN FirstBad(<<
  <<"view files without an angular fisheye view raise", (e.exc # "") <=> (n = 0)>>,
  <<"no view is a ValueError", n # 0 \/ e.exc = "ValueError">>,
  <<"the view direction is that of the last view", n = 0 \/ VNear(e.vd, Dir(e.lines[n]), E9)>>,
  <<"the view angle is that of the last view", n = 0 \/ (IF e.lines[n].va = FInt(360) THEN e.full ELSE ~e.full /\ FNear(e.va, e.lines[n].va, E9, F0))>> >>)
J(s, e) == CASE e.k = "read" -> JRead(e) [] e.k = "missing" -> JMissing(e) [] e.k = "file" -> JFile(e)
===============================================================================

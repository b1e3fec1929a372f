------------------------------- MODULE PosTrace -------------------------------
EXTENDS Conf, PosOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
(* a source right on the view plane may count as before or behind; on the axis the *)
(* vertical angle is known only as well as the direction                          *)
Open(g, c) == IF g THEN FLe(FAbs(c[3]), FEps[7])
              ELSE FLe(Hyp(c[1], c[2]), FEps[7])
JPos(e) == LET fr == Frame(Unit(e.d))
               cs == [k \in 1..Len(e.w) |-> InFrame(fr, Unit(e.w[k]))] IN FirstBad(<<
  <<"position indices can be asked", e.exc = "">>,
  <<"every direction has a position index", Len(e.p) = Len(e.w) /\ e.nd = 1 /\ AllFin(e.p)>>,
  <<"above 16 never, behind 16", e.g => All(Len(e.w), LAMBDA k : FLe(e.p[k], F16) /\ (Open(TRUE, cs[k]) \/ cs[k][3][1] > 0 \/ e.p[k] = F16))>>,
  <<"the position index is that of the formula", All(Len(e.w), LAMBDA k : Open(e.g, cs[k]) \/
       FNear(e.p[k], PosIdx(e.g, cs[k]), IF e.g /\ Hyp(cs[k][1], cs[k][2]) # F0 THEN FEps[6] ELSE FEps[5], F0))>> >>)
(* axis: exactly on the line of sight                                             *)
JAxis(e) == FirstBad(<<
  <<"position indices can be asked", e.exc = "">>,
  <<"on the line of sight it is one", All(Len(e.p), LAMBDA k : FNear(e.p[k], F1, FEps[5], F0))>> >>)
(* mirrored about the vertical plane of the view                                  *)
JMirror(e) == FirstBad(<<
  <<"position indices can be asked", e.exc = "">>,
  <<"left and right count the same", SeqNear(e.p, e.q, FEps[6], F0)>> >>)
J(s, e) == CASE e.k = "pos" -> JPos(e) [] e.k = "axis" -> JAxis(e) [] e.k = "mirror" -> JMirror(e)
===============================================================================

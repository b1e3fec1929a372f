------------------------------- MODULE HistTrace -------------------------------
(* The state is what a fresh model would be given, and the answers of fresh models.  *)
EXTENDS Conf, HistOps, Fx
S0 == [m |-> [view |-> 0, img |-> 0, age |-> 0], ref |-> <<>>]
S(s, e) == CASE e.k = "ref" -> [s EXCEPT !.ref = e.ref]
             [] e.k = "make" -> [s EXCEPT !.m = Made(e.by)]
             [] e.k \in {"lum", "vm", "age"} -> [s EXCEPT !.m = Do(s.m, <<e.k, e.i>>)]
             [] OTHER -> s
Same(a, b) == FNear(a, b, FEps[12], F0)
(* views x images x ages x illuminances (own, then that of each position in a list)  *)
Ref(s, i, ev) == s.ref[s.m.view][i][s.m.age][ev + 1]
JMake(e) == IF e.exc # "" THEN "a model can be made" ELSE "ok"
JSet(e) == IF e.exc # "" THEN "images, views and settings can be changed" ELSE "ok"
JCompute(s, e) ==
  IF s.m.img = 0 THEN (IF e.exc = "ValueError" THEN "ok" ELSE "no score before an image is set")
  ELSE IF e.exc # "" THEN "a score can be computed"
  ELSE FirstBad(<< <<"the score is that of a fresh model", Same(e.score, Ref(s, s.m.img, e.i).score)>>,
                   <<"the response is that of a fresh model", e.sum = <<>> \/ Same(e.sum[1], Ref(s, s.m.img, e.i).sum)>>,
                   <<"the eccentricity is that of a fresh model", Same(e.ecc, Ref(s, s.m.img, e.i).ecc)>> >>)
(* a list computed in parallel: the view is that of the first image                   *)
JBatch(s, e) ==
  IF e.exc # "" THEN "a list can be computed" ELSE
  LET T(im, ev) == s.ref[IF e.list[1] = 2 THEN 3 ELSE 1][im][1][ev + 1]
      R(i) == T(e.list[i], IF e.given THEN i ELSE 0) IN FirstBad(<<
  <<"one score per image", Len(e.scores) = Len(e.list)>>,
  <<"scores in order, each image with its illuminance", \A i \in 1..Len(e.list) : Same(e.scores[i], R(i).score)>>,
  <<"responses are saved where asked", \A i \in 1..Len(e.saved) : e.saved[i].there = e.save>>,
  <<"each saved response is that of its image", \A i \in 1..Len(e.saved) : e.save => FNear(e.saved[i].sum, T(e.saved[i].of, e.saved[i].ev).sum, FRat(1, 50), F0)>>,
  <<"nothing else is written", e.extra = 0>> >>)
J(s, e) == CASE e.k = "ref" -> "ok" [] e.k = "make" -> JMake(e) [] e.k \in {"lum", "vm", "age"} -> JSet(e)
             [] e.k = "compute" -> JCompute(s, e) [] e.k = "batch" -> JBatch(s, e)
================================================================================

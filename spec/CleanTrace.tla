------------------------------- MODULE CleanTrace -------------------------------
(* Recorded header cleaning, lookup and rewriting against CleanOps.             *)
EXTENDS Conf, CleanOps, HeaderOps
S0 == [x |-> 0]
S(s, e) == s
RECURSIVE NoWrapFrom(_, _)
NoWrapFrom(q, i) == IF i >= Len(q) THEN TRUE
                    ELSE (q[i].k # q[i+1].k \/ (q[i].s = q[i+1].s /\ q[i].v = q[i+1].v)) /\ NoWrapFrom(q, i + 1)
Items(q) == SelectSeq(q, LAMBDA l : l.t = "item")
NoWrap(q) == NoWrapFrom(Items(q), 1)
HasItem(o, l) == \E i \in 1..Len(o) : o[i].t = "item" /\ o[i].k = l.k /\ o[i].s = l.s /\ o[i].v = l.v
Views(q) == SelectSeq(q, LAMBDA l : l.t = "view")
IsView(l) == Len(l) >= 5 /\ SubSeq(l, 1, 5) = "VIEW="
Ends(o, q) == IF Views(q) = <<>> THEN \A i \in 1..Len(o) : ~IsView(o[i])
              ELSE /\ o # <<>> /\ o[Len(o)] = "VIEW=" \o Views(q)[Len(Views(q))].v
                   /\ \A i \in 1..(Len(o) - 1) : ~IsView(o[i])
Plain(ls) == {Txt(Item(l.k, l.s, l.v)) : l \in {ls[i] : i \in {j \in 1..Len(ls) : ls[j].t = "item"}}}
(* the text of a line without its tabs                                          *)
RECURSIVE Bare(_)
Bare(l) == IF Len(l) > 0 /\ SubSeq(l, 1, 1) = "\t" THEN Bare(SubSeq(l, 2, Len(l))) ELSE l
Has(o, t) == \E i \in 1..Len(o) : Bare(o[i]) = t
JClean(e) == FirstBad(<<
  <<"the header can be cleaned", e.exc = "">>,
  <<"every item is kept", NoWrap(e.ls) => \A t \in Plain(e.ls) : Has(e.out, t)>>,
  <<"the last view ends the header", Ends(e.out, e.ls)>>,
  <<"no line is repeated", NoWrap(e.ls) => \A i, j \in 1..Len(e.out) : i < j /\ Bare(e.out[i]) \in Plain(e.ls) => Bare(e.out[i]) # Bare(e.out[j])>>,
  <<"the header is cleaned line by line", e.out = Clean(e.ls)>>,
  <<"the text of a header is cleaned as its lines are", e.out3 = e.out>>,
  <<"cleaning a clean header changes nothing", NoWrap(e.ls) /\ NoWrap(CleanL(e.ls)) => e.out2 = e.out>> >>)
Apply(m, k) == IF \E i \in 1..Len(m) : m[i][1] = k THEN m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2] ELSE "?"
JLook(e) == FirstBad(<<
  <<"items can be looked up", e.exc = "" /\ Len(e.r) = Len(e.keys)>>,
  <<"lookup gives the value of each key, in the order asked",
    \A i \in 1..Len(e.keys) :
      LET v == Lookup(e.ls, e.keys[i], LAMBDA k : Apply(e.low, k))
      IN e.r[i] = (IF v = "" THEN "" ELSE Apply(e.strip, v))>> >>)
JWrap(e) == FirstBad(<<
  <<"the header can be cleaned", e.exc = "">>,
  <<"lines stay within the header width", e.longest <= e.width>>,
  <<"cleaning a clean header changes nothing", e.out2 = e.out>>,
  <<"wrapped items keep their value", e.got = e.want>> >>)
JFile(e) == FirstBad(<<
  <<"the picture can be rewritten with a clean header", e.exc = "">>,
  <<"the header written is the cleaned header", ReadOk(e.h, Clean(e.ls))>>,
  <<"reading a header clean gives the cleaned header", e.hc = e.want>>,
  <<"cleaning the header does not change the picture", e.px>> >>)
J(s, e) == CASE e.k = "clean" -> JClean(e) [] e.k = "look" -> JLook(e)
             [] e.k = "wrap" -> JWrap(e) [] e.k = "file" -> JFile(e)
===============================================================================

----------------------------------- MODULE Pos -----------------------------------
EXTENDS PosOps, TLC, Json
CONSTANTS Sigmas, Taus, Views
VARIABLES d, fr, tau, i, p
vars == <<d, fr, tau, i, p>>
DirsOf == << <<0, 0, 1>>, <<0, 0, -1>>, <<0, 1, 0>>, <<-1, 2, 1>>, <<3, -1, -2>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<1, 1, 5>>, <<2, -7, -1>> >>
U(t) == Unit(<<FInt(t[1]), FInt(t[2]), FInt(t[3])>>)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Sg == Asc(Sigmas)
(* the direction sigma degrees off the line of sight, tau degrees from the vertical *)
C(s, t) == LET a == FRad(FInt(s)) b == FRad(FInt(t)) IN << FMul(FSin(a), FSin(b)), FMul(FSin(a), FCos(b)), FCos(a) >>
P(k) == LET x == C(Sg[k], tau) IN << Guth(x), Kim(x) >>
Init == /\ d \in {DirsOf[k] : k \in Views} /\ fr = Frame(U(d)) /\ tau \in Taus /\ i = 1 /\ p = P(1)
Next == i < Len(Sg) /\ i' = i + 1 /\ p' = P(i + 1) /\ UNCHANGED <<d, fr, tau>>
Spec == Init /\ [][Next]_vars
c == C(Sg[i], tau)
W == OutFrame(fr, c)
E8 == FEps[8]
(* the index is a function of the position relative to the view only              *)
Relative == Sg[i] \in {0, 90, 180} \/ \A g \in BOOLEAN : FNear(PosIdx(g, InFrame(fr, W)), PosIdx(g, c), E8, E8)
Angles == LET x == InFrame(fr, W) IN
  /\ FLe(FAbs(FSub(SigmaOf(x), FInt(Sg[i]))), E8)
  /\ Sg[i] \in {0, 180} \/ FLe(FAbs(FSub(TauOf(x), FInt(IF tau > 180 THEN 360 - tau ELSE tau))), E8)
Bounds == /\ FGe(Guth(c), F1) /\ FLe(Guth(c), F16)
          /\ (Sg[i] = 0) => (FLe(FSub(Guth(c), F1), E8))
          /\ (Sg[i] > 90) => Guth(c) = F16
Mirror == \A g \in BOOLEAN : PosIdx(g, <<FNeg(c[1]), c[2], c[3]>>) = PosIdx(g, c)
(* counts less and less away from the line of sight                               *)
Falls == [][\A k \in 1..2 : FGe(p'[k], p[k]) \/ (k = 2 /\ (i = 1 \/ Sg[i + 1] = 180))]_vars
(* no step at the horizon                                                         *)
Joins == Sg[i] < 89 => LET x == [c EXCEPT ![2] = F0] IN
  FNear(Guth([x EXCEPT ![2] = FNeg(FEps[12])]), Guth([x EXCEPT ![2] = FEps[12]]), FEps[6], F0)
Emit == (i = 1 /\ tau = 0) => PrintT("CASE " \o ToJson([d |-> d]))
===============================================================================

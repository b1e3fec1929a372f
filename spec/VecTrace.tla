------------------------------- MODULE VecTrace -------------------------------
EXTENDS Conf, VecOps
S0 == 0
S(s, e) == 0
Sq3(a, b) == LET d == VSub(a, b) IN BAdd(BAdd(BMul(d[1], d[1]), BMul(d[2], d[2])), BMul(d[3], d[3]))
(* squared distances against the squared tolerance, undecided within a billionth    *)
JCull(e) == IF e.exc # "" THEN "vectors can be culled" ELSE
  LET n == Len(e.v)
      t2 == BMul(e.tol, e.tol)
      slack == BAdd(BDivT(t2, BInt(1000000000)), FEps[10])
      lo == BSub(t2, slack) hi == BAdd(t2, slack)
      D == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE LET q == Sq3(e.v[i], e.v[j]) IN IF BCmp(q, lo) < 0 THEN -1 ELSE IF BCmp(q, hi) > 0 THEN 1 ELSE 0]])
      Far(i, j) == D[i][j] # -1
      Close(i, j) == D[i][j] # 1
      kept == {i \in 1..n : e.m[i] = 1} IN FirstBad(<<
  <<"one decision per vector", Len(e.m) = n /\ \A i \in 1..n : e.m[i] \in {0, 1}>>,
  <<"the first vector is kept", FirstKept(n, kept)>>,
  <<"no two kept vectors are near duplicates", Alone(n, Far, kept)>>,
  <<"every removed vector is near a kept one", Covered(n, Close, kept)>>,
  <<"isolated vectors are kept", Isolated(n, LAMBDA i, j : D[i][j] = 1, kept)>>,
  <<"a prebuilt tree gives the same", e.tm = e.m>>,
  <<"asking again gives the same", e.am = e.m>> >>)
(* rays e.r, normals e.n; result e.o with shape e.sh, mask e.m with shape e.msh, the
   filtered result e.f, the result reflected again about the same normal e.u         *)
Len2(a) == Length3(a)
Flat(e, i, j) == ((i - 1) * Len(e.n)) + j
UnitLen(a) == LET d == FAbs(FSub(Len2(a), F1)) IN IF FLt(d, FEps[6]) THEN 1 ELSE IF FGt(d, FDec(2, 5)) THEN 0 ELSE -1
JRefl(e) == IF e.exc # "" THEN "rays can be reflected" ELSE
  LET R == Len(e.r) N == Len(e.n)
      I == 1..R J == 1..N
      want == TLCEval([i \in I |-> [j \in J |-> Mirror(e.r[i], e.n[j])]])
      units == TLCEval([i \in I |-> [j \in J |-> UnitLen(want[i][j])]]) 
      scale(i, j) == FMul(FEps[12], FAdd(F1, FMul(FAdd(F1, Len2(e.r[i])), FAdd(F1, Dot(e.n[j], e.n[j])))))
      unitn(j) == FNear(Dot(e.n[j], e.n[j]), F1, F0, FEps[12])
      at(i, j) == e.o[Flat(e, i, j)] IN FirstBad(<<
  <<"one result per ray and normal", Len(e.o) = R * N /\ e.sh = (IF R = 1 THEN <<N, 3>> ELSE <<R, N, 3>>) /\ e.msh = (IF R = 1 THEN <<N>> ELSE <<R, N>>)>>,
  <<"rays are mirrored about the normals", \A i \in I, j \in J : VNear(at(i, j), want[i][j], scale(i, j))>>,
  <<"a unit normal preserves length", \A i \in I, j \in J : unitn(j) => FNear(Len2(at(i, j)), Len2(e.r[i]), FEps[11], FEps[12])>>,
  <<"a second reflection undoes the first", \A i \in I, j \in J : unitn(j) => VNear(e.u[Flat(e, i, j)], e.r[i], scale(i, j))>>,
  <<"unit results are reported", Len(e.m) = R * N /\ \A i \in I, j \in J : units[i][j] \in {-1, e.m[Flat(e, i, j)]}>>,
  <<"filtering gives the reported ones", e.f = LET RECURSIVE g(_) g(k) == IF k > R * N THEN <<>> ELSE IF e.m[k] = 1 THEN <<e.o[k]>> \o g(k + 1) ELSE g(k + 1) IN g(1)>> >>)
J(s, e) == CASE e.k = "cull" -> JCull(e) [] e.k = "refl" -> JRefl(e)
===============================================================================

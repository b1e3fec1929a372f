---------------------------------- MODULE VecOps ----------------------------------
(* Culling of near duplicates among vectors 1..n, where Near(i, j) tells which are  *)
(* within the tolerance; reflection of rays about normals.                          *)
EXTENDS SCOps, FiniteSets
(* Clear(i, j): certainly farther apart; Near(i, j): certainly within               *)
Alone(n, Clear(_, _), kept) == \A i, j \in kept : i # j => Clear(i, j)
Covered(n, Close(_, _), kept) == \A i \in (1..n) \ kept : \E j \in kept : Close(i, j)
FirstKept(n, kept) == n > 0 => 1 \in kept
Isolated(n, Clear(_, _), kept) == \A i \in 1..n : (\A j \in 1..n : j # i => Clear(i, j)) => i \in kept
CullOk(n, Near(_, _), kept) == LET Clear(i, j) == ~Near(i, j) IN
  Alone(n, Clear, kept) /\ Covered(n, Near, kept) /\ FirstKept(n, kept) /\ Isolated(n, Clear, kept)
(* the mirror image of r about the plane through the origin with unit normal m      *)
Mirror(r, m) == VSub(r, VScale(m, FMulI(Dot(r, m), 2)))
===============================================================================

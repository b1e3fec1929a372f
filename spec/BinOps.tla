--------------------------------- MODULE BinOps ---------------------------------
(* Cells of the double square: side x side cells per square, numbered row by    *)
(* row (bin = i*side + j), the second square continuing the first.              *)
EXTENDS SCOps
(* coordinate -> cells along one axis of a square (candidates: exactly one,      *)
(* except next to an edge when the side is no power of two, where binary64       *)
(* cannot represent the edge)                                                    *)
Exact(side) == side \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Cells(x, side, far) ==                      \* far: x is the far edge of the last square
  LET t == FMulI(x, side)
      k == FFloor(t)
      W(c) == c % side
      near(c) == FLe(FAbs(FSub(t, FInt(c))), FEps[9])
  IN IF far THEN {side - 1}
     ELSE {W(k)} \cup (IF Exact(side) THEN {} ELSE (IF near(k) THEN {W(k - 1)} ELSE {}) \cup (IF near(k + 1) THEN {W(k + 1)} ELSE {}))
II(u, side, aspect) ==
  LET cs == Cells(u, side, u = FInt(aspect))
  IN IF aspect = 2 /\ FGe(u, F1) THEN {c + side : c \in cs} ELSE cs
JJ(v, side) == Cells(v, side, v = F1)
BinOf(i, j, side) == i * side + j
BinsOf(u, v, side) == {BinOf(i, j, side) : i \in II(u, side, 2), j \in JJ(v, side)}
(* the cell's point at an offset (a real in [0,1))                               *)
PointOf(bin, side, off) == << FDivI(FAdd(FInt(bin \div side), off), side), FDivI(FAdd(FInt(bin % side), off), side) >>
Ground(side) == side * side
SkyDir(bin, side) == LET p == PointOf(bin, side, FRat(1, 2)) IN IF FGt(p[1], F1) THEN <<F0, F0, FNeg(F1)>> ELSE XYZ(p[1], p[2], 1)
(* sky bins within tol cells of a point of the first square (tol <= 1): the bins *)
(* of the point and of its eight companions that stay on the square; the second  *)
(* result are the bins that may belong or not (companions next to an edge)       *)
Companions(p, side, tol) ==
  LET t == FDivI(tol, side)
      U == { q \in {FSub(p[1], t), p[1], FAdd(p[1], t)} : FGe(q, F0) /\ FLt(q, F1) }
      V == { q \in {FSub(p[2], t), p[2], FAdd(p[2], t)} : FGe(q, F0) /\ FLt(q, F1) }
  IN U \X V
Near01(q) == FLe(FAbs(q), FEps[9]) \/ FLe(FAbs(FSub(q, F1)), FEps[9])
OnEdge(q, side) == LET f == FFrac(FMulI(q, side)) IN FLe(f, FEps[9]) \/ FGe(f, FSub(F1, FEps[9]))
Clear(p, side, tol) == LET t == FDivI(tol, side) IN
  \A q \in {FSub(p[1], t), p[1], FAdd(p[1], t), FSub(p[2], t), p[2], FAdd(p[2], t)} : ~OnEdge(q, side)
SkyNear(p, side, tol) == UNION {BinsOf(q[1], q[2], side) : q \in Companions(p, side, tol)}
===============================================================================

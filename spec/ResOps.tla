---------------------------------- MODULE ResOps ----------------------------------
(* Resampling of arrays: shape sh, values a in order, last axis fastest.            *)
EXTENDS Fx
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Size(Tail(sh))
Stride(sh, d) == Size(SubSeq(sh, d + 1, Len(sh)))
At(i, sh, d) == ((i - 1) \div Stride(sh, d)) % sh[d]           \* coordinate of place i
Move(i, sh, d, c) == i + ((c - At(i, sh, d)) * Stride(sh, d))    \* place i moved to coordinate c
(* past an end the array is mirrored, its last element twice                         *)
Refl(c, n) == LET m == c % (2 * n) IN IF m < n THEN m ELSE ((2 * n) - 1) - m
(* kernel w over places c - off, c - off + 1, ...                                    *)
Along(a, sh, d, w, off) == TLCEval([i \in 1..Len(a) |->
   FSum([k \in 1..Len(w) |-> FMul(w[k], a[Move(i, sh, d, Refl((At(i, sh, d) - off) + (k - 1), sh[d]))])])])
GaussW(s) ==
  LET lw == FFloor(FAdd(FMulI(s, 4), FRat(1, 2)))
      raw == TLCEval([k \in 1..((2 * lw) + 1) |-> FExp(FNeg(FDiv(FInt((k - lw - 1) * (k - lw - 1)), FMulI(FSq(s), 2))))])
      t == FSum(raw)
  IN TLCEval([k \in 1..Len(raw) |-> FDiv(raw[k], t)])
Gauss1(a, sh, d, s) == IF FLe(s, FEps[15]) THEN a ELSE LET w == GaussW(s) IN Along(a, sh, d, w, Len(w) \div 2)
RECURSIVE GaussD(_, _, _, _)
GaussD(a, sh, s, d) == IF d > Len(sh) THEN a ELSE GaussD(Gauss1(a, sh, d, s[d]), sh, s, d + 1)
Gauss(a, sh, s) == GaussD(a, sh, s, 1)
(* mean over r places, from r \div 2 before                                          *)
RECURSIVE BoxD(_, _, _, _)
BoxD(a, sh, r, d) == IF d > Len(sh) THEN a
  ELSE BoxD(IF r <= 1 THEN a ELSE Along(a, sh, d, [k \in 1..r |-> FRat(1, r)], r \div 2), sh, r, d + 1)
Box(a, sh, r) == BoxD(a, sh, r, 1)
(* coordinates of a place and the place of coordinates                               *)
Coords(i, sh) == [d \in 1..Len(sh) |-> At(i, sh, d)]
RECURSIVE Place(_, _, _)
Place(c, sh, d) == IF d > Len(sh) THEN 1 ELSE (c[d] * Stride(sh, d)) + Place(c, sh, d + 1)
Times(sh, k) == [d \in 1..Len(sh) |-> sh[d] * k[d]]
Over(sh, k) == [d \in 1..Len(sh) |-> sh[d] \div k[d]]
Repeat(a, sh, k) == LET t == Times(sh, k) IN
  [i \in 1..Size(t) |-> a[Place([d \in 1..Len(sh) |-> At(i, t, d) \div k[d]], sh, 1)]]
Blocks(a, sh, k) == LET t == Over(sh, k) n == Size(k) IN
  [i \in 1..Size(t) |-> FDivI(FSum([j \in 1..n |-> a[Place([d \in 1..Len(sh) |-> (At(i, t, d) * k[d]) + At(j, k, d)], sh, 1)]]), n)]
===============================================================================

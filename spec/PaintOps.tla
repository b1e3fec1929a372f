-------------------------------- MODULE PaintOps --------------------------------
(* Images as functions of pixels <<i, j>>, 0 <= i < W, 0 <= j < H, and painting   *)
(* directions on them.                                                            *)
EXTENDS ConeOps
Pixels(W, H) == (0..(W-1)) \X (0..(H-1))
(* setting pixels, then growing them: every pixel becomes the sum over the square *)
(* of 2g+1 pixels around it, the image being continued by its mirror image        *)
Set(img, P, c) == [p \in DOMAIN img |-> IF p \in P THEN c ELSE img[p]]
Mirror(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
Grow(img, W, H, g) ==
  IF g = 0 THEN img
  ELSE [p \in DOMAIN img |->
         FSum([k \in 1..((2*g+1) * (2*g+1)) |-> img[<<Mirror(p[1] - g + ((k-1) \div (2*g+1)), W), Mirror(p[2] - g + ((k-1) % (2*g+1)), H)>>]])]
Painted(img, W, H, P, c, g) == Grow(Set(img, P \cap DOMAIN img, c), W, H, g)
(* the pixel of an image position in [0,1]^2                                      *)
PixAt(pos, W, H) == << FFloor(FMulI(pos[1], W)), FFloor(FMulI(pos[2], H)) >>
(* next to a pixel edge rounding decides                                          *)
OnGrid(x, n) == LET t == FFrac(FMulI(x, n)) IN FLe(t, FEps[6]) \/ FGe(t, FSub(F1, FEps[6]))
Unclear(pos, W, H) == OnGrid(pos[1], W) \/ OnGrid(pos[2], H)
(* a fisheye image of side res, twice as wide for a full view                     *)
FishAt(d, va, full, w) == IF full THEN LET q == Pos360(d, w) IN <<FDivI(q[1], 2), q[2]>> ELSE PosOf(Frame(d), EdgeOf(va), w)
SquareAt(d, va, full, w) == LET q == UVOf(Frame(d), va, full, w) IN IF full THEN <<FDivI(q[1], 2), q[2]>> ELSE q
(* only directions in view belong on the square of a partial view                 *)
OnSquare(d, va, full, w) == full \/ InCone(Frame(d), EdgeOf(va), w, F0)
===============================================================================

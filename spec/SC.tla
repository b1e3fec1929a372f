----------------------------------- MODULE SC -----------------------------------
(* The map itself, over a grid of the double square shifted off the lattice by  *)
(* Shift/1000 of a cell (0: the lattice with its boundaries).                   *)
EXTENDS SCOps, FiniteSets, TLC, Json
CONSTANTS N, Shifts
VARIABLES i, j, h, pt
vars == <<i, j, h, pt>>
C(k, s) == FAdd(FRat(k, N), FRat(s, 1000 * N))
At(a, b, s) == [u |-> C(a, s), v |-> C(b, s), d |-> XYZ(C(a, s), C(b, s), 1), m |-> XYZ(C(a, s), C(b, s), -1)]
Init == i \in 0..(2*N) /\ j = 0 /\ h \in Shifts /\ (h = 0 \/ i < 2*N) /\ pt = At(i, 0, h)
Next == j < (IF h = 0 THEN N ELSE N - 1) /\ j' = j + 1 /\ pt' = At(i, j + 1, h) /\ UNCHANGED <<i, h>>
Spec == Init /\ [][Next]_vars
E12 == FEps[12]
E8 == FEps[8]
OnUnit == FLe(FAbs(FSub(Dot(pt.d, pt.d), F1)), E12)
Hemisphere == FLe(FMulI(pt.d[3], -NOf(pt.u)), E12)
Mirror == pt.m = <<FNeg(pt.d[1]), pt.d[2], pt.d[3]>>
Seam(p) == FLe(FAbs(p.d[3]), E12)
(* the inverse pairs                                                             *)
Back == Seam(pt) \/ PNear(UV(pt.m, TRUE), <<pt.u, pt.v>>, E8)
BackSky == FGt(pt.u, F1) \/ Seam(pt) \/ PNear(UV(pt.d, FALSE), <<pt.u, pt.v>>, E8)
BackMirrored == ~FGt(pt.u, F1) \/ Seam(pt) \/ PNear(UV(pt.d, FALSE), <<FSub(FInt(3), pt.u), pt.v>>, E8)
(* on the horizon one direction has two squares' edges: the direction agrees      *)
BackDir == LET w == UV(pt.m, TRUE) IN VNear(XYZ(w[1], w[2], -1), pt.m, E8)
(* disk = hemisphere without its lift                                            *)
DiskSame == LET q == DiskOf(pt.d) IN PNear(XY(pt.u, pt.v), q, E8)
(* equal area: the Jacobian is 2 pi everywhere off the creases                    *)
D == FEps[7]
Crease == h = 0
Area == Crease \/
  LET du == VScale(VSub(XYZ(FAdd(pt.u, D), pt.v, 1), XYZ(FSub(pt.u, D), pt.v, 1)), FInt(5000000))
      dv == VScale(VSub(XYZ(pt.u, FAdd(pt.v, D), 1), XYZ(pt.u, FSub(pt.v, D), 1)), FInt(5000000))
      cr == Cross(du, dv)
  IN FNear(Length3(cr), FMulI(FPi, 2), FEps[4], FEps[4])
(* orientation of the mirrored pair is right-handed seen from inside on both squares *)
(* continuity: neighbours of the lattice are near on the sphere, also over u = 1   *)
Continuous == [][FLe(Length3(VSub(pt'.d, pt.d)), FRat(6, N))]_vars
Emit == PrintT("CASE " \o ToJson(<<i, j, h>>))
Cross1 == LET a == XYZ(F1, pt.v, -1) b == XYZ(FAdd(F1, FEps[12]), pt.v, -1) IN
          pt.u # F1 \/ FLe(Length3(VSub(a, b)), FEps[5])
===============================================================================

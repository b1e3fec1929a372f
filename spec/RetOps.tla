---------------------------------- MODULE RetOps ----------------------------------
(* Density of ganglion cells (and of their receptive fields) over the visual       *)
(* field, in degrees from the fovea.  Meridians: 1 temporal, 2 superior, 3 nasal,  *)
(* 4 inferior.                                                                     *)
EXTENDS PeakOps, Curcio
D0 == FDec(331624, 1)
(* Watson (2014): share of the slow term and radii of both                         *)
Coef == << <<F9(0, 985125524, 350930700), F9(1,  57910790, 284875000), F9(22, 139309670, 912258000)>>,
           <<F9(0, 993493560, 465668800), F9(1,  35496232, 962891200), F9(16, 346430181, 31927000)>>,
           <<F9(0, 972931996, 193414200), F9(1,  84166361, 648352300), F9(7, 632575316, 432455000)>>,
           <<F9(0, 996039145, 274757800), F9(0, 993222146, 189384000), F9(12, 131840717, 293096000)>> >>
(* proper: D0 counts for both terms                                                *)
Field(r, m, proper) ==
  LET c == Coef[m] slow == FMul(c[1], FDiv(F1, FSq(FAdd(F1, FDiv(r, c[2])))))
      fast == FMul(FSub(F1, c[1]), FExp(FNeg(FDiv(r, c[3]))))
  IN IF proper THEN FMul(D0, FAdd(slow, fast)) ELSE FAdd(FMul(D0, slow), fast)
(* interpolated measurements, constant beyond the first and last, at least one     *)
Lerp(p, q, x) == FAdd(p[2], FMul(FSub(q[2], p[2]), FDiv(FSub(x, p[1]), FSub(q[1], p[1]))))
RECURSIVE Interp(_, _, _)
Interp(t, i, x) == IF FLe(x, t[1][1]) THEN t[1][2]
                   ELSE IF i = Len(t) THEN t[i][2]
                   ELSE IF FLe(x, t[i + 1][1]) THEN Lerp(t[i], t[i + 1], x) ELSE Interp(t, i + 1, x)
Cells(r, m) == FMax(F1, Interp(Curcio[m], 1, r))
(* any model of the densities along the meridians can be blended: 4 1 3 2 over 1 + r *)
Own(r, m) == FDiv(FInt(<<4, 1, 3, 2>>[m]), FAdd(F1, r))
Meridian(fn, r, m, proper) == CASE fn = "field" -> Field(r, m, proper) [] fn = "cells" -> Cells(r, m) [] OTHER -> Own(r, m)
Pos(a) == a[1] > 0
(* the meridians a point lies between; superior is up                              *)
Horizontal(x) == IF Pos(x) THEN 1 ELSE 3
Vertical(y) == IF Pos(y) THEN 2 ELSE 4
Blend(x, y, dx, dy) == LET x2 == FSq(x) y2 == FSq(y) IN FDiv(FAdd(x2, y2), FAdd(FDiv(x2, dx), FDiv(y2, dy)))
(* side: what picks the vertical meridian (y; as shipped: x)                       *)
Mono(fn, x, y, side, proper) ==
  LET r == Hyp(x, y) dx == Meridian(fn, r, Horizontal(x), proper) dy == Meridian(fn, r, Vertical(side), proper)
  IN IF r = F0 THEN dy ELSE Blend(x, y, dx, dy)
Bino(fn, x, y, updown, proper) ==
  LET f(a) == Mono(fn, a, y, IF updown THEN y ELSE a, proper) IN FDivI(FAdd(f(x), f(FNeg(x))), 2)
===============================================================================

------------------------------------ MODULE Ret ------------------------------------
(* A gaze walks over the visual field: out along a direction, around a circle, to  *)
(* the other side.  Densities are kept in variables, evaluated where it stands.    *)
EXTENDS RetOps, TLC, Json
CONSTANTS Radii, Dirs, Fns
VARIABLES fn, r, dir, d
vars == <<fn, r, dir, d>>
(* directions: eighths of the circle and steep ones, as small whole vectors        *)
Vec == << <<1, 0>>, <<3, 1>>, <<1, 1>>, <<1, 3>>, <<0, 1>>, <<-1, 3>>, <<-1, 1>>, <<-3, 1>>,
          <<-1, 0>>, <<-3, -1>>, <<-1, -1>>, <<-1, -3>>, <<0, -1>>, <<1, -3>>, <<1, -1>>, <<3, -1>> >>
At(rr, dd) == LET v == Vec[dd] n == FSqrt(FInt(v[1] * v[1] + v[2] * v[2])) s == FDiv(FDivI(FInt(rr), 10), n)
              IN <<FMulI(s, v[1]), FMulI(s, v[2])>>
Val(f, rr, dd) == LET p == At(rr, dd) IN TLCEval([b |-> Bino(f, p[1], p[2], TRUE, TRUE), m |-> Mono(f, p[1], p[2], p[2], TRUE),
      ends |-> LET e == Hyp(p[1], p[2]) IN <<Meridian(f, e, Horizontal(p[1]), TRUE), Meridian(f, e, Vertical(p[2]), TRUE)>>])
Init == /\ fn \in Fns /\ r = 0 /\ dir = 1 /\ d = Val(fn, 0, 1)
Go(rr, dd) == r' = rr /\ dir' = dd /\ d' = Val(fn, rr, dd) /\ UNCHANGED fn
NextR == {q \in Radii : q > r /\ \A p \in Radii : p > r => p >= q}
Out == \E q \in NextR : Go(q, dir)
Around == r > 0 /\ \E q \in Dirs : q = (dir % 16) + 1 /\ Go(r, q)
Next == Out \/ Around
Spec == Init /\ [][Next]_vars
Near(a, b) == FNear(a, b, FEps[12], F0)
Positive == Pos(d.b) /\ Pos(d.m)
(* between the densities of the two meridians; on an axis that of its meridian     *)
Bounded == LET lo == FMin(d.ends[1], d.ends[2]) hi == FMax(d.ends[1], d.ends[2]) t == FMul(hi, FEps[12]) IN
  /\ FGe(d.m, FSub(lo, t)) /\ FLe(d.m, FAdd(hi, t))
  /\ (r > 0 /\ Vec[dir][2] = 0) => Near(d.m, d.ends[1])
  /\ (r > 0 /\ Vec[dir][1] = 0) => Near(d.m, d.ends[2])
(* both eyes see the same to the left and to the right                             *)
Mirror == LET p == At(r, dir) IN Near(Bino(fn, FNeg(p[1]), p[2], TRUE, TRUE), d.b)
(* receptive fields: densest at the fovea, where all meridians agree               *)
Fovea == fn = "field" => FLe(d.b, FAdd(D0, FEps[9])) /\ (r = 0 => \A m \in 1..4 : Near(Field(F0, m, TRUE), D0))
(* as shipped, less everywhere                                                     *)
Shipped == fn = "field" => LET e == Hyp(At(r, dir)[1], At(r, dir)[2]) IN
  \A m \in 1..4 : FLt(Field(e, m, FALSE), Field(e, m, TRUE))
Emit == PrintT("CASE " \o ToJson([fn |-> fn, r |-> r, v |-> Vec[dir]]))
Falls == [][(fn = "field" /\ dir' = dir) => FLt(d'.b, d.b) /\ FLt(d'.m, d.m)]_vars
===============================================================================

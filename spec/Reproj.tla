--------------------------------- MODULE Reproj ---------------------------------
(* Small images turned and re-aimed step by step.                                 *)
EXTENDS ReprojOps, Json
CONSTANTS N, Turns
VARIABLES img, ang, step
vars == <<img, ang, step>>
Img0 == [i \in 1..N |-> [j \in 1..N |-> FInt(i * 10 + j)]]
Go(im, f(_)) == [i \in 1..N |-> [j \in 1..N |-> LET p == PosY(f(RayY(Ctr(i-1, j-1, N)))) IN
                   Linear(im, N, N, InPix(p, N))]]
Init == img = Img0 /\ ang \in Turns /\ step = 0
Next == step < 2 /\ step' = step + 1 /\ ang' = ang /\ img' = Go(img, LAMBDA w : Turn(IF step = 0 THEN FInt(ang) ELSE FInt(-ang), w))
Spec == Init /\ [][Next]_vars
Same(a, b, tol) == \A i, j \in 1..N : FNear(a[i][j], b[i][j], F0, tol)
E == FEps[9]
(* quarter turns permute pixels, half turns mirror both axes, none changes nothing *)
Quarter == (step = 1 /\ ang % 90 = 0) =>
  Same(img, [i \in 1..N |-> [j \in 1..N |-> CASE ang % 360 = 0 -> Img0[i][j] [] ang % 360 = 180 -> Img0[N+1-i][N+1-j]
      [] ang % 360 = 90 -> Img0[j][N+1-i] [] ang % 360 = 270 -> Img0[N+1-j][i]]], E)
Back == (step = 2 /\ ang % 90 = 0) => Same(img, Img0, E)
(* a turn moves a pixel by its angle at constant distance from the centre          *)
Radius == step = 0 => \A i, j \in 1..N : LET p == Ctr(i-1, j-1, N) IN
  FNear(Rho(PosY(Turn(FInt(ang), RayY(p)))), Rho(p), E, E)
(* what lay at s shows at t, and aiming back undoes it                             *)
Aims == step = 0 => \A k \in 1..N : LET s == RayY(Ctr(k-1, (k * 3) % N, N)) t == RayY(Ctr((k * 5) % N, k-1, N)) IN
  /\ VNear(Aim(s, t, t), s, E) /\ VNear(Aim(t, s, Aim(s, t, RayY(Ctr(0, k-1, N)))), RayY(Ctr(0, k-1, N)), E)
(* equisolid: inverse of each other, rim and centre fixed; equal areas             *)
Solids == step = 0 => \A k \in 0..N : LET R == FRat(k, 2*N) IN
  /\ FNear(SolidOfAng(AngOfSolid(R)), R, E, E)
  /\ FNear(FMul(TwoPi, FSub(F1, FCos(FMul(AngOfSolid(R), FPi)))), FMul(FMulI(FPi, 8), FSq(R)), E, E)
  /\ (k = N => FNear(AngOfSolid(R), R, E, E))
  /\ \A va \in {60, 180} : LET p == <<FAdd(Half2[1], R), Half2[2]>> IN
       PNear(SolidSrc(SolidSrc(p, FInt(va), TRUE), FInt(va), FALSE), p, E)
Plane == step = 0 => \A k \in 0..(4*N) : LET x == FRat(k, 4) y == FRat(4*N - k, 5) IN
   FNear(Linear(Img0, N, N, <<x, y>>), FAdd(FMulI(FAdd(x, FRat(1, 2)), 10), FAdd(y, FRat(1, 2))), E, E)
Emit == step = 0 => PrintT("CASE " \o ToJson([ang |-> ang]))
===============================================================================

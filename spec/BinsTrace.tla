------------------------------- MODULE BinsTrace -------------------------------
EXTENDS Conf, BinOps
S0 == 0
S(s, e) == 0
All(n, P(_)) == \A k \in 1..n : P(k)
E9 == FEps[9]
Loose(x, side) == LET t == FMulI(x, side) k == FFloor(t)
                      near(c) == FLe(FAbs(FSub(t, FInt(c))), FEps[7])
                  IN {c \in {k - 1, k, k + 1} : (c = k \/ (c = k - 1 /\ near(k)) \/ (c = k + 1 /\ near(k + 1)))}
LooseBins(w, side) == {BinOf(i, j % side, side) : i \in Loose(w[1], side), j \in Loose(w[2], side)}
JB2u(e) == FirstBad(<<
  <<"bins have points", e.exc = "">>,
  <<"a bin's point is its cell's point at the offset", Len(e.uv) = Len(e.bins) /\
     All(Len(e.bins), LAMBDA k : PNear(e.uv[k], PointOf(e.bins[k], e.side, e.off), FEps[12]))>>,
  <<"a point inside a bin's cell gives the bin", (~e.inside) \/ e.back = e.bins>> >>)
JIj(e) == FirstBad(<<
  <<"points have cells", e.exc = "">>,
  <<"the cell is the one that contains the point", Len(e.ij) = Len(e.uv) /\
     All(Len(e.uv), LAMBDA k : e.ij[k][1] \in II(e.uv[k][1], e.side, e.aspect) /\ e.ij[k][2] \in JJ(e.uv[k][2], e.side))>>,
  <<"the bin is that of the cell", e.aspect # 2 \/ e.bin = [k \in 1..Len(e.uv) |-> BinOf(e.ij[k][1], e.ij[k][2], e.side)]>> >>)
JSky(e) == FirstBad(<<
  <<"sky bins have directions", e.exc = "">>,
  <<"a sky bin's direction is the centre of its patch, the ground is down", Len(e.xyz) = Len(e.bins) /\
     All(Len(e.bins), LAMBDA k : VNear(e.xyz[k], SkyDir(e.bins[k], e.side), E9))>>,
  <<"a sky bin's direction gives the bin", e.back = [k \in 1..Len(e.bins) |-> IF e.bins[k] < Ground(e.side) THEN e.bins[k] ELSE e.back[k]]
     /\ All(Len(e.bins), LAMBDA k : e.bins[k] < Ground(e.side) \/ e.back[k] >= Ground(e.side))>> >>)
(* at the horizon: the outermost patch there, or the ground                          *)
AtHorizon(d, b, side) == FLe(FAbs(d[3]), E9) /\ (b >= Ground(side) \/ b \in LooseBins(UV(<<d[1], d[2], FAbs(d[3])>>, FALSE), side))
JDir(e) == FirstBad(<<
  <<"directions have sky bins", e.exc = "">>,
  <<"a direction's bin is the patch it points to", Len(e.bin) = Len(e.xyz) /\
     All(Len(e.xyz), LAMBDA k : LET d == IF e.norm THEN Unit(e.xyz[k]) ELSE e.xyz[k] IN
        AtHorizon(d, e.bin[k], e.side) \/ e.bin[k] \in LooseBins(UV(d, FALSE), e.side))>>,
  <<"directions below the horizon are ground", All(Len(e.xyz), LAMBDA k : FGe(e.xyz[k][3], FNeg(E9)) \/ e.bin[k] >= Ground(e.side))>>,
  <<"directions above the horizon are sky", All(Len(e.xyz), LAMBDA k : FLe(e.xyz[k][3], E9) \/ (e.bin[k] >= 0 /\ e.bin[k] < Ground(e.side)))>> >>)
JTol(e) == LET w == UV(e.xyz, FALSE) IN FirstBad(<<
  <<"directions have sky bins", e.exc = "">>,
  <<"bins within a tolerance are distinct and ascending", All(Len(e.bin) - 1, LAMBDA k : e.bin[k] < e.bin[k + 1])>>,
  <<"bins within a tolerance are those around the direction", ~Clear(w, e.side, e.tol) \/ {e.bin[k] : k \in 1..Len(e.bin)} = SkyNear(w, e.side, e.tol)>> >>)
JCalBin(e) == FirstBad(<<
  <<"the cal string runs", e.exc = "" /\ Len(e.bin) = Len(e.xyz)>>,
  <<"the cal string gives the patch a direction points to", All(Len(e.xyz), LAMBDA k :
        \/ AtHorizon(e.xyz[k], e.bin[k], e.side)
        \/ IF FLt(e.xyz[k][3], F0) THEN e.bin[k] = Ground(e.side) ELSE e.bin[k] \in LooseBins(UV(e.xyz[k], FALSE), e.side))>> >>)
JCalXyz(e) == FirstBad(<<
  <<"the cal string runs", e.exc = "" /\ Len(e.xyz) = Len(e.bins)>>,
  <<"the cal string gives the centre of a patch", All(Len(e.bins), LAMBDA k : VNear(e.xyz[k], SkyDir(e.bins[k], e.side), FEps[7]))>> >>)
(* flat indices of an array of samples <-> points, within jitter/2 of cell centres   *)
JIdx(e) == FirstBad(<<
  <<"indices have points", e.exc = "" /\ Len(e.uv) = Len(e.idx)>>,
  <<"an index is the cell of its point, up to the jitter", All(Len(e.idx), LAMBDA k :
     LET i == e.idx[k] \div e.sh[2] j == e.idx[k] % e.sh[2] h == FAdd(FDivI(e.jit, 2), FEps[9]) IN
     /\ FLe(FAbs(FSub(FMulI(e.uv[k][1], e.den[1]), FAdd(FInt(i), FRat(1, 2)))), h)
     /\ FLe(FAbs(FSub(FMulI(e.uv[k][2], e.den[2]), FAdd(FInt(j), FRat(1, 2)))), h))>>,
  <<"points are jittered one by one", e.jit = F0 \/ Len(e.idx) < 4 \/ ~All(Len(e.idx), LAMBDA k :
       FEq(FFrac(FMulI(e.uv[k][1], e.den[1])), FFrac(FMulI(e.uv[1][1], e.den[1]))))>>,
  <<"the point gives the index back", e.back = e.idx>> >>)
J(s, e) == CASE e.k = "idx" -> JIdx(e) [] e.k = "b2u" -> JB2u(e) [] e.k = "ij" -> JIj(e) [] e.k = "sky" -> JSky(e) [] e.k = "dir" -> JDir(e)
             [] e.k = "tol" -> JTol(e) [] e.k = "calbin" -> JCalBin(e) [] e.k = "calxyz" -> JCalXyz(e)
===============================================================================

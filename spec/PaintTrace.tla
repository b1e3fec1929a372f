------------------------------- MODULE PaintTrace -------------------------------
(* One image: initialised, then painted on.  The state is the image.              *)
EXTENDS Conf, PaintOps
S0 == <<>>
S(s, e) == IF e.exc # "" THEN s ELSE e.img
All(n, P(_)) == \A k \in 1..n : P(k)
E7 == FEps[7]
D(e) == Unit(e.d)
Ctr(t, n) == << FDivI(FAdd(FInt(t[1]), Half2[1]), n), FDivI(FAdd(FInt(t[2]), Half2[1]), n) >>
(* equisolid, of a hemisphere: equal areas of the image are equal solid angles    *)
Rho(p) == Hyp(FSub(p[1], Half2[1]), FSub(p[2], Half2[2]))
SolidAngleOf(p) == FMulI(FAsin(FMul(FMulI(Rho(p), 2), FSqrt(FRat(1, 2)))), 2)
InverseOf(p) == FMul(FMul(FPi, FSqrt(FRat(1, 2))), FSin(FMul(Rho(p), FDivI(FPi, 2))))
Along(fr, p, t) == IF Rho(p) = F0 THEN fr[3]
  ELSE OutFrame(fr, << FMul(FSin(t), FDiv(FSub(p[1], Half2[1]), Rho(p))), FMul(FSin(t), FDiv(FSub(p[2], Half2[2]), Rho(p))), FCos(t) >>)
Near1(e, t) == t[1] < e.res
DirOf(e, t) ==                     \* direction of a pixel
  CASE e.proj = "vta" -> IF Near1(e, t) THEN RayOf(Frame(D(e)), EdgeOf(e.va), Ctr(t, e.res))
                         ELSE RayOf(Frame(VNeg(D(e))), EdgeOf(e.va), Ctr(<<t[1] - e.res, t[2]>>, e.res))
    [] e.proj = "vuv" -> UVRay(Frame(D(e)), e.va, e.full, Ctr(t, e.res))
    [] e.proj = "vte" -> Along(Frame(D(e)), Ctr(t, e.res), SolidAngleOf(Ctr(t, e.res)))
(* pixel centres are in view by their recorded direction; the second image shows  *)
(* the opposite half                                                              *)
Axis(e, t) == Frame(IF Near1(e, t) THEN D(e) ELSE VNeg(D(e)))
MaskedOk(e) ==
  /\ Len(e.mask) = Len(e.all)
  /\ All(Len(e.all), LAMBDA k : LET fr == Axis(e, e.all[k][1]) IN
        AtRim(fr, EdgeOf(e.va), e.all[k][2], F0) \/ (e.mask[k] <=> InCone(fr, EdgeOf(e.va), e.all[k][2], F0)))
On(e) == SelectSeq([k \in 1..Len(e.all) |-> e.all[k][1]], LAMBDA t : e.mask[t[1] * e.res + t[2] + 1])
JInit(e) == LET W == IF e.full THEN 2 * e.res ELSE e.res IN FirstBad(<<
  <<"images can be initialised", e.exc = "">>,
  <<"the image has the size asked for and is black", e.ish = (IF e.feat > 1 THEN <<e.feat>> ELSE <<>>) \o <<W, e.res>> /\ e.zero>>,
  <<"there is a direction for every pixel", e.vsh = <<W, e.res, 3>>>>,
  <<"equisolid pixels look along the projection or its inverse", e.proj # "vte" \/ All(Len(e.px), LAMBDA k :
      VNear(e.w[k], DirOf(e, e.px[k]), E7) \/ VNear(e.w[k], Along(Frame(D(e)), Ctr(e.px[k], e.res), InverseOf(Ctr(e.px[k], e.res))), E7))>>,
  <<"the mask selects the pixels in view", e.mform = "none" \/ MaskedOk(e)>>,
  <<"indices address the same pixels as the mask", e.mform # "index" \/ e.idx = On(e)>>,
  <<"channel indices address all channels of the pixels in view", ~(e.mform = "index" /\ e.feat > 1) \/
      e.idx3 = [k \in 1..(e.feat * Len(e.idx)) |-> <<(k-1) % e.feat, e.idx[((k-1) \div e.feat) + 1][1], e.idx[((k-1) \div e.feat) + 1][2]>>]>>,
  <<"otherwise the second mask is the first", (e.mform = "index" /\ e.feat > 1) \/ e.same>>,
  <<"square images need no mask", (e.proj = "vuv") <=> (e.mform = "none")>>,
  <<"the header describes the view", e.hdr = "" \/ (e.hdr = e.proj /\ VNear(e.vd, D(e), FEps[9]) /\ e.vvh = <<e.va, e.va>> /\ e.vp = e.pt
       /\ FGt(Length3(Cross(e.vu, D(e))), FEps[9]))>>,
  <<"the direction of a pixel is that of its centre", All(Len(e.px), LAMBDA k : VNear(e.w[k], DirOf(e, e.px[k]), E7))>> >>)
(* painting *)
PosIn(e, w) == CASE e.how = "fish" -> FishAt(D(e), e.va, e.full, w)
                 [] e.how = "square" -> SquareAt(D(e), e.va, e.full, w)
                 [] e.how = "plane" -> << FDiv(FSub(w[1], e.b[1][1]), FSub(e.b[2][1], e.b[1][1])), FDiv(FSub(w[2], e.b[1][2]), FSub(e.b[2][2], e.b[1][2])) >>
Takes(e, w) == e.how # "square" \/ OnSquare(D(e), e.va, e.full, w)
Open(e, w, W, H) == \/ Unclear(PosIn(e, w), W, H)
                    \/ (e.how = "square" /\ FLe(FAbs(Dot(D(e), w)), FEps[7]))
                    \/ (e.how = "fish" /\ e.full /\ FLe(FAbs(Dot(D(e), w)), FEps[7]))
                    \/ (e.how = "fish" /\ FGe(FAbs(Dot(D(e), w)), FSub(F1, FEps[12])))
                    \/ (e.how = "square" /\ ~e.full /\ AtRim(Frame(D(e)), EdgeOf(e.va), w, F0))
JPaint(s, e) ==
  LET W == Len(s[1]) H == Len(s[1][1])
      ww == SelectSeq(e.w, LAMBDA w : Takes(e, w))
      unclear == \E k \in 1..Len(e.w) : Open(e, e.w[k], W, H)
      Q == {PixAt(PosIn(e, ww[k]), W, H) : k \in 1..Len(ww)}
      P == IF e.masked THEN Q \cap {e.mask[k] : k \in 1..Len(e.mask)} ELSE Q
      Was(c) == [p \in Pixels(W, H) |-> s[c][p[1] + 1][p[2] + 1]]
      \* a planar mapper leaves an image alone on which nothing falls
      none == e.how = "plane" /\ P \cap Pixels(W, H) = {}
      Want(c) == IF none THEN Was(c)
                 ELSE IF e.ch[c] = <<>> THEN Grow(Was(c), W, H, e.grow) ELSE Painted(Was(c), W, H, P, e.ch[c][1], e.grow)
  IN FirstBad(<<
  <<"directions can be painted", e.exc = "">>,
  <<"painting keeps the image's size", Len(e.img) = Len(s) /\ Len(e.img[1]) = W /\ Len(e.img[1][1]) = H>>,
  <<"exactly the pixels of the directions are painted", unclear \/ All(Len(s), LAMBDA c : LET t == Want(c) IN
       \A p \in Pixels(W, H) : FNear(e.img[c][p[1] + 1][p[2] + 1], t[p], e.rt, FEps[9]))>> >>)
J(s, e) == CASE e.k = "init" -> JInit(e) [] e.k = "new" -> "ok" [] e.k = "paint" -> JPaint(s, e)
===============================================================================

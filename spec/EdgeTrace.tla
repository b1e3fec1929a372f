------------------------------- MODULE EdgeTrace -------------------------------
EXTENDS Conf, EdgeOps
S0 == 0
S(s, e) == 0
E7 == FEps[7]
JEdge(e) ==
  LET fr == Frame(Unit(e.d)) edge == IF e.full THEN FMulI(FPi, 2) ELSE EdgeOf(e.va) a == HalfOf(e.va)
      n == Len(e.w)
      avg == FDivI(FSum(e.l), n)
      R(k) == LET u == Unit(e.w[k]) c == InFrame(fr, u) t == FAtan2(Hyp(c[1], c[2]), c[3]) b == DiskRadius(e.o[k])
                  in == FLt(t, edge)
                  stray == /\ ~in /\ avg # F0 /\ FGt(e.l[k], FMulI(avg, 10))
                           /\ FLe(FAbs(FSub(FDeg(t), FDeg(a))), F1) /\ Crosses(a, b, t)
                  x == ChordAt(a, b, t)
              IN IF in THEN <<[id |-> k, t |-> t, o |-> e.o[k], u |-> u, st |-> FALSE]>>
                 ELSE IF stray THEN <<[id |-> k, t |-> x, o |-> Lens(a, b, t), u |-> OutFrame(fr, OnRadius(c, x)), st |-> TRUE]>>
                 ELSE <<>>
      kept == FlattenSeq([k \in 1..n |-> R(k)])
      m == Len(kept)
      fixing == e.corr /\ m > 100
      area == ConeArea(e.va, e.full)
      o2 == IF fixing /\ ~e.full THEN Corrected(kept, a, area, F1) ELSE [k \in 1..m |-> kept[k].o]
  IN FirstBad(<<
  <<"metric sets can be made", e.exc = "">>,
  <<"the rays in view and the bright ones crossing the edge are kept", Len(e.v) = m /\ Len(e.o2) = m /\ Len(e.l2) = m
        /\ \A k \in 1..m : FNear(e.l2[k], e.l[kept[k].id], FEps[9], F0)>>,
  <<"rays in view keep their direction", \A k \in 1..m : kept[k].st \/ VNear(e.v[k], kept[k].u, FEps[9])>>,
  <<"clipped rays move onto the overlap", \A k \in 1..m : ~kept[k].st \/ VNear(e.v[k], kept[k].u, E7)>>,
  <<"clipped rays have the solid angle of the overlap", fixing \/ \A k \in 1..m : ~kept[k].st \/ FNear(e.o2[k], kept[k].o, FEps[5], FMul(e.o[kept[k].id], FEps[5]))>>,
  <<"rays in view keep their solid angle", fixing \/ \A k \in 1..m : kept[k].st \/ FNear(e.o2[k], kept[k].o, FEps[9], F0)>>,
  <<"corrected rays away from the edge keep their solid angle, the others share a factor",
     ~fixing \/ e.full \/ \A k \in 1..m : FNear(e.o2[k], o2[k], E7, FMul(kept[k].o, FEps[5]))>>,
  <<"the view area is that of the view or of its rays", FNear(e.area, IF fixing THEN area ELSE FSum(o2), E7, F0)>>,
  <<"corrected rays fill the view", ~(fixing /\ e.full) \/ FNear(FSum(e.o2), area, FEps[9], F0)>>,
  <<"channels are those of the kept rays", e.rgb = <<>> \/ (Len(e.rgb) = m /\ \A k \in 1..m : SeqNear(e.rgb[k], e.ch[kept[k].id], FEps[9], F0))>>,
  <<"the caller's arrays do not change", e.same>> >>)
J(s, e) == JEdge(e)
===============================================================================

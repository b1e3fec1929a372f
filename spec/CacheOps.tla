--------------------------------- MODULE CacheOps ---------------------------------
(* Metrics are computed when asked and kept: one kept value per metric, shared by  *)
(* all metric sets and tagged with its owner.  A value is <<metric, data>>.        *)
EXTENDS Integers, Sequences, FiniteSets
NoVal == <<"none", 0>>
Empty(M) == [m \in M |-> <<0, NoVal>>]
(* read metric m of owner id with data dt: <<value, cache>>; deps are read first   *)
(* names of metrics and those that may be summed over sources, per kind of set     *)
BaseNames == {"illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density", "avgraylum", "pwavglum", "maxlum"}
MetNames == BaseNames \union {"ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold",
                              "pwsl2", "view_area", "backlum_true", "srcillum", "srcarea"}
NamesOf == [base |-> BaseNames, met |-> MetNames, col |-> MetNames \union {"irradiance"}]
BaseSums == {"illum", "avglum", "density"}
MetSums == BaseSums \union {"pwsl2", "srcillum"}
SumsOf == [base |-> BaseSums, met |-> MetSums, col |-> MetSums \union {"irradiance"}]
Known(k, ms) == SelectSeq(ms, LAMBDA m : m \in NamesOf[k])
SafeToSum(k, ms) == \A i \in 1..Len(ms) : ms[i] \in SumsOf[k]
RECURSIVE ReadAll(_, _, _, _, _), ReadM(_, _, _, _, _)
ReadM(D, c, id, dt, m) ==
  IF c[m][1] = id THEN <<c[m][2], c>>
  ELSE LET r == ReadAll(D, c, id, dt, D[m])
           v == IF \A i \in 1..Len(r[1]) : r[1][i] = <<D[m][i], dt>> THEN <<m, dt>> ELSE <<m, 0>>
       IN <<v, [r[2] EXCEPT ![m] = <<id, v>>]>>
ReadAll(D, c, id, dt, ms) ==
  IF ms = <<>> THEN << <<>>, c >>
  ELSE LET a == ReadM(D, c, id, dt, Head(ms))
           b == ReadAll(D, a[2], id, dt, Tail(ms))
       IN << <<a[1]>> \o b[1], b[2] >>
===============================================================================

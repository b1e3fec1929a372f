-------------------------------- MODULE CleanOps --------------------------------
(* What cleaning a picture header does.  A header is a sequence of lines        *)
(* [d, t, k, s, v]: depth of indentation d, kind t                              *)
(*   "file"  heading of a section for file k                                    *)
(*   "item"  key k, separator s ("=", " ", or "" for a single word), value v    *)
(*   "view"  a view, value v                                                    *)
(*   "noise" a pvalue command or FORMAT line                                    *)
(* The result is a sequence of text lines.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Item(k, s, v) == [k |-> k, s |-> s, v |-> v]
Txt(it) == it.k \o it.s \o it.v
Leaf(it) == [f |-> 0, it |-> it]
Node(n) == [f |-> n, it |-> Item("", "", "")]
(* the tree: section 1 is the header itself                                     *)
Start == [name |-> <<"">>, dep |-> <<-1>>, body |-> << <<>> >>, cs |-> <<>>, vals |-> <<>>,
          lastkey |-> "", lastitem |-> Item("", "", ""), view |-> <<>>]
Cur(m) == IF m.cs = <<>> THEN 1 ELSE m.cs[Len(m.cs)]
Max0(n) == IF n < 0 THEN 0 ELSE n
Drop(cs, n) == SubSeq(cs, 1, Max0(Len(cs) - n))
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* a heading: a section inside the current one if deeper, else after it         *)
Heading(m, l) ==
  LET n == Len(m.name) + 1
      cs == IF m.cs # <<>> /\ l.d <= m.dep[Cur(m)] THEN Drop(m.cs, m.dep[Cur(m)] - l.d + 1) ELSE m.cs
      p == IF cs = <<>> THEN 1 ELSE cs[Len(cs)]
  IN [m EXCEPT !.name = Append(@, l.k), !.dep = Append(@, l.d),
               !.body = [Append(@, <<>>) EXCEPT ![p] = Append(@, Node(n))],
               !.cs = Append(cs, n)]
(* where an item is in the tree: <<container, index>>, containers searched in   *)
(* the order in which they appear                                               *)
RECURSIVE Find(_, _, _, _)
Find(m, sec, i, it) ==
  IF i > Len(m.body[sec]) THEN <<>>
  ELSE LET b == m.body[sec][i]
       IN IF b.f = 0 THEN (IF b.it = it THEN <<sec, i>> ELSE Find(m, sec, i + 1, it))
          ELSE LET r == Find(m, b.f, 1, it) IN IF r # <<>> THEN r ELSE Find(m, sec, i + 1, it)
Parent(m, sec) == CHOOSE p \in 1..Len(m.body) : \E i \in 1..Len(m.body[p]) : m.body[p][i].f = sec
PosOf(m, p, sec) == CHOOSE i \in 1..Len(m.body[p]) : m.body[p][i].f = sec
Pixel == {"EXPOSURE", "COLORCORR"}          \* items that say what pixels mean
(* a line that was there before is moved out of its section, to just before it  *)
Promote(m, it) ==
  LET at == Find(m, 1, 1, it)
  IN IF it.k \in Pixel \/ at = <<>> \/ at[1] = 1 THEN m
     ELSE LET p == Parent(m, at[1])
              i == PosOf(m, p, at[1])
          IN [m EXCEPT !.body = [@ EXCEPT ![at[1]] = DelAt(@, at[2]), ![p] = InsAt(@, i, Leaf(it))]]
AppendItem(m, l, it) ==
  LET cs == IF m.cs # <<>> /\ l.d <= m.dep[Cur(m)] THEN Drop(m.cs, m.dep[Cur(m)] - l.d + 1) ELSE m.cs
      p == IF cs = <<>> THEN 1 ELSE cs[Len(cs)]
  IN [m EXCEPT !.cs = cs, !.body[p] = Append(@, Leaf(it)), !.vals = Append(@, it)]
More(it, v) == IF it.s = "" THEN [it EXCEPT !.s = " ", !.v = v] ELSE [it EXCEPT !.v = @ \o " " \o v]
Flush(l) == IF "vl" \in DOMAIN l THEN l.vl ELSE l.v        \* without leading space
(* the next line of an item that was wrapped                                    *)
Unwrap(m, l) ==
  LET c == Cur(m) n == Len(m.body[c]) q == Len(m.vals)
  IN [m EXCEPT !.body[c][n].it = More(@, Flush(l)), !.vals[q] = More(@, Flush(l))]
ItemLine(m, l) ==
  LET it == Item(l.k, l.s, l.v)
      c  == m.body[Cur(m)]
      wrapped == (l.k = "..." \/ (l.k = m.lastkey /\ it # m.lastitem)) /\ c # <<>> /\ c[Len(c)].f = 0
      again == \E i \in 1..Len(m.vals) : m.vals[i] = it
      m1 == IF wrapped THEN Unwrap(m, l) ELSE IF again THEN Promote(m, it) ELSE AppendItem(m, l, it)
  IN [m1 EXCEPT !.lastkey = IF again /\ ~wrapped THEN "" ELSE l.k, !.lastitem = it]
Line(m, l) == CASE l.t = "file" -> Heading(m, l) [] l.t = "noise" -> m
                [] l.t = "view" -> [m EXCEPT !.view = <<l.v>>] [] l.t = "item" -> ItemLine(m, l)
RECURSIVE Build(_, _, _)
Build(m, ls, i) == IF i > Len(ls) THEN m ELSE Build(Line(m, ls[i]), ls, i + 1)

(* sections that only hold sections have no heading of their own; empty ones    *)
(* are left out                                                                 *)
OutLine(d, t, k, s, v) == [d |-> d, t |-> t, k |-> k, s |-> s, v |-> v]
RECURSIVE Layout(_, _, _, _)
Layout(m, sec, i, da) ==
  IF i > Len(m.body[sec]) THEN <<>>
  ELSE LET b == m.body[sec][i]
           rest == Layout(m, sec, i + 1, da)
       IN IF b.f = 0 THEN <<OutLine(m.dep[sec] + 1 - da, "item", b.it.k, b.it.s, b.it.v)>> \o rest
          ELSE IF m.body[b.f] = <<>> THEN rest
          ELSE IF \A j \in 1..Len(m.body[b.f]) : m.body[b.f][j].f # 0
               THEN Layout(m, b.f, 1, da + 1) \o rest
          ELSE <<OutLine(m.dep[b.f] - da, "file", m.name[b.f], "", "")>> \o Layout(m, b.f, 1, da) \o rest
CleanL(ls) == LET m == Build(Start, ls, 1)
              IN Layout(m, 1, 1, 0) \o (IF m.view = <<>> THEN <<>> ELSE <<OutLine(0, "view", "VIEW", "=", m.view[1])>>)
RECURSIVE Tab(_)
Tab(n) == IF n <= 0 THEN "" ELSE "\t" \o Tab(n - 1)
Text(l) == Tab(l.d) \o (IF l.t = "file" THEN l.k \o ":" ELSE l.k \o l.s \o l.v)
Clean(ls) == [i \in 1..Len(CleanL(ls)) |-> Text(CleanL(ls)[i])]
(* lookup: the last value of the key in the cleaned header, '' if there is none  *)
Lookup(ls, key, Low(_)) ==
  LET o == CleanL(ls)
      H == {i \in 1..Len(o) : o[i].t \in {"item", "view"} /\ Low(o[i].k) = key}
  IN IF H = {} THEN "" ELSE o[CHOOSE i \in H : \A j \in H : j <= i].v
===============================================================================

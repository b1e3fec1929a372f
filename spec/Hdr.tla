---------------------------------- MODULE Hdr ----------------------------------
(* Writing and reading pictures, repeatedly: array -> file -> array -> ...      *)
EXTENDS HdrOps, TLC, Json
CONSTANTS MaxX, MaxY, Vals
VARIABLES orig, cur, where, gen, part
vars == <<orig, cur, where, gen, part>>
Arrays(X, Y) == [1..X -> [1..Y -> Vals]]
(* part 1: all colours of a small range in a single pixel;                       *)
(* part 2: all shapes with distinct values in every position                    *)
Init == /\ gen = 0 /\ where = "array"
        /\ \/ part = 1 /\ \E c \in Vals \X Vals \X Vals : orig = << <<c>> >>
           \/ part = 2 /\ \E X \in 1..MaxX, Y \in 1..MaxY :
                orig = [x \in 1..X |-> [y \in 1..Y |-> << <<2*x - 1, 0>>, <<2*y - 1, 3>>, <<1, x - y>> >>]]
        /\ cur = orig
Write == where = "array" /\ gen < 3 /\ where' = "file"
         /\ cur' = [l \in 1..Len(Lines(cur)) |-> [x \in 1..Len(cur) |-> Seen(Lines(cur)[l][x])]]
         /\ gen' = gen + 1 /\ UNCHANGED <<orig, part>>
Read == where = "file" /\ where' = "array" /\ cur' = FromLines(cur) /\ UNCHANGED <<orig, gen, part>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
SameShape == where = "array" => Len(cur) = Len(orig) /\ Len(cur[1]) = Len(orig[1])
InPlace == where = "array" /\ gen >= 1 =>
             \A x \in 1..Len(orig) : \A y \in 1..Len(orig[1]) :
               cur[x][y] = Seen(orig[x][y]) /\ PixelOk(orig[x][y], cur[x][y])
(* every channel is within half a mantissa step, 1/256 of the largest channel   *)
Half(v, m, e) == LET a == Scaled(v, 20 - e) b == (2*m + 1) * P2(11) IN a - b <= P2(11) /\ b - a <= P2(11)
Close == \A x \in 1..Len(orig) : \A y \in 1..Len(orig[1]) :
           LET c == orig[x][y] IN Black(c) \/ \A i \in 1..3 : Half(c[i], Mant(c)[i], MaxExpo(c))
Stable == where = "array" /\ gen >= 2 => \A x \in 1..Len(orig) : \A y \in 1..Len(orig[1]) :
            cur[x][y] = Seen(orig[x][y])
Emit == part = 2 /\ gen = 0 /\ where = "array" =>
          PrintT("CASE " \o ToJson([x |-> Len(orig), y |-> Len(orig[1])]))
===============================================================================

----------------------------------- MODULE Report -----------------------------------
(* raytools metric: metrics are asked one by one, images are computed by workers in any *)
(* order, rows are printed in the order of the images.                                  *)
EXTENDS CliOps, Json
CONSTANTS MaxM, MaxI, Known, Images
VARIABLES ms, imgs, done, rows
vars == <<ms, imgs, done, rows>>
Init == ms = <<>> /\ imgs = <<>> /\ done = {} /\ rows = <<>>
Ask == /\ imgs = <<>> /\ Len(ms) < MaxM /\ \E m \in Known : ~Contains(ms, m) /\ ms' = Append(ms, m) /\ UNCHANGED <<imgs, done, rows>>
Add == /\ ms # <<>> /\ done = {} /\ Len(imgs) < MaxI /\ \E i \in Images : imgs' = Append(imgs, i) /\ UNCHANGED <<ms, done, rows>>
Work == /\ imgs # <<>> /\ \E i \in 1..Len(imgs) : i \notin done /\ done' = done \cup {i} /\ UNCHANGED <<ms, imgs, rows>>
PrintRow == /\ imgs # <<>> /\ done = 1..Len(imgs) /\ Len(rows) < Len(imgs)
         /\ rows' = Append(rows, <<imgs[Len(rows) + 1], Columns(ms)>>) /\ UNCHANGED <<ms, imgs, done>>
Next == Ask \/ Add \/ Work \/ PrintRow
Spec == Init /\ [][Next]_vars
InOrder == \A r \in 1..Len(rows) : rows[r][1] = imgs[r]
AllOnce == LET c == Columns(ms) IN Len(c) = Len(ms) /\ \A i \in 1..Len(ms) : Contains(c, ms[i])
ScoresLast == LET c == Columns(ms) IN \A i \in 1..Len(c) : \A j \in 1..Len(c) : (c[i] \in Score /\ c[j] \notin Score) => i > j
Emit == (imgs # <<>> /\ done = {}) => PrintT("CASE " \o ToJson([t |-> "metric", ms |-> ms, imgs |-> imgs]))
=====================================================================================

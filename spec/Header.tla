--------------------------------- MODULE Header ---------------------------------
(* Pictures written, read and rewritten: what becomes of their header lines.    *)
(* Files hold the lines of their writer; a picture made from another one is     *)
(* written with the header read from it and further lines.                      *)
EXTENDS HeaderOps, TLC, Json
CONSTANTS Files, LineIds, MaxSteps, MaxLines
VARIABLES disk, given, hist
vars == <<disk, given, hist>>
LineSeqs == UNION {[1..n -> LineIds] : n \in 0..MaxLines}
Init == disk = [f \in Files |-> <<>>] /\ given = [f \in Files |-> <<>>] /\ hist = <<>>
(* what the file holds, and what the reader shows                               *)
OnDisk(ls) == <<"pvalue">> \o ls \o <<"FORMAT">>
Show(f) == <<"file:">> \o Deeper(disk[f])
Write(f, ls) == /\ disk' = [disk EXCEPT ![f] = OnDisk(ls)]
                /\ given' = [given EXCEPT ![f] = ls]
                /\ hist' = Append(hist, [op |-> "write", f |-> f, g |-> f, ls |-> ls])
Derive(f, g, ls) == /\ disk[g] # <<>>
                    /\ disk' = [disk EXCEPT ![f] = OnDisk(Show(g) \o ls)]
                    /\ given' = [given EXCEPT ![f] = Show(g) \o ls]
                    /\ hist' = Append(hist, [op |-> "derive", f |-> f, g |-> g, ls |-> ls])
Next == /\ Len(hist) < MaxSteps
        /\ \E f \in Files, ls \in LineSeqs : Write(f, ls) \/ \E g \in Files : Derive(f, g, ls)
Spec == Init /\ [][Next]_vars
(* every line given is read back, in order, whatever happened before            *)
Kept == \A f \in Files : disk[f] # <<>> => ReadOk(Show(f), given[f])
(* and lines of the origin survive in everything derived from it                *)
RECURSIVE Tabs(_, _)
Tabs(l, n) == IF n = 0 THEN l ELSE "\t" \o Tabs(l, n - 1)
Derived == [][\A f, g \in Files, ls \in LineSeqs :
               (hist' # hist /\ hist' = Append(hist, [op |-> "derive", f |-> f, g |-> g, ls |-> ls])) =>
               \A i \in 1..Len(given[g]) : \E j \in 1..Len(disk'[f]) : disk'[f][j] = "\t" \o given[g][i]]_vars
Emit == Len(hist) = MaxSteps => PrintT("CASE " \o ToJson(hist))
===============================================================================

------------------------------------- MODULE Cli -------------------------------------
(* Files in a directory, and commands that read some and write others.  What a file    *)
(* holds is remembered as the course of commands it came from.                          *)
EXTENDS CliOps, Json
CONSTANTS Depth, Small
VARIABLES disk, last, n, hist
vars == <<disk, last, n, hist>>
In == IF Small THEN { <<"a", ".hdr">>, <<"sub.d/c", "">> } ELSE { <<"a", ".hdr">>, <<"b", ".pic">>, <<"sub.d/c", "">>, <<"./e", "">> }
Project == [cmd : {"project"}, toang : BOOLEAN, useview : (IF Small THEN {TRUE} ELSE BOOLEAN), stdout : BOOLEAN]
Solid == [cmd : {"solid2ang"}, reverse : BOOLEAN, nearest : (IF Small THEN {FALSE} ELSE BOOLEAN), va : (IF Small THEN {0} ELSE {0, 120}), stdout : BOOLEAN]
Align == [cmd : {"align"}, rot : (IF Small THEN {0, 30} ELSE {0, 5, 30, -15}), center : (IF Small THEN {<<>>, <<3, 4>>} ELSE {<<>>, <<3, 4>>, <<5, 6, 2, 7>>}),
          first : BOOLEAN, nearest : (IF Small THEN {FALSE} ELSE BOOLEAN), stdout : BOOLEAN]
Clean == [cmd : {"cleanheader"}]
Turned(c) == IF c.cmd = "align" THEN [cmd |-> c.cmd, rot |-> c.rot, turned |-> c.rot # 0, center |-> c.center, first |-> c.first, nearest |-> c.nearest, stdout |-> c.stdout] ELSE c
Commands == Project \cup Solid \cup {Turned(c) : c \in Align} \cup Clean
Lists(S) == {<<f>> : f \in S} \cup {<<p[1], p[2]>> : p \in {q \in S \X S : q[1] # q[2]}} 
Init == /\ disk = [f \in In |-> <<"input", Name(f)>>] /\ last = <<>> /\ n = 0 /\ hist = <<>>
After(c, fs) == LET o == Outs(c, fs) new == {o[i] : i \in 1..Len(o)}
  IN [f \in DOMAIN disk \cup new |-> IF f \in new THEN <<c, disk[fs[CHOOSE i \in 1..Len(o) : o[i] = f]]>> ELSE disk[f]]
(* a call that lists both a file and what another of its files becomes asks for trouble *)
Sensible(c, fs) == LET o == Outs(c, fs) IN \A i \in 1..Len(o) : \A j \in 1..Len(fs) : Name(o[i]) # Name(fs[j])
Run == /\ n < Depth /\ n' = n + 1
       /\ \E c \in Commands : \E fs \in Lists(DOMAIN disk) :
            /\ (c.cmd = "cleanheader" => Len(fs) = 1)
            /\ Sensible(c, fs)
            /\ disk' = After(c, fs) /\ last' = <<c, fs>>
            /\ hist' = Append(hist, [c |-> c, files |-> fs])
Spec == Init /\ [][Run]_vars
Inputs == \A f \in In : f \in DOMAIN disk /\ disk[f] = <<"input", Name(f)>>
(* files of one call never share their result                                            *)
Apart == last # <<>> => LET o == Outs(last[1], last[2]) IN \A i, j \in 1..Len(o) : i # j => o[i] # o[j]
(* what was there before stays, unless the same command wrote it before                  *)
Keeps == [][\A f \in DOMAIN disk : disk'[f] # disk[f] => \E i \in 1..Len(Outs(last'[1], last'[2])) : Outs(last'[1], last'[2])[i] = f]_vars
Emit == (n = Depth) => PrintT("CASE " \o ToJson([t |-> "image", h |-> hist]))
=====================================================================================

---------------------------------- MODULE CliOps ----------------------------------
(* The commands of raytools: where they write what, and what they print.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Pad2(i) == IF i >= 0 /\ i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
(* rot: whole degrees of the rotation (turned: it is not zero), center: none or      *)
(* pixel coordinates                                                                  *)
AlignSuffix(c) ==
  LET r == IF c.turned THEN "_r" \o Pad2(c.rot) ELSE ""
      m == IF c.center = <<>> THEN "" ELSE "_" \o ToString(c.center[1]) \o "-" \o ToString(c.center[2])
      l == IF c.first THEN r \o m ELSE m \o r
  IN IF l = "" THEN "_r00" ELSE l
Suffix(c) == CASE c.cmd = "project" -> (IF c.toang THEN "_ang" ELSE "_uv")
               [] c.cmd = "solid2ang" -> (IF c.reverse THEN "_2vts" ELSE "_2vta")
               [] c.cmd = "align" -> AlignSuffix(c)
(* a file is <<stem, extension>>                                                      *)
Name(f) == f[1] \o f[2]
OutOf(c, f) == <<f[1] \o Suffix(c), ".hdr">>
ToStdout(c, files) == c.cmd = "cleanheader" \/ (c.stdout /\ Len(files) = 1)
Outs(c, files) == IF ToStdout(c, files) THEN <<>> ELSE [i \in 1..Len(files) |-> OutOf(c, files[i])]
(* columns: the metrics of the image in order, then the glare sensation scores        *)
Score == {"gss", "gssnb"}
Columns(ms) == SelectSeq(ms, LAMBDA m : m \notin Score) \o (IF Contains(ms, "gss") THEN <<"gss">> ELSE <<>>)
               \o (IF Contains(ms, "gssnb") THEN <<"gssnb">> ELSE <<>>)
Width(m) == IF m = "irradiance" THEN 3 ELSE 1
====================================================================================

---------------------------------- MODULE RayOps ----------------------------------
(* The Radiance search path: a sequence of entries, or not set at all (<<>>).        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
(* a package file is <<directory, file>>; no subdirectory is "-"                      *)
Own(base, subd) == IF subd = "-" THEN base[1] ELSE base[1] \o "/" \o subd
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>> ELSE LET r == Once(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF Contains(r, x) THEN r ELSE Append(r, x)
Extend(path, base, subd) == Once(<<".", Own(base, subd)>> \o path)
====================================================================================

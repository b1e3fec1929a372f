------------------------------- MODULE FilesOps -------------------------------
(* Files of numbers, tables of text and pictures cut short.                    *)
EXTENDS Integers, Sequences
(* --- arrays as bytes: a file holds the elements, row by row, of what was      *)
(* written to it                                                                *)
RECURSIVE Flat(_)
Flat(a) == IF a = <<>> THEN <<>> ELSE Head(a) \o Flat(Tail(a))
Prod(sh) == LET RECURSIVE p(_)
                p(i) == IF i > Len(sh) THEN 1 ELSE sh[i] * p(i + 1) IN p(1)
NoFile == <<0>>                          \* (model elements are not 0)
Put(disk, f, els, mode) == [disk EXCEPT ![f] = IF mode = "ab" /\ @ # NoFile THEN @ \o els ELSE els]
(* a shape may leave one extent open (-1)                                       *)
Opens(sh) == {i \in 1..Len(sh) : sh[i] = -1}
Known(sh) == Prod([i \in 1..Len(sh) |-> IF sh[i] = -1 THEN 1 ELSE sh[i]])
ShapeOf(n, sh) == IF Opens(sh) = {} THEN (IF Prod(sh) = n THEN sh ELSE <<>>)
                  ELSE IF Known(sh) = 0 \/ n % Known(sh) # 0 THEN <<>>
                  ELSE [i \in 1..Len(sh) |-> IF sh[i] = -1 THEN n \div Known(sh) ELSE sh[i]]
(* --- a picture written as far as byte n of a file with marks                  *)
(* m[1] end of header, m[2] end of size line, m[3] end of file                  *)
Has(n, m) == IF n >= m[3] THEN "picture" ELSE IF n >= m[2] THEN "size" ELSE IF n >= m[1] THEN "header" ELSE "nothing"
PixelsOf(has) == IF has = "picture" THEN "" ELSE "ValueError"
HeaderOf(has) == IF has = "nothing" THEN "OSError" ELSE ""
(* --- tables: what loading gives, by what the path is and what the file holds  *)
LoadOf(arg, content) ==
  CASE arg = "other" -> "TypeError"
    [] arg = "missing" -> "FileNotFoundError"
    [] content \in {"words", "ragged", "binary", "mixed", "partial"} -> "ValueError"
    [] OTHER -> ""
===============================================================================

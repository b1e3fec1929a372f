---------------------------------- MODULE HistOps ----------------------------------
(* A glare sensation model as an object with a history.  Views, images and ages are  *)
(* indices; images 1 and 2 have one resolution, 3 another.                            *)
EXTENDS Integers, Sequences
Res(i) == IF i = 3 THEN 11 ELSE 8
(* ways to make a model: from nothing, a view, a view file, an image with a view      *)
(* (which it loads) and an image without (loaded as well, hemispherical)              *)
MadeBy == << "none", "view", "file", "image", "plain" >>
ViewOf(m) == CASE m = "none" -> 1 [] m = "view" -> 2 [] m = "file" -> 2 [] m = "image" -> 3 [] m = "plain" -> 1
ImageOf(m) == CASE m = "image" -> 2 [] m = "plain" -> 1 [] OTHER -> 0
Made(m) == [view |-> ViewOf(m), img |-> ImageOf(m), age |-> 1]
Do(s, a) == CASE a[1] = "lum" -> [s EXCEPT !.img = a[2]] [] a[1] = "vm" -> [s EXCEPT !.view = a[2]]
              [] a[1] = "age" -> [s EXCEPT !.age = a[2]] [] OTHER -> s
====================================================================================

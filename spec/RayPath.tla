---------------------------------- MODULE RayPath ----------------------------------
(* A user sets the variable, packages put themselves at its front, in any order.      *)
EXTENDS RayOps, Json
CONSTANTS MaxInit, Calls
Bases == {<<"/opt/p", "__init__.py">>, <<"/q/r s", "x.py">>}
Subs == {"-", "cal", "lib/cal"}
Entries == {"", ".", "/lib/ray", "rel/dir", "/opt/p/cal", "/opt/p"}
VARIABLES first, path, h
vars == <<first, path, h>>
Init == first = <<>> /\ path = <<>> /\ h = <<>>
User == /\ h = <<>> /\ Len(path) < MaxInit /\ \E x \in Entries : path' = Append(path, x) /\ first' = path' /\ UNCHANGED h
Call == /\ Len(h) < Calls /\ \E b \in Bases : \E s \in Subs : /\ path' = Extend(path, b, s)
                                                                /\ h' = Append(h, <<b, s>>) /\ UNCHANGED first
Next == User \/ Call
Spec == Init /\ [][Next]_vars
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
OnceEach == h # <<>> => \A i, j \in 1..Len(path) : i # j => path[i] # path[j]
AtFront == h # <<>> => LET c == h[Len(h)] IN path[1] = "." /\ path[2] = Own(c[1], c[2])
Nothing == h # <<>> => \A i \in 1..Len(first) : Contains(path, first[i])
NoMore == h # <<>> => \A i \in 1..Len(path) : path[i] = "." \/ Contains(first, path[i]) \/ \E j \in 1..Len(h) : path[i] = Own(h[j][1], h[j][2])
(* entries no package asks for keep their order                                        *)
Others == {first[i] : i \in 1..Len(first)} \ ({"."} \cup {Own(h[j][1], h[j][2]) : j \in 1..Len(h)})
InOrder == h # <<>> => \A x, y \in Others : Pos(first, x) < Pos(first, y) => Pos(path, x) < Pos(path, y)
Again == h # <<>> => LET c == h[Len(h)] IN Extend(path, c[1], c[2]) = path
Emit == h # <<>> => PrintT("CASE " \o ToJson([first |-> first, h |-> h]))
=====================================================================================

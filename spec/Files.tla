---------------------------------- MODULE Files ----------------------------------
(* Histories of writing, appending and reading back; crashes of a writer.       *)
EXTENDS FilesOps, TLC, Json, FiniteSets
CONSTANTS MaxOps, MaxByte
VARIABLES disk, hist, wrote, cut
vars == <<disk, hist, wrote, cut>>
F == {"a", "b"}
Els == [x |-> <<1, 2>>, y |-> <<3>>, z |-> <<>>]
Init == /\ disk = [f \in F |-> NoFile] /\ hist = <<>> /\ wrote = [f \in F |-> <<>>]
        /\ cut = 0
Op(f, x, mode) ==
  /\ Len(hist) < MaxOps
  /\ disk' = Put(disk, f, Els[x], mode)
  /\ hist' = Append(hist, [f |-> f, x |-> x, mode |-> mode])
  /\ wrote' = [wrote EXCEPT ![f] = IF mode = "ab" THEN Append(@, x) ELSE <<x>>]
  /\ UNCHANGED cut
(* a picture of MaxByte bytes whose header ends at 5 and size line at 8          *)
Crash == hist = <<>> /\ cut < MaxByte /\ cut' = cut + 1 /\ UNCHANGED <<disk, hist, wrote>>
Next == Crash \/ (cut = 0 /\ \E f \in F, x \in DOMAIN Els, m \in {"wb", "ab"} : Op(f, x, m))
Spec == Init /\ [][Next]_vars
(* a file is exactly what was written since it was last started, in order        *)
Content == \A f \in F : IF disk[f] = NoFile THEN wrote[f] = <<>>
                        ELSE disk[f] = Flat([i \in 1..Len(wrote[f]) |-> Els[wrote[f][i]]])
Frame == [][\A f \in F : hist' # hist /\ hist'[Len(hist')].f # f => disk'[f] = disk[f]]_vars
(* no reader takes a part for the whole                                          *)
M == <<5, 8, MaxByte>>
NeverPart == (PixelsOf(Has(cut, M)) = "" <=> cut = MaxByte) /\ (HeaderOf(Has(cut, M)) = "" <=> cut >= 5)
(* open extents: the shape found holds exactly the elements                      *)
Shapes == {<<-1>>, <<-1, 2>>, <<2, -1>>, <<3>>, <<1, 3>>, <<2, 2>>, <<-1, 1>>, <<1, -1, 1>>}
Shaped == \A f \in F : disk[f] # NoFile => \A sh \in Shapes :
            LET r == ShapeOf(Len(disk[f]), sh) IN r # <<>> => Prod(r) = Len(disk[f])
Emit == Len(hist) = MaxOps => PrintT("CASE " \o ToJson(hist))
===============================================================================

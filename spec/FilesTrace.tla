------------------------------- MODULE FilesTrace -------------------------------
EXTENDS Conf, FilesOps, Fx
S0 == [none |-> "none"]                    \* file name -> elements in the file
Upd(s, f, v) == [x \in {f} \cup DOMAIN s |-> IF x = f THEN v ELSE s[x]]
S(s, e) == CASE e.k = "write" -> Upd(s, e.f, IF e.mode = "ab" /\ e.f \in DOMAIN s THEN s[e.f] \o e.els ELSE e.els)
             [] OTHER -> s
(* a stored element is the written one in the stored format                      *)
Single(x) == IsFin(x)
ElOk(r, w, ty) ==
  CASE ty = "f4" -> IF ~IsFin(w) THEN r = w
                    ELSE /\ IsFin(r) /\ FLe(FAbs(FSub(r, w)), FAdd(FMul(FAbs(w), FDec(59605, 12)), FEps[20]))
    [] OTHER -> r = w
ElsOk(r, w, ty) == Len(r) = Len(w) /\ \A i \in 1..Len(r) : ElOk(r[i], w[i], ty)
JWrite(s, e) == FirstBad(<<
  <<"an array can be written", e.exc = "">>,
  <<"the bytes are the elements in the stored format", e.size = Len(e.els) * e.width>> >>)
JRead(s, e) ==
  LET want == s[e.f] sh == ShapeOf(Len(want), e.sh)
  IN IF sh = <<>> THEN FirstBad(<< <<"a shape that does not fit is refused", e.exc = "ValueError">> >>)
     ELSE FirstBad(<<
       <<"an array can be read back", e.exc = "">>,
       <<"the array has the shape asked for", e.rsh = sh>>,
       <<"the array has the type asked for", e.rty = e.want>>,
       <<"every element reads back in its place", ElsOk(e.r, want, e.ty)>>,
       <<"single precision values are stored exactly", e.ty # "f4" \/ e.again>> >>)
JBytes(s, e) == FirstBad(<<
  <<"an array can be turned into bytes and back", e.exc = "">>,
  <<"the array has the shape asked for", e.rsh = e.sh>>,
  <<"every element reads back in its place", ElsOk(e.r, e.els, e.ty)>>,
  <<"single precision values are stored exactly", e.ty # "f4" \/ e.again>>,
  <<"reading from an open file continues where it is", e.rest>> >>)
JLoad(s, e) == LET x == LoadOf(e.arg, e.content) IN FirstBad(<<
  <<"loading reports what is wrong", e.exc = x>>,
  <<"loading gives what the file holds", x # "" \/ (e.rsh = e.wsh /\ ElsOk(e.r, e.w, "f8"))>> >>)
JCut(s, e) == LET h == Has(e.n, e.m) IN FirstBad(<<
  <<"a picture cut short is reported, never guessed",
    e.gray = PixelsOf(h) /\ e.color = PixelsOf(h) /\ e.stream = PixelsOf(h) /\ e.vol = PixelsOf(h)>>,
  <<"a header cut short is reported", e.hdr = HeaderOf(h) /\ e.vm = HeaderOf(h)>>,
  <<"a whole picture is read whole", h # "picture" \/ e.same>>,
  <<"the signature decides what is a Radiance file", e.ishdr = (e.n >= 10)>> >>)
JBad(s, e) == FirstBad(<<
  <<"a file that is no picture is reported", e.gray = "ValueError" /\ e.color = "ValueError" /\ e.vol = "ValueError">>,
  <<"a file without header is reported", e.hdr = e.whdr /\ e.vm = e.whdr>>,
  <<"the signature decides what is a Radiance file", e.ishdr = e.wis>> >>)
J(s, e) == CASE e.k = "write" -> JWrite(s, e) [] e.k = "read" -> JRead(s, e) [] e.k = "bytes" -> JBytes(s, e)
             [] e.k = "load" -> JLoad(s, e) [] e.k = "cut" -> JCut(s, e) [] e.k = "bad" -> JBad(s, e)
===============================================================================

---------------------------------- MODULE ImgOps ----------------------------------
(* From an image file to its metrics: the view, the weights of the channels, the     *)
(* course of the rays.                                                               *)
EXTENDS Integers, Sequences, SequencesExt
(* metrics that need the channels apart                                              *)
Coloured == {"irradiance"}
NeedsColor(ms) == \E i \in 1..Len(ms) : ms[i] \in Coloured
(* given weights win over those of the header, and those over the usual ones; where   *)
(* the header has the usual ones the plain luminance of the image is good enough      *)
WeightsOf(given, hdr, color) ==
  IF given THEN "given"
  ELSE IF hdr = "none" \/ hdr = "short" THEN "default"
  ELSE IF hdr = "usual" /\ ~color THEN "default" ELSE "header"
ViewFrom(view) == IF view = "none" THEN "hemisphere" ELSE "own"
===================================================================================

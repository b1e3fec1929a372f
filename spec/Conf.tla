--------------------------------- MODULE Conf ---------------------------------
(* Conformance: recorded behaviour of the implementation, judged event by      *)
(* event against the specification that instantiates this module.              *)
(* The trace file holds a sequence of chains; a chain is a sequence of events  *)
(* (records) of one history.  Judge(st, e) is "ok" or the name of the clause   *)
(* that e breaks in specification state st; StepSt gives the next state.  The  *)
(* harness requires distinct states = events + chains, so no event is skipped. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Judge(_, _), StepSt(_, _), St0
Chains == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cc, ci, st
ConfInit == cc \in 1..Len(Chains) /\ ci = 0 /\ st = St0
ConfNext ==
  /\ ci < Len(Chains[cc])
  /\ LET e == Chains[cc][ci + 1]
         r == Judge(st, e)
     IN /\ IF r = "ok" THEN TRUE ELSE PrintT("VFAIL " \o ToJson(<<cc, ci + 1, r>>))
        /\ st' = StepSt(st, e)
  /\ ci' = ci + 1
  /\ cc' = cc
(* helper: first failing clause of a list of <<name, condition>> *)
RECURSIVE FirstBad(_)
FirstBad(cl) == IF cl = <<>> THEN "ok"
                ELSE IF ~ Head(cl)[2] THEN Head(cl)[1] ELSE FirstBad(Tail(cl))
===============================================================================

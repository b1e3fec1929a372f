------------------------------- MODULE NprocTrace -------------------------------
(* Recorded histories of set_nproc/unset_nproc/get_nproc, changes of the        *)
(* environment, pool sizes and command line runs, against Nproc.                *)
EXTENDS Conf, NprocOps
S0 == [env |-> Unset]
S(s, e) == IF e.k = "op" THEN [env |-> Effect(s.env, e)]
           ELSE IF e.k = "cli" THEN [env |-> IF e.a = "None" THEN s.env
                                             ELSE Effect(s.env, [o |-> "set", a |-> e.a])]
           ELSE s
JOp(s, e) ==
  FirstBad(<<
    <<"only a non-integer argument of set_nproc is rejected, by ValueError",
      e.exc = (IF e.o = "set" /\ Rejected(e.a) THEN "ValueError" ELSE "")>>,
    <<"get_nproc gives the explicit argument, else the current cap, else the CPU count",
      e.o = "get" /\ e.exc = "" => e.res = Get(s.env, e.a, e.cpus)>>,
    <<"the variable holds the cap after the call", e.after = Effect(s.env, e)>> >>)
JPool(s, e) ==
  FirstBad(<<
    <<"a process pool starts", e.exc = "">>,
    <<"process pools use exactly the current number of workers",
      e.exc = "" => e.res = Get(s.env, e.a, e.cpus)>> >>)
JRun(s, e) ==
  LET w == Get(s.env, e.a, e.cpus)
  IN FirstBad(<<
    <<"a process pool starts", e.exc = "">>,
    <<"the pool runs as many calls at the same time as the cap allows",
      e.exc = "" => e.reached = (IF w < e.tasks THEN w ELSE e.tasks)>>,
    <<"the pool never runs more calls than the cap", e.exc = "" => e.most <= w>> >>)
JCli(s, e) ==
  FirstBad(<<
    <<"the command line accepts the cap", e.exc = "">>,
    <<"-n sets the cap for the command", e.env = S(s, e).env>>,
    <<"pools of the command use the cap", e.res = Get(S(s, e).env, "None", e.cpus)>> >>)
J(s, e) == CASE e.k = "op" -> JOp(s, e)
             [] e.k = "pool" -> JPool(s, e)
             [] e.k = "run" -> JRun(s, e)
             [] e.k = "cli" -> JCli(s, e)
===============================================================================

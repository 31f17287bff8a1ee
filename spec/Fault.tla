------------------------------- MODULE Fault --------------------------------
(* A function given by the user (of the space, of the distribution, or the   *)
(* condition) panics once, in the initialisation or in an iteration of an    *)
(* algorithm, sequential or parallel (C06).                                  *)
EXTENDS Integers, Sequences

\* the execution fails, once its initialisation has begun or between iterations
FailsInInit(c, o) ==
  /\ o.error = "fault" /\ o.value = "Finished"
  /\ o.iters = 0 /\ o.n = 0
  /\ IF c.first = "init" THEN o.initerr = "fault" /\ o.err = "" ELSE o.err = "fault" /\ o.initerr = ""
FailsInRun(c, o) ==
  /\ o.error = "fault" /\ o.value = "Finished" /\ o.initerr = ""
  /\ o.err = (IF c.first = "batch" THEN "fault" ELSE "")
  \* what the last iteration has published is still readable
  /\ o.iters = o.last /\ o.same /\ o.n > 0 /\ o.predicted
Ends(c, o, call) ==
  /\ o.err = "" /\ o.initerr = "" /\ o.error = ""
  /\ o.value = (IF call = "batch" THEN "Finished" ELSE "Ready")
  /\ o.iters = c.budget /\ o.n > 0 /\ o.predicted

FaultOK(c) ==
  /\ IF ~c.one.fired THEN Ends(c, c.one, c.first)
     ELSE IF c.begun THEN FailsInRun(c, c.one)
     ELSE FailsInInit(c, c.one)
  \* a new session is not affected
  /\ Ends(c, c.two, c.second)
=============================================================================

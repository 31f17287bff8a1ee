----------------------------- MODULE FiguresMC ------------------------------
(* Time figures (property C29) over a discrete clock: the rule of accounting *)
(* which AlgoTrace checks on recorded histories (accumulate at the end of an *)
(* execution, accumulate plus elapsed time at an iteration, reset at a new   *)
(* session) against the time spent in executions, counted tick by tick.      *)
EXTENDS Integers, TLC
CONSTANTS MaxT, NoData
VARIABLES t, st, busy, start, acc, dur, ldt, total, atIter, lastPush, since
vars == <<t, st, busy, start, acc, dur, ldt, total, atIter, lastPush, since>>
Init == /\ t = 0 /\ st = "Created" /\ busy = FALSE /\ start = 0 /\ acc = 0 /\ dur = 0 /\ ldt = NoData
        /\ total = 0 /\ atIter = 0 /\ lastPush = NoData /\ since = 0
Tick == /\ t < MaxT /\ t' = t + 1
        /\ total' = IF st \in {"Running", "Idle"} THEN total + 1 ELSE total
        /\ UNCHANGED <<st, busy, start, acc, dur, ldt, atIter, lastPush, since>>
NewSession == /\ st \in {"Created", "Finished"} /\ st' = "Ready"
              /\ IF st = "Finished"
                 THEN acc' = 0 /\ dur' = 0 /\ ldt' = NoData /\ total' = 0 /\ atIter' = 0 /\ lastPush' = NoData /\ since' = t
                 ELSE UNCHANGED <<acc, dur, ldt, total, atIter, lastPush, since>>
              /\ UNCHANGED <<t, busy, start>>
Start == /\ st = "Ready" /\ st' = "Running" /\ start' = t
         /\ UNCHANGED <<t, busy, acc, dur, ldt, total, atIter, lastPush, since>>
IterBegin == /\ st = "Running" /\ ~busy /\ busy' = TRUE
             /\ UNCHANGED <<t, st, start, acc, dur, ldt, total, atIter, lastPush, since>>
IterEnd == /\ busy /\ busy' = FALSE /\ dur' = acc + (t - start) /\ atIter' = total
           /\ UNCHANGED <<t, st, start, acc, ldt, total, lastPush, since>>
Pause == /\ st = "Running" /\ ~busy /\ st' = "Idle"
         /\ UNCHANGED <<t, busy, start, acc, dur, ldt, total, atIter, lastPush, since>>
Resume == /\ st = "Idle" /\ st' = "Running"
          /\ UNCHANGED <<t, busy, start, acc, dur, ldt, total, atIter, lastPush, since>>
End(s) == /\ st \in {"Running", "Idle"} /\ (s = "Ready" => st = "Running" /\ ~busy)
          /\ st' = s /\ busy' = FALSE
          /\ acc' = acc + (t - start) /\ dur' = acc' /\ atIter' = total
          /\ UNCHANGED <<t, start, ldt, total, lastPush, since>>
StopReady == /\ st = "Ready" /\ st' = "Finished"
             /\ UNCHANGED <<t, busy, start, acc, dur, ldt, total, atIter, lastPush, since>>
Push == /\ ldt' = t /\ lastPush' = t
        /\ UNCHANGED <<t, st, busy, start, acc, dur, total, atIter, since>>
Next == Tick \/ NewSession \/ Start \/ IterBegin \/ IterEnd \/ Pause \/ Resume
        \/ End("Ready") \/ End("Finished") \/ StopReady \/ Push
Spec == Init /\ [][Next]_vars
Truthful == dur = atIter /\ ldt = lastPush
Bounded == dur <= total /\ total <= t - since + 0 /\ (st \notin {"Running", "Idle"} => dur = total)
Monotone == [][(st' # "Ready" \/ st # "Finished") => dur' >= dur]_vars
=============================================================================

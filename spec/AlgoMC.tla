------------------------------- MODULE AlgoMC -------------------------------
(* Exhaustive check of Algo for small constants: every interleaving of the   *)
(* calls of the clients (at most MaxCalls in all), iterations of any outcome, *)
(* initialisations, timeout and notifications.                               *)
EXTENDS Algo, TLC
CONSTANTS MaxCalls, MaxIters, Confs, Ops, Outcomes
VARIABLES calls, steps, tok
mcvars == <<vars, calls, steps, tok>>

MCInit == /\ \E c0 \in Confs : AlgoInit(c0)
          /\ calls = 0 /\ steps = 0 /\ tok = 1

Arg(op, el) == CASE op = "Push" -> [el |-> el, refuse |-> FALSE]
              [] op = "Wait" -> [fin |-> NilFin, dur |-> 0]
              [] OTHER -> [x |-> 0]

MCCall == \E c \in Clients, op \in Ops :
            /\ calls < MaxCalls /\ Call(c, op, Arg(op, calls + 1)) /\ calls' = calls + 1
            /\ UNCHANGED <<steps, tok>>
MCReturn == \E c \in Clients : Return(c) /\ UNCHANGED <<calls, steps, tok>>
Quiet == Silent /\ UNCHANGED <<calls, steps, tok>>
MCInitStart == InitStart /\ UNCHANGED <<calls, steps, tok>>
MCInitEnd == /\ \/ InitEnd([k |-> "ok", tok |-> 100]) \/ InitEnd([k |-> "err", e |-> "E"])
             /\ UNCHANGED <<calls, steps, tok>>
MCIterStart == steps < MaxIters /\ IterStart /\ steps' = steps + 1 /\ UNCHANGED <<calls, tok>>
MCIterEnd == /\ \E o \in Outcomes : IterEnd(IF o = "ok" THEN [k |-> "ok", tok |-> tok, fig |-> tok]
                                            ELSE [k |-> o, e |-> "F"])
             /\ tok' = tok + 1 /\ UNCHANGED <<calls, steps>>
MCTimeout == (TimeoutFires \/ TimeoutVoid) /\ UNCHANGED <<calls, steps, tok>>
MCNotified == Notified /\ UNCHANGED <<calls, steps, tok>>

MCNext == \/ MCCall \/ MCReturn \/ Quiet \/ MCInitStart \/ MCInitEnd
          \/ MCIterStart \/ MCIterEnd \/ MCTimeout \/ MCNotified

MCSpec == MCInit /\ [][MCNext]_mcvars
          /\ WF_mcvars(MCReturn) /\ WF_mcvars(MCInitStart) /\ WF_mcvars(MCInitEnd)
          /\ WF_mcvars(MCIterStart) /\ WF_mcvars(MCIterEnd)
          /\ WF_mcvars(\E c \in Clients : Lin(c) /\ UNCHANGED <<calls, steps, tok>>)
          /\ WF_mcvars((InitPublish \/ InitDone \/ Complete \/ Go \/ IterRead \/ IterApply \/ Publish)
                       /\ UNCHANGED <<calls, steps, tok>>)
          /\ WF_mcvars(MCNotified)

Conf0 == [iter |-> 0, ipd |-> 0, dpi |-> 0, tmo |-> 0, fin |-> NilFin, notif |-> FALSE,
          data |-> FALSE, frame |-> 0, base |-> <<>>]
MCConfs == { [Conf0 EXCEPT !.iter = 1, !.ipd = 0, !.notif = TRUE],
             [Conf0 EXCEPT !.iter = 1, !.ipd = 1, !.dpi = 1],
             [Conf0 EXCEPT !.iter = 2, !.tmo = 1] }
DataConfs == { [Conf0 EXCEPT !.iter = 1, !.dpi = 1, !.data = TRUE, !.base = <<100>>],
               [Conf0 EXCEPT !.iter = 2, !.data = TRUE, !.frame = 2, !.base = <<100, 101>>] }

\* every call of the harness' alphabet, reads included
FaultConfs == { [Conf0 EXCEPT !.iter = 2, !.notif = TRUE], [Conf0 EXCEPT !.iter = 1, !.dpi = 1] }
TimeoutConfs == { [Conf0 EXCEPT !.tmo = 1], [Conf0 EXCEPT !.tmo = 1, !.iter = 1, !.notif = TRUE] }
RestartConfs == { [Conf0 EXCEPT !.iter = 1, !.dpi = 1], [Conf0 EXCEPT !.ipd = 1, !.dpi = 2],
                  [Conf0 EXCEPT !.iter = 1, !.dpi = 0] }
BudgetConfs == { [Conf0 EXCEPT !.iter = 2, !.ipd = 1], [Conf0 EXCEPT !.ipd = 1],
                 [Conf0 EXCEPT !.fin = IterFin(1, 1)], Conf0 }

\* C03: no call hangs, as long as iterations and initialisations return
\* (a Wait is only promised to return once its condition holds for good)
NoHang == \A c \in Clients :
  (pend[c].op \notin {"none", "Wait", "Batch"}) ~> (pend[c].op = "none" \/ steps = MaxIters)
\* C03: a wait ends once the execution is over
WaitEnds == \A c \in Clients :
  (pend[c].op # "none" /\ Task(c) = "Wait" /\ [](st \in {"Ready", "Finished"})) ~> pend[c].op = "none"
\* C07: an armed timeout eventually ends the execution
TimeoutEnds == (tmr /\ st = "Idle") ~> (st # "Idle" \/ ~tmr)
\* C10: once nothing is pending nor staged, every counted element is in the data exactly once
EachOnce == \A i, j \in 1..Len(buf \o staged) : (buf \o staged)[i] = (buf \o staged)[j] => i = j
NoneLost == (\A c \in Clients : pend[c].op = "none") /\ cf.data
            => Len(buf) + Len(staged) >= Len(cf.base) + pushed
\* C10: data do not change while an iteration uses them
DataStable == [][(run = "read" /\ run' = "read") =>
                 /\ used' = used
                 /\ \/ buf' = buf \/ \E c \in Clients : At(c, "Push", "store")]_mcvars
\* C08: only a push to a ready algorithm which got enough other data restarts it
RestartOnlyWhenEnough ==
  [][(st = "Ready" /\ st' = "Running" /\ newData' # newData) => (cf.dpi > 0 /\ newData >= cf.dpi)]_mcvars
RestartWhenEnough ==
  [][(st = "Ready" /\ pushed' = pushed + 1 /\ cf.dpi > 0 /\ newData >= cf.dpi) => st' = "Running"]_mcvars
PushStartsNothingElse ==
  [][(pushed' = pushed + 1 /\ st # "Ready") => st' = st]_mcvars
\* C06: an error ends the execution and leaves what was published
ErrorsKeepModel ==
  [][(st = "Running" /\ st' = "Finished" /\ er' # "") => UNCHANGED <<iters, clust, figTok, pushed>>]_mcvars
\* C05: an iteration without result changes nothing
NilChangesNothing ==
  [][(run = "ended" /\ ires.k = "nil") => UNCHANGED <<iters, clust, figTok>>]_mcvars
\* C04: no iteration begins unless the algorithm runs, nor after a pause or a stop returned
QuietWhenPaused == [][(run' = "iter" /\ run # "iter") => st = "Running"]_mcvars
\* C09: as many notifications as changes are queued, in order
NotifyAppends == [][(st' # st /\ cf.notif) => Len(nq') > Len(nq)]_mcvars
\* C11: readers see published states only, and only publications change them
PublishedOnly == [][clust' # clust => (run = "ended" \/ iph = "out")]_mcvars
\* C02: an accepted push is counted, exactly when it is answered
CountedPush == [][\A c \in Clients :
   (pend[c].op = "Push" /\ pend[c].ph # "done" /\ pend'[c].ph = "done" /\ pend'[c].res = Ok)
     => pushed' = pushed + 1]_mcvars
=============================================================================

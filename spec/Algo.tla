-------------------------------- MODULE Algo --------------------------------
(* The life of one online clustering algorithm (core/algo.go, ctrl.go,       *)
(* status.go, timeout.go, model.go, buffer.go) as its clients may observe    *)
(* it: every API call takes effect at one instant (its linearization) between*)
(* its call and its return, interleaved with the execution loop, the timeout,*)
(* the implementation's Init/Iterate and the notifications.                  *)
(*                                                                           *)
(* The module is untimed.  AlgoMC checks it exhaustively for small constants;*)
(* AlgoTrace adds clocks and validates histories recorded from the real code;*)
(* AlgoTour enumerates stimulus sequences which are replayed on the real code.*)
EXTENDS Integers, Sequences, FiniteSets, Finishing

CONSTANT Clients

VARIABLES
  cf,       \* configuration: iter, ipd, dpi, tmo, fin, notif, data, frame
  st, er,   \* status value and error ("" if none)
  iters,    \* iterations of the session
  pushed,   \* accepted pushes of the session
  newData,  \* pushes since the last automatic restart
  clust,    \* token of the published clustering, -1 if none
  figTok,   \* token of the implementation figures published last, 0 if none
  run,      \* execution loop: none, between, armed, iter, read, applied, ended
  ires,     \* outcome of the iteration in progress
  iph, iby, inres,  \* initialisation: phase, client, outcome
  tmr,      \* is a timeout armed for the last run
  nq,       \* status changes not yet notified
  pend,     \* pending call of every client
  buf,      \* clustering data
  staged,   \* data pushed while alive, not yet applied
  used      \* data seen by the iteration in progress

loopVars == <<run, ires, used>>
initVars == <<iph, iby, inres>>
modelVars == <<iters, pushed, newData, clust, figTok>>
dataVars == <<buf, staged>>
vars == <<cf, st, er, iters, pushed, newData, clust, figTok, run, ires,
          iph, iby, inres, tmr, nq, pend, buf, staged, used>>

Statuses == {"Created", "Initializing", "Ready", "Running", "Idle", "Finished"}
Alive == st \in {"Ready", "Running", "Idle"}

NoCall == [op |-> "none"]
NoOutcome == [k |-> "none"]

Res(x) == <<x, "", 0, 0, 0>>
Ok == Res("ok")

AlgoInit(c0) ==
  /\ cf = c0
  /\ st = "Created" /\ er = ""
  /\ iters = 0 /\ pushed = 0 /\ newData = 0 /\ clust = -1 /\ figTok = 0
  /\ run = "none" /\ ires = NoOutcome
  /\ iph = "none" /\ iby = 0 /\ inres = NoOutcome
  /\ tmr = FALSE
  /\ nq = <<>>
  /\ pend = [c \in Clients |-> NoCall]
  /\ buf = c0.base /\ staged = <<>> /\ used = <<>>

LastN(s, n) == IF n > 0 /\ Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

-----------------------------------------------------------------------------
(* Calls, returns and composition of Batch = Stop; Play; Wait; error; Stop   *)

Task(c) ==
  IF pend[c].op = "none" THEN "none"
  ELSE IF pend[c].op = "Batch"
       THEN <<"Stop", "Play", "Wait", "GetErr", "Stop">>[pend[c].stage]
       ELSE pend[c].op

At(c, task, ph) == pend[c].op # "none" /\ Task(c) = task /\ pend[c].ph = ph

\* the current step of client c has result r
After(p, r) ==
  IF p.op # "Batch" THEN [p EXCEPT !.ph = "done", !.res = r]
  ELSE CASE p.stage = 1 -> [p EXCEPT !.stage = 2]
         [] p.stage \in {2, 3, 4} ->
              IF r = Ok THEN [p EXCEPT !.stage = @ + 1, !.ph = "called"]
              ELSE [p EXCEPT !.ph = "done", !.res = r]
         [] p.stage = 5 -> [p EXCEPT !.ph = "done", !.res = Ok]

Answer(c, r) == pend' = [pend EXCEPT ![c] = After(@, r)]
SetPh(c, ph) == pend' = [pend EXCEPT ![c].ph = ph]

Call(c, op, arg) ==
  /\ pend[c] = NoCall
  /\ pend' = [pend EXCEPT ![c] =
       [op |-> op, ph |-> "called", stage |-> 1, res |-> Ok, arg |-> arg]]
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

Return(c) ==
  /\ pend[c].op # "none" /\ pend[c].ph = "done"
  /\ pend' = [pend EXCEPT ![c] = NoCall]
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

-----------------------------------------------------------------------------
(* Status changes                                                            *)

Change(s, e) == /\ st' = s /\ er' = e
                /\ nq' = IF cf.notif THEN Append(nq, <<s, e>>) ELSE nq
Change2(s1, s2) == /\ st' = s2 /\ er' = ""
                   /\ nq' = IF cf.notif THEN nq \o << <<s1, "">>, <<s2, "">> >> ELSE nq

\* effect of starting an execution, status apart
StartRun == run' = "between" /\ ires' = NoOutcome /\ tmr' = (cf.tmo > 0)

BeginInit(c) ==
  /\ iph = "none"
  /\ iph' = "begun" /\ iby' = c /\ inres' = NoOutcome
  /\ Change("Initializing", "")
  /\ IF st = "Finished" THEN iters' = 0 /\ pushed' = 0 /\ figTok' = 0
                        ELSE UNCHANGED <<iters, pushed, figTok>>
  /\ tmr' = FALSE
  /\ SetPh(c, "initing")
  /\ UNCHANGED <<cf, newData, clust>> /\ UNCHANGED loopVars /\ UNCHANGED dataVars

LinInit(c) ==
  /\ At(c, "Init", "called")
  /\ \/ st \in {"Created", "Finished"} /\ BeginInit(c)
     \/ /\ st \in {"Ready", "Running", "Idle"} /\ Answer(c, Res("already"))
        /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
        /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

LinPlay(c) ==
  /\ At(c, "Play", "called")
  /\ \/ st \in {"Created", "Finished"} /\ BeginInit(c)
     \/ /\ st = "Running" /\ Answer(c, Res("running"))
        /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
        /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars
     \/ /\ st = "Idle" /\ Answer(c, Ok) /\ Change("Running", "")
        /\ UNCHANGED <<cf, tmr>> /\ UNCHANGED modelVars
        /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars
     \/ /\ st = "Ready" /\ Answer(c, Ok) /\ Change("Running", "") /\ StartRun
        /\ UNCHANGED <<cf, used>> /\ UNCHANGED modelVars
        /\ UNCHANGED initVars /\ UNCHANGED dataVars

(* The implementation is initialised: it starts, takes staged data, ends.    *)
InitStart ==
  /\ iph = "begun" /\ iph' = "in"
  /\ buf' = buf \o staged /\ staged' = <<>>
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, iby, inres>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars

\* r: outcome [k |-> "ok", tok |-> ...] or [k |-> "err", e |-> ...]
InitEnd(r) ==
  /\ iph = "in" /\ iph' = "out" /\ inres' = r
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, iby>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED dataVars

InitPublish ==
  /\ iph = "out" /\ inres.k = "ok" /\ iph' = "pub" /\ clust' = inres.tok
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, iby, inres, iters, pushed, newData, figTok>>
  /\ UNCHANGED loopVars /\ UNCHANGED dataVars

InitDone ==
  /\ \/ /\ iph = "pub" /\ Task(iby) = "Init"
        /\ Change("Ready", "") /\ Answer(iby, Ok)
        /\ UNCHANGED <<tmr>> /\ UNCHANGED loopVars
     \/ /\ iph = "pub" /\ Task(iby) = "Play"
        /\ Change2("Ready", "Running") /\ Answer(iby, Ok) /\ StartRun
        /\ UNCHANGED used
     \/ /\ iph = "out" /\ inres.k = "err"
        /\ Change("Finished", inres.e) /\ Answer(iby, Res(inres.e))
        /\ UNCHANGED <<tmr>> /\ UNCHANGED loopVars
  /\ iph' = "none" /\ iby' = 0 /\ inres' = NoOutcome
  /\ UNCHANGED cf /\ UNCHANGED modelVars /\ UNCHANGED dataVars

-----------------------------------------------------------------------------
LinPause(c) ==
  /\ At(c, "Pause", "called")
  /\ \/ /\ st = "Running" /\ run = "between" /\ Answer(c, Ok) /\ Change("Idle", "")
     \/ /\ st \in {"Created", "Ready", "Idle", "Finished"} /\ Answer(c, Res("notrunning"))
        /\ UNCHANGED <<st, er, nq>>
  /\ UNCHANGED <<cf, tmr>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

\* the execution, if any, can be terminated now
Interruptible == st = "Ready" \/ (st \in {"Running", "Idle"} /\ run = "between")

LinStop(c) ==
  /\ At(c, "Stop", "called")
  /\ \/ /\ Interruptible /\ Answer(c, Ok) /\ Change("Finished", "") /\ run' = "none"
     \/ /\ st \in {"Created", "Finished"} /\ Answer(c, Res("notalive"))
        /\ UNCHANGED <<st, er, nq, run>>
  /\ UNCHANGED <<cf, tmr, ires, used>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

TimeoutFires ==
  /\ tmr /\ Interruptible /\ tmr' = FALSE
  /\ Change("Finished", "timeout") /\ run' = "none"
  /\ UNCHANGED <<cf, ires, used, pend>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

\* a timeout has no effect on an execution which is over
TimeoutVoid ==
  /\ tmr /\ st \in {"Ready", "Finished"} /\ tmr' = FALSE
  /\ UNCHANGED <<cf, st, er, nq, pend>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

NeverEnds(arg) == /\ arg.fin = NilFin /\ arg.dur <= 0 /\ cf.fin = NilFin
                  /\ cf.tmo = 0 /\ cf.iter = 0 /\ cf.ipd = 0

WaitArg(c) == IF pend[c].op = "Batch" THEN [fin |-> NilFin, dur |-> 0] ELSE pend[c].arg
WaitFin(c) == IF WaitArg(c).fin = NilFin
              THEN StatusFin(TRUE, <<"Ready", "Idle", "Finished">>) ELSE WaitArg(c).fin
WaitCond(c) == FinHolds(WaitFin(c), st, er, iters, pushed)

LinWait(c) ==
  /\ \/ /\ At(c, "Wait", "called")
        /\ \/ st \in {"Created", "Initializing"} /\ Answer(c, Res("notrunning"))
           \/ st \in {"Ready", "Finished"} /\ Answer(c, Ok)
           \/ st = "Idle" /\ Answer(c, Res("idle"))
           \/ /\ st = "Running" /\ NeverEnds(WaitArg(c)) /\ Answer(c, Res("never"))
           \/ /\ st = "Running" /\ ~NeverEnds(WaitArg(c)) /\ SetPh(c, "polling")
     \/ /\ At(c, "Wait", "polling") /\ WaitCond(c) /\ SetPh(c, "met")
     \/ /\ At(c, "Wait", "met") /\ Answer(c, IF er = "" THEN Ok ELSE Res(er))
     \/ /\ At(c, "Wait", "polling") /\ WaitArg(c).dur > 0 /\ ~WaitCond(c)
        /\ Answer(c, Res("timeout"))
     \/ /\ At(c, "GetErr", "called") /\ Answer(c, IF er = "" THEN Ok ELSE Res(er))
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

-----------------------------------------------------------------------------
(* Push: the implementation stores or stages the element according to the    *)
(* status it observes (only modelled when cf.data), then it is counted and   *)
(* possibly restarts a ready algorithm.                                      *)
PushDecide(c) ==
  /\ cf.data /\ At(c, "Push", "called") /\ ~pend[c].arg.refuse
  /\ SetPh(c, IF Alive THEN "stage" ELSE "store")
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

PushPut(c) ==
  /\ \/ /\ At(c, "Push", "stage")
        /\ staged' = Append(staged, pend[c].arg.el) /\ UNCHANGED buf
     \/ /\ At(c, "Push", "store")
        /\ buf' = Append(buf \o staged, pend[c].arg.el) /\ staged' = <<>>
  /\ SetPh(c, "put")
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars

PushCount(c) ==
  /\ At(c, "Push", IF cf.data THEN "put" ELSE "called") /\ ~pend[c].arg.refuse
  /\ st # "Initializing"
  /\ pushed' = pushed + 1
  /\ IF st = "Ready" /\ cf.dpi > 0 /\ cf.dpi <= newData
     THEN /\ newData' = 0 /\ Change("Running", "") /\ StartRun
          /\ UNCHANGED used
     ELSE /\ newData' = newData + 1
          /\ UNCHANGED <<st, er, nq, tmr>> /\ UNCHANGED loopVars
  /\ Answer(c, Ok)
  /\ UNCHANGED <<cf, iters, clust, figTok>> /\ UNCHANGED initVars /\ UNCHANGED dataVars

PushRefused(c) ==
  /\ At(c, "Push", "called") /\ pend[c].arg.refuse /\ Answer(c, Res("refused"))
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

LinPush(c) == PushDecide(c) \/ PushPut(c) \/ PushCount(c) \/ PushRefused(c)

LinRead(c) ==
  /\ \/ At(c, "Status", "called") /\ Answer(c, <<st, er, 0, 0, 0>>)
     \/ At(c, "Centroids", "called") /\ Answer(c, <<"", "", clust, 0, 0>>)
     \/ At(c, "Predict", "called") /\ Answer(c, <<"", "", clust, 0, 0>>)
     \/ At(c, "Figures", "called") /\ Answer(c, <<"", "", iters, pushed, figTok>>)
  /\ UNCHANGED <<cf, st, er, tmr, nq>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

-----------------------------------------------------------------------------
(* Execution loop                                                            *)
Cond == \/ FinHolds(IterFin(cf.iter, cf.ipd), st, er, iters, pushed)
        \/ FinHolds(cf.fin, st, er, iters, pushed)

Complete ==
  /\ st = "Running" /\ run = "between" /\ Cond
  /\ Change("Ready", "") /\ run' = "none"
  /\ UNCHANGED <<cf, tmr, pend, ires, used>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

Go ==
  /\ st = "Running" /\ run = "between" /\ ~Cond /\ run' = "armed"
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, ires, used>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

IterStart ==
  /\ run = "armed" /\ run' = "iter" /\ used' = <<>>
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, ires>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

\* the iteration takes its data, all at once; they never change afterwards
IterRead ==
  /\ cf.data /\ run = "iter" /\ run' = "read"
  /\ used' = LastN(buf, cf.frame)
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, ires>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

IterApply ==
  /\ cf.data /\ run = "read" /\ run' = "applied"
  /\ buf' = buf \o staged /\ staged' = <<>>
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, ires, used>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars

\* r: outcome ok (with tokens), nil (no clustering), err or panic (with e)
IterEnd(r) ==
  /\ run = (IF cf.data THEN "applied" ELSE "iter")
  /\ run' = "ended" /\ ires' = r
  /\ UNCHANGED <<cf, st, er, tmr, nq, pend, used>> /\ UNCHANGED modelVars
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

Publish ==
  /\ run = "ended"
  /\ CASE ires.k = "ok" ->
            /\ iters' = iters + 1 /\ clust' = ires.tok /\ figTok' = ires.fig
            /\ run' = "between" /\ UNCHANGED <<st, er, nq>>
       [] ires.k = "nil" ->
            /\ run' = "between" /\ UNCHANGED <<iters, clust, figTok, st, er, nq>>
       [] ires.k \in {"err", "panic"} ->
            /\ Change("Finished", ires.e) /\ run' = "none"
            /\ UNCHANGED <<iters, clust, figTok>>
  /\ ires' = NoOutcome
  /\ UNCHANGED <<cf, tmr, pend, used, pushed, newData>>
  /\ UNCHANGED initVars /\ UNCHANGED dataVars

Notified ==
  /\ nq # <<>> /\ nq' = Tail(nq)
  /\ UNCHANGED <<cf, st, er, tmr, pend>> /\ UNCHANGED modelVars
  /\ UNCHANGED loopVars /\ UNCHANGED initVars /\ UNCHANGED dataVars

Lin(c) == \/ LinInit(c) \/ LinPlay(c) \/ LinPause(c) \/ LinStop(c)
          \/ LinWait(c) \/ LinPush(c) \/ LinRead(c)

\* everything which happens without the clients nor the implementation
SilentBut(c) == Lin(c)
Silent == \/ \E c \in Clients : Lin(c)
          \/ InitPublish \/ InitDone
          \/ Complete \/ Go \/ IterRead \/ IterApply \/ Publish

-----------------------------------------------------------------------------
(* Properties                                                                *)
TypeOK ==
  /\ st \in Statuses
  /\ run \in {"none", "between", "armed", "iter", "read", "applied", "ended"}
  /\ iph \in {"none", "begun", "in", "out", "pub"}
  /\ iters >= 0 /\ pushed >= 0 /\ newData >= 0

\* C04: the loop is alive only while running or paused; an initialisation and
\* an execution exclude each other; a paused or ended algorithm is quiescent
OneLoop ==
  /\ (run # "none") <=> (st \in {"Running", "Idle"})
  /\ (iph # "none") <=> (st = "Initializing")
  /\ (st = "Idle") => run = "between"
  /\ run \in {"armed", "iter", "read", "applied", "ended"} => st = "Running"

\* C06: only a finished algorithm carries an error
ErrorOnlyFinished == er # "" => st = "Finished"

\* C01: workflow edges
Edges == [][st' # st => <<st, st'>> \in
            {<<"Created", "Initializing">>, <<"Finished", "Initializing">>,
             <<"Initializing", "Ready">>, <<"Initializing", "Running">>,
             <<"Initializing", "Finished">>, <<"Ready", "Running">>,
             <<"Running", "Ready">>, <<"Running", "Idle">>, <<"Idle", "Running">>,
             <<"Running", "Finished">>, <<"Idle", "Finished">>, <<"Ready", "Finished">>}]_vars

\* C05: an execution completes exactly when its condition holds
CompleteOnlyWhenDone == [][(st = "Running" /\ st' = "Ready") => Cond]_vars
NoExtraIteration == [][(run = "between" /\ run' = "armed") => ~Cond]_vars
CountersMove ==
  [][/\ iters' \in {iters, iters + 1, 0}
     /\ pushed' \in {pushed, pushed + 1, 0}
     /\ (iters' = iters + 1) => (ires.k = "ok" /\ clust' = ires.tok)]_vars

\* C10: data are only appended, and never change during an iteration
DataAppendOnly == [][Len(buf') >= Len(buf) /\ SubSeq(buf', 1, Len(buf)) = buf]_vars

\* C09: the last status change is the last notification still to come
NotifyLast == (cf.notif /\ nq # <<>>) => nq[Len(nq)] = <<st, er>>
=============================================================================

------------------------------ MODULE AlgoTrace ------------------------------
(* Validates histories recorded from the real code against Algo.             *)
(* Every trace is a record [id, cf, ev]; an event has a kind e, a time t (0.1 *)
(* ms, virtual) and arguments.  Calls and returns, initialisations, iterations*)
(* and notifications are logged; linearizations, publications, completions    *)
(* and timeouts are silent steps of Algo that TLC infers.  Clocks bound when  *)
(* they may and must happen.                                                  *)
EXTENDS Algo, TLC, TLCExt, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, cidx, callT, tsc, wsince, prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT, now,
          fg   \* time figures, as intervals (property C29)
clocks == <<callT, tsc, wsince, prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT, now, fg>>
tvars == <<vars, tid, l, cidx, clocks>>

Evs == Traces[tid].ev
Len0 == Len(Evs)
Ev == Evs[l]
T == Evs[l].t

Tol == cf.tol      \* instrumentation delays, at least 6 ms
Poll == 1000       \* 100 ms: polling period of Wait
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Period == cf.freq

\* registers: high-water mark and number of states of every trace
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0) /\ TLCSet(100000 + i, 0)
Limit == 250000

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ AlgoInit(Traces[tid].cf)
  /\ l = 1
  /\ cidx = [c \in Clients |-> 0]
  /\ callT = [c \in Clients |-> 0]
  /\ tsc = [c \in Clients |-> 0]
  /\ wsince = [c \in Clients |-> -1]
  /\ prog = 0 /\ lastTS = -1000000 /\ lastTE = 0 /\ credit = 0
  /\ runHi = 0 /\ ctlT = 0 /\ tlo = 0 /\ thi = 0 /\ now = 0
  /\ fg = [s |-> <<0, 0>>, acc |-> <<0, 0>>, nxt |-> <<0, 0>>, dur |-> <<0, 0>>,
           old |-> <<0, 0>>, endT |-> -1000000, ldt |-> <<-1, -1>>]

-----------------------------------------------------------------------------
Commands == {"Init", "Play", "Pause", "Stop"}
InIteration == run \in {"iter", "read", "applied"}
Polling(c) == pend[c].op # "none" /\ Task(c) = "Wait" /\ pend[c].ph = "polling"
Prompt(c) == \/ pend[c].op \notin {"none", "Wait", "Batch"}
             \/ pend[c].op = "Batch" /\ pend[c].stage <= 2

\* what must not happen so late as T
TimeOK ==
  /\ (st = "Running" /\ run \in {"between", "armed", "ended"}) =>
       T <= Max(Max(runHi, lastTE), lastTS + Period) + Tol
  /\ \A c \in Clients :
       /\ Prompt(c) => \/ InIteration \/ iph = "in"
                       \/ T <= Max(callT[c], prog) + Tol
       /\ Polling(c) =>
            /\ (wsince[c] >= 0 /\ WaitCond(c)) => T <= wsince[c] + Poll + Tol
            /\ WaitArg(c).dur > 0 => T <= callT[c] + WaitArg(c).dur + Poll + Tol
  /\ (tmr /\ st \in {"Running", "Idle"} /\ ~InIteration) =>
       T <= Max(thi + cf.tmo, Max(prog, Max(lastTE, lastTS + Period))) + Tol

(* C29: the duration figure is the time spent in the executions of the      *)
(* session, as of the last iteration or end of execution, and the last data  *)
(* time the second of the last accepted push, -1 if none.  Silent steps      *)
(* happen between the last event (now) and the next one (T).                 *)
SecondOf(t) == (cf.off + t) \div 10000
Minus(t1, t2) == <<Max(0, t1[1] - t2[2]), t1[2] - t2[1]>>
Plus(d1, d2) == <<d1[1] + d2[1], d1[2] + d2[2]>>
EndTime == <<now, IF st = "Running" /\ (st' = "Ready" \/ ires.k \in {"err", "panic"})
                  THEN Min(T, Max(Max(runHi, lastTE), lastTS + Period) + Tol) ELSE T>>
FigEvent == fg' = IF cf.figt /\ Ev.e = "te"
                  THEN [fg EXCEPT !.nxt = Plus(fg.acc, Minus(<<T, T>>, fg.s))] ELSE fg
FigStep ==
  fg' = IF ~cf.figt THEN fg
        ELSE IF iph = "none" /\ iph' = "begun"
        THEN IF st # "Finished" THEN fg
             ELSE [fg EXCEPT !.acc = <<0, 0>>, !.dur = <<0, 0>>, !.endT = -1000000, !.ldt = <<-1, -1>>]
        ELSE IF run # "none" /\ run' = "none"
        THEN LET d == Plus(fg.acc, Minus(EndTime, fg.s))
             IN [fg EXCEPT !.acc = d, !.dur = d, !.old = fg.dur, !.endT = EndTime[2]]
        ELSE IF run = "ended" /\ iters' = iters + 1
        THEN [fg EXCEPT !.dur = fg.nxt]
        ELSE [fg EXCEPT !.s = IF run = "none" /\ run' = "between" THEN <<now, T>> ELSE @,
                        !.ldt = IF pushed' = pushed + 1 THEN <<SecondOf(now), SecondOf(T)>> ELSE @]
Within(v, d, tol) == v >= d[1] - tol /\ v <= d[2] + tol
FiguresOK(c) ==
  (cf.figt /\ At(c, "Figures", "called") /\ pend'[c].ph = "done") =>
    LET f == Evs[cidx[c]].ft
    IN /\ \/ Within(f[1], fg.dur, Tol)
          \/ now <= fg.endT + Tol /\ Within(f[1], fg.old, Tol)
       /\ Within(f[2], fg.ldt, 0)

Consume ==
  /\ l <= Len0 /\ FigEvent /\ l' = l + 1 /\ now' = T /\ TimeOK /\ UNCHANGED tid
  /\ wsince' = [c \in Clients |-> IF Polling(c) /\ WaitCond(c)
                                  THEN IF wsince[c] < 0 THEN T ELSE wsince[c] ELSE -1]

EvCall ==
  /\ Ev.e = "call" /\ Consume
  /\ Call(Ev.c, Ev.op, Ev.arg)
  /\ cidx' = [cidx EXCEPT ![Ev.c] = l] /\ callT' = [callT EXCEPT ![Ev.c] = T]
  /\ tsc' = [tsc EXCEPT ![Ev.c] = 0]
  /\ UNCHANGED <<prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT>>

EvRet ==
  /\ Ev.e = "ret" /\ Consume /\ Return(Ev.c)
  /\ prog' = Max(prog, T)
  /\ ctlT' = IF pend[Ev.c].op \in Commands \cup {"Batch"} THEN T ELSE ctlT
  /\ UNCHANGED <<cidx, callT, tsc, lastTS, lastTE, credit, runHi, tlo, thi>>

EvInitStart ==
  /\ Ev.e = "is" /\ Consume /\ InitStart
  /\ cf.data => Ev.seen = LastN(buf', cf.frame)
  \* the implementation reads the state it is initialised in
  /\ Ev.sv # "" => Ev.sv = st /\ Ev.it = iters /\ Ev.cl = clust /\ Ev.pu <= pushed
  /\ UNCHANGED <<cidx, callT, tsc, prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT>>

EvInitEnd ==
  /\ Ev.e = "ie" /\ Consume /\ InitEnd(Ev.r)
  /\ prog' = Max(prog, T)
  /\ UNCHANGED <<cidx, callT, tsc, lastTS, lastTE, credit, runHi, tlo, thi, ctlT>>

\* the iteration is given the state published last
EvIterStart ==
  /\ Ev.e = "ts" /\ Consume /\ IterStart
  /\ Ev.it = iters /\ Ev.cl = clust /\ Ev.pu <= pushed /\ Ev.sv = st
  /\ (Period > 0 /\ credit = 0) => T >= lastTS + Period - Tol
  \* no iteration begins after the timeout, unless other commands come first
  /\ tmr => \/ T <= Max(thi + cf.tmo, ctlT) + Tol
             \/ \E c \in Clients : pend[c].op # "none" /\ Task(c) \in Commands
  /\ tsc' = [c \in Clients |->
       IF pend[c].op # "none" /\ pend[c].ph = "called" /\ Task(c) \in {"Pause", "Stop"}
       THEN tsc[c] + 1 ELSE tsc[c]]
  \* commands are served soon, their callers suspended for long apart
  /\ \A c \in Clients : tsc'[c] <= 7 + Max(0, cf.tol - 60)
  /\ lastTS' = T /\ credit' = Max(0, credit - 1)
  /\ UNCHANGED <<cidx, callT, prog, lastTE, runHi, tlo, thi, ctlT>>

EvIterEnd ==
  /\ Ev.e = "te" /\ Consume /\ IterEnd(Ev.r)
  /\ (cf.data /\ Ev.r.k = "ok") =>
       /\ Len(Ev.used) = Len(used)
       /\ {Ev.used[i] : i \in 1..Len(Ev.used)} = {used[i] : i \in 1..Len(used)}
  /\ lastTE' = T /\ prog' = Max(prog, Max(T, lastTS + Period))
  /\ UNCHANGED <<cidx, callT, tsc, lastTS, credit, runHi, tlo, thi, ctlT>>

EvNotified ==
  /\ Ev.e = "n" /\ Consume
  /\ nq # <<>> /\ Head(nq) = <<Ev.s, Ev.er>> /\ Notified
  /\ UNCHANGED <<cidx, callT, tsc, prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT>>

\* end of the history: nothing pending, every change notified, no snapshot
\* has changed since it was returned, nothing crashed, nothing is left running
EvEnd ==
  /\ Ev.e = "end" /\ Consume
  /\ \A c \in Clients : pend[c] = NoCall
  /\ nq = <<>> \/ Ev.nb
  /\ Ev.mut = 0 /\ Ev.crash = "" /\ Ev.left = 0
  /\ UNCHANGED vars
  /\ UNCHANGED <<cidx, callT, tsc, prog, lastTS, lastTE, credit, runHi, tlo, thi, ctlT>>

-----------------------------------------------------------------------------
Expected(c) == Evs[cidx[c]].res
ResultsOK == \A c \in Clients :
  (pend'[c].op # "none" /\ pend'[c].ph = "done" /\ pend[c].ph # "done")
    => pend'[c].res = Expected(c)

SilentStep ==
  /\ l <= Len0
  /\ \/ Silent /\ (\A c \in Clients :
            \* a Wait never times out early
            (Polling(c) /\ pend'[c].ph = "done" /\ pend'[c].res = Res("timeout"))
               => T >= callT[c] + WaitArg(c).dur)
     \/ TimeoutFires /\ T >= tlo + cf.tmo
     \/ TimeoutVoid /\ T >= tlo + cf.tmo
  /\ ResultsOK /\ FigStep /\ \A c \in Clients : FiguresOK(c)
  /\ IF run = "none" /\ run' = "between"
     THEN /\ runHi' = T /\ credit' = 1 /\ tlo' = now /\ thi' = T
     ELSE IF st = "Idle" /\ st' = "Running"
          THEN runHi' = T /\ credit' = 2 /\ UNCHANGED <<tlo, thi>>
          ELSE UNCHANGED <<runHi, credit, tlo, thi>>
  /\ wsince' = IF st' # st THEN [c \in Clients |-> -1] ELSE wsince
  /\ UNCHANGED <<tid, l, cidx, callT, tsc, prog, lastTS, lastTE, ctlT, now>>

TraceNext == \/ (l <= Len0 /\ (EvCall \/ EvRet \/ EvInitStart \/ EvInitEnd \/ EvIterStart
                               \/ EvIterEnd \/ EvNotified \/ EvEnd))
             \/ SilentStep

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* high-water mark of every trace; an accepted trace is not explored further,
\* one with too many explanations is given up
Mark == /\ (l > TLCGet(tid) => TLCSet(tid, l))
        /\ TLCSet(100000 + tid, TLCGet(100000 + tid) + 1)
        /\ (l > Len0 \/ TLCGet(tid) <= Len0)
        /\ TLCGet(100000 + tid) < Limit

Unexplained == SelectSeq([i \in 1..Len(Traces) |-> <<i, TLCGet(i), Len(Traces[i].ev)>>],
                         LAMBDA x : x[2] <= x[3])
Rejected == SelectSeq(Unexplained, LAMBDA x : TLCGet(100000 + x[1]) < Limit)
GivenUp == SelectSeq(Unexplained, LAMBDA x : TLCGet(100000 + x[1]) >= Limit)
Accepted == /\ PrintT(<<"TRACES", Len(Traces)>>)
            /\ PrintT(<<"GIVENUP", Len(GivenUp)>>)
            /\ \A i \in 1..Len(Rejected) :
                 PrintT(<<"REJECTED", Rejected[i][1], Rejected[i][2], Rejected[i][3]>>)

\* invariants of Algo evaluated on every state of every explanation
TraceInv == TypeOK /\ OneLoop /\ ErrorOnlyFinished
=============================================================================

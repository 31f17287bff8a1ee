------------------------------ MODULE AlgoTour ------------------------------
(* Stimulus sequences for the real code: TLC explores Algo with calls and     *)
(* iteration/initialisation outcomes as the only choices, every other step    *)
(* being taken as soon as possible, and prints, for every abstract state and  *)
(* every stimulus possible in it, a shortest sequence leading there.  The     *)
(* harness replays them with iterations held at gates; the histories obtained *)
(* are then validated by AlgoTrace.                                           *)
EXTENDS Algo, TLC, SequencesExt
CONSTANTS MaxWords, TourConfs, TourOps, MaxPushed
VARIABLES hist, tok
tourvars == <<vars, hist, tok>>

Conf0 == [iter |-> 0, ipd |-> 0, dpi |-> 0, tmo |-> 0, fin |-> NilFin, notif |-> FALSE,
          data |-> FALSE, frame |-> 0, base |-> <<>>]
Budget == [Conf0 EXCEPT !.iter = 2]
Restart == [Conf0 EXCEPT !.ipd = 1, !.dpi = 1]
Timed == [Conf0 EXCEPT !.tmo = 1]
Confs1 == {Budget}
Confs2 == {Restart}
Confs3 == {Timed}

TourInit == /\ \E c0 \in TourConfs : AlgoInit(c0)
            /\ hist = <<>> /\ tok = 1

Arg(op) == CASE op = "Push" -> [el |-> 1, refuse |-> FALSE]
             [] op = "Wait" -> [fin |-> NilFin, dur |-> 0]
             [] OTHER -> [x |-> 0]

Urgent == \/ (Silent \/ InitStart \/ IterStart) /\ UNCHANGED <<hist, tok>>
          \/ \E c \in Clients : Return(c) /\ UNCHANGED <<hist, tok>>

Word(w) == hist' = Append(hist, w)
First(c) == \A d \in Clients : d < c => pend[d].op # "none"  \* clients are interchangeable

Stimulus ==
  \/ \E c \in Clients, op \in TourOps :
       /\ First(c) /\ (op = "Push" => pushed < MaxPushed)
       /\ Call(c, op, Arg(op)) /\ Word(ToString(c) \o ":" \o op) /\ UNCHANGED tok
  \/ \E o \in {"ok", "nil", "err", "panic"} :
       /\ IterEnd(IF o = "ok" THEN [k |-> "ok", tok |-> 1, fig |-> 1]
                  ELSE IF o = "nil" THEN [k |-> "nil"] ELSE [k |-> o, e |-> "F"])
       /\ Word(o) /\ UNCHANGED tok
  \/ \E o \in {"iok", "ierr"} :
       /\ InitEnd(IF o = "iok" THEN [k |-> "ok", tok |-> 1] ELSE [k |-> "err", e |-> "E"])
       /\ Word(o) /\ UNCHANGED tok
  \/ TimeoutFires /\ Word("t") /\ UNCHANGED tok

TourNext == \/ Urgent
            \/ ~ENABLED Urgent /\ Len(hist) < MaxWords /\ Stimulus

TourSpec == TourInit /\ [][TourNext]_tourvars

\* what distinguishes two situations
View == <<st, er, run, ires, iph, inres, tmr, clust,
          IF cf.iter > 0 THEN iters ELSE IF iters > 0 THEN 1 ELSE 0, pushed,
          IF newData > cf.dpi THEN cf.dpi + 1 ELSE newData,
          {<<pend[c].op, IF pend[c].op = "none" THEN <<>> ELSE <<pend[c].ph, pend[c].stage>>>> : c \in Clients},
          Cardinality({c \in Clients : pend[c].op # "none"})>>

\* print every stimulus sequence
Joined(s) == FoldLeft(LAMBDA a, b : a \o " " \o b, "TOUR", s)
Print1 == hist' # hist => PrintT(Joined(hist'))
=============================================================================

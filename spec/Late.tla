-------------------------------- MODULE Late --------------------------------
(* A late distribution is built exactly once, before its first use (C21).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* s: open calls (caller to elements passed), building, built (0: not yet)
LateStart == [ok |-> TRUE, open |-> [i \in {} |-> {}], building |-> FALSE, built |-> 0]
LateEvent(s, e) ==
  IF ~s.ok THEN s
  ELSE CASE e.t = "call"  ->
              [s EXCEPT !.open = [i \in DOMAIN @ \cup {e.i} |->
                                    IF i = e.i THEN {e.els[k] : k \in 1..Len(e.els)} ELSE @[i]]]
         [] e.t = "build" ->
              [s EXCEPT !.building = TRUE,
                        !.ok = ~s.building /\ s.built = 0 /\ \E i \in DOMAIN s.open : e.el \in s.open[i]]
         [] e.t = "built" -> [s EXCEPT !.building = FALSE, !.built = e.by, !.ok = s.building]
         [] e.t = "ret"   ->
              [s EXCEPT !.open = [i \in DOMAIN @ \ {e.i} |-> @[i]],
                        !.ok = s.built > 0 /\ e.by = s.built /\ e.ok]
         [] OTHER -> [s EXCEPT !.ok = FALSE]
LateOK(c) ==
  LET s == FoldLeft(LateEvent, LateStart, c.ev)
  IN s.ok /\ ~s.building /\ (Len(c.ev) > 0 => s.built > 0)
=============================================================================

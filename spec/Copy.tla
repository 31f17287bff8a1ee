-------------------------------- MODULE Copy --------------------------------
(* A copy starts from the data its original iterates on and is independent   *)
(* (property C24).  The data of the original are the elements 1..pushed, of  *)
(* which it keeps the last ones when it has a frame; those of a copy are the *)
(* copied ones followed by the elements pushed to it.  Every iteration       *)
(* reveals the data it uses, which must all be in a single cluster.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LastOf(s, f) == IF f > 0 /\ Len(s) > f THEN SubSeq(s, Len(s) - f + 1, Len(s)) ELSE s
DataOf(q, f) == LastOf([i \in 1..q |-> i], f)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Exactly(ids, data) == Len(ids) = Len(data) /\ SetOf(ids) = SetOf(data)

\* candidates for the number of elements of the data, given those of an iteration
CopyEvent(c, s, e) ==
  IF ~s.ok THEN s
  ELSE CASE e.t = "push" ->
              [s EXCEPT !.p = IF e.alive THEN @ ELSE e.pushed, !.ok = e.quiet]
    [] e.t = "err" -> [s EXCEPT !.ok = s.p = 0]
    [] e.t = "init" ->
         [s EXCEPT !.p = e.pushed,
                   !.ok = e.quiet /\ e.pushed > 0 /\ e.ids = << Head(DataOf(e.pushed, c.frame)) >>]
    [] e.t = "iter" ->
         LET Q == {q \in s.p..e.pushed : Exactly(e.ids, DataOf(q, c.frame))}
         IN IF Q = {} \/ ~e.quiet THEN [s EXCEPT !.ok = FALSE]
            ELSE LET q == CHOOSE x \in Q : TRUE
                     upto(k) == IF k.open THEN [k EXCEPT !.Q = {x \in @ : x <= q}, !.open = FALSE] ELSE k
                     cs == [i \in 1..Len(s.copies) |-> upto(s.copies[i])]
                 IN [s EXCEPT !.p = q, !.copies = cs, !.ok = \A i \in 1..Len(cs) : cs[i].Q # {}]
    [] e.t = "copy" ->
         [s EXCEPT !.ok = e.fresh /\ e.given /\ e.quiet,
                   !.copies = Append(@, [Q |-> s.p..e.pushed, fr |-> e.fr, open |-> TRUE])]
    [] e.t = "crun" ->
         LET k == s.copies[e.c]
             data(q) == LastOf(DataOf(q, c.frame) \o e.cp, k.fr)
             Q == IF ~e.ran THEN k.Q
                  ELSE IF e.err THEN {q \in k.Q : data(q) = <<>>}
                  ELSE {q \in k.Q : data(q) # <<>> /\ Exactly(e.ids, data(q))}
         IN [s EXCEPT !.copies[e.c].Q = Q, !.ok = Q # {} /\ e.quiet]
    [] OTHER -> [s EXCEPT !.ok = FALSE]
CopyOK(c) ==
  /\ FoldLeft(LAMBDA s, e : CopyEvent(c, s, e), [ok |-> TRUE, p |-> c.n0, copies |-> <<>>], c.ev).ok
  /\ c.foreign = 0

\* Streaming algorithms and their copies, when every element becomes a centre:
\* q are the elements given to each, n of which have been consumed.  A copy is
\* given the centres of its original, its buffer has to be large enough.
StreamCopyEvent(s, e) ==
  IF ~s.ok \/ ~e.quiet THEN [s EXCEPT !.ok = FALSE]
  ELSE LET a == s.algos[e.a]
       IN CASE e.t = "push" ->
                 [s EXCEPT !.ok = e.ok <=> Len(a.q) - a.n < a.size,
                           !.algos[e.a].q = IF e.ok THEN Append(@, e.id) ELSE @]
            [] e.t = "run" ->
                 IF a.q = <<>> THEN [s EXCEPT !.ok = e.err /\ e.cs = <<>>]
                 ELSE [s EXCEPT !.algos[e.a].n = e.target,
                                !.ok = ~e.err /\ e.target >= a.n /\ e.cs = SubSeq(a.q, 1, e.target)]
            [] e.t = "copy" ->
                 IF e.refused THEN [s EXCEPT !.ok = e.size < a.n]
                 ELSE [s EXCEPT !.ok = e.size >= a.n /\ e.fresh /\ e.given,
                                !.algos = Append(@, [q |-> SubSeq(a.q, 1, a.n), n |-> 0, size |-> e.size])]
            [] e.t = "stop" -> s
            [] OTHER -> [s EXCEPT !.ok = FALSE]
StreamCopyOK(c) ==
  /\ FoldLeft(StreamCopyEvent, [ok |-> TRUE, algos |-> <<[q |-> [i \in 1..c.n0 |-> i], n |-> 0, size |-> c.size]>>], c.ev).ok
  /\ c.foreign = 0
=============================================================================

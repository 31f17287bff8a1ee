-------------------------------- MODULE Repro --------------------------------
(* Reproducibility (C30).  An algorithm is a deterministic machine over its   *)
(* configuration, its data, its own random sources and the calls it receives: *)
(* the published clusterings and figures are a function of these, whatever    *)
(* the schedule of its workers and whatever else runs in the process.         *)
(* A case records several runs of one setting; clusterings and figures are    *)
(* identified by numbers, equal exactly when their contents are equal.        *)
EXTENDS Naturals, Sequences

Memo(run) == [n \in 0..Len(run.ev) |-> SubSeq(run.ev, 1, n)]
\* two runs of equal inputs: the histories published are equal, prefix by prefix
Agree(a, b) == a.seed = b.seed => /\ Len(a.ev) = Len(b.ev)
                                  /\ \A n \in 0..Len(a.ev) : Memo(a)[n] = Memo(b)[n]
ReproOK(c) == \A i, j \in 1..Len(c.runs) : i < j => Agree(c.runs[i], c.runs[j])
==============================================================================

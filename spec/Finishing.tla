------------------------------ MODULE Finishing ------------------------------
(* Finishing conditions of core/finish.go as boolean logic over an observed  *)
(* state: status s with error e ("" when none), iteration figure it, pushed  *)
(* data figure pu.  A condition is an abstract syntax tree (property C22).   *)
EXTENDS Integers, Sequences

NilFin == [t |-> "nil"]
IterFin(n, p) == [t |-> "iter", n |-> n, p |-> p]
StatusFin(e, s) == [t |-> "status", e |-> e, s |-> s]

RECURSIVE FinHolds(_, _, _, _, _)
FinHolds(f, s, e, it, pu) ==
  CASE f.t = "nil"    -> FALSE
    [] f.t = "iter"   -> (f.n > 0 \/ f.p > 0) /\ it >= f.n + pu * f.p
    [] f.t = "status" -> \/ f.e /\ e # ""
                         \/ \E i \in 1..Len(f.s) : f.s[i] = s
    [] f.t = "and"    -> /\ Len(f.l) > 0
                         /\ \A i \in 1..Len(f.l) : FinHolds(f.l[i], s, e, it, pu)
    [] f.t = "or"     -> \E i \in 1..Len(f.l) : FinHolds(f.l[i], s, e, it, pu)
=============================================================================

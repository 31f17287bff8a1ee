-------------------------------- MODULE FinMC --------------------------------
(* Laws of finishing conditions (C22, C05) for all small conditions over all *)
(* small observed states.                                                    *)
EXTENDS Finishing, TLC
CONSTANTS Depth, It, Pu
Sts == {"Created", "Ready", "Running", "Idle", "Finished"}
Leaves == {NilFin} \cup {IterFin(n, p) : n \in 0..2, p \in 0..2}
          \cup {StatusFin(e, q) : e \in BOOLEAN, q \in {<<>>, <<"Ready">>, <<"Idle", "Finished">>}}
Level(L) == L \cup {[t |-> o, l |-> q] : o \in {"and", "or"}, q \in {<<>>} \cup {<<x>> : x \in L} \cup {<<x, y>> : x \in L, y \in Leaves}}
All == IF Depth = 1 THEN Level(Leaves) ELSE Level(Level(Leaves))
VARIABLES f, s, e, it, pu
vars == <<f, s, e, it, pu>>
Init == /\ f \in All /\ s \in Sts /\ e \in {"", "E"} /\ (e # "" => s = "Finished") /\ it = 0 /\ pu = 0
Iterate == it < It /\ it' = it + 1 /\ UNCHANGED <<f, s, e, pu>>
Push == pu < Pu /\ pu' = pu + 1 /\ UNCHANGED <<f, s, e, it>>
Spec == Init /\ [][Iterate \/ Push]_vars
H(g) == FinHolds(g, s, e, it, pu)
And(q) == [t |-> "and", l |-> q]
Or(q) == [t |-> "or", l |-> q]
Laws ==
  /\ H(And(<<f>>)) = H(f) /\ H(Or(<<f>>)) = H(f)
  /\ H(And(<<f, f>>)) = H(f) /\ H(Or(<<f, f>>)) = H(f)
  /\ H(And(<<f, NilFin>>)) = FALSE /\ H(Or(<<f, NilFin>>)) = H(f)
  /\ H(And(<<Or(<<f, NilFin>>), f>>)) = H(f)
  /\ H(And(<<>>)) = FALSE /\ H(Or(<<>>)) = FALSE
  /\ H(IterFin(0, 0)) = FALSE /\ H(NilFin) = FALSE
  /\ H(IterFin(it, 0)) = (it > 0) /\ H(IterFin(it + 1, 0)) = FALSE
  /\ \A g \in Leaves : H(And(<<f, g>>)) = (H(f) /\ H(g)) /\ H(Or(<<g, f>>)) = (H(f) \/ H(g))
                       /\ H(And(<<g, f>>)) = H(And(<<f, g>>))
\* iterations only bring the end closer, pushed data only push it away
Monotone == [][/\ (it' > it /\ H(f)) => FinHolds(f, s, e, it', pu)
               /\ (pu' > pu /\ ~H(f)) => ~FinHolds(f, s, e, it, pu')]_vars
=============================================================================

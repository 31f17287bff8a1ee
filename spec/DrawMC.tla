------------------------------- MODULE DrawMC --------------------------------
(* The weighted draw of kmeans/init.go (C27), weight by weight: a cursor is  *)
(* moved through the weights until it is below one of them; rounding may     *)
(* leave it above the last.  For all small weights and drawn fractions u/64, *)
(* the result is one that DrawOK accepts.                                    *)
EXTENDS Clustering
CONSTANTS N, MaxW, Us
NoIdx == -1
NullIdx == -2
VARIABLES w, u, i, cursor, last, res
vars == <<w, u, i, cursor, last, res>>
Sum == SumI(w)
Init == /\ w \in UNION {[1..n -> 0..MaxW] : n \in 0..N} /\ u \in Us
        /\ i = 1 /\ cursor = u * SumI(w) /\ last = 0 /\ res = IF SumI(w) = 0 THEN NullIdx ELSE NoIdx
Step == /\ res = NoIdx /\ i <= Len(w)
        /\ IF w[i] > 0 /\ cursor <= 64 * w[i] THEN res' = i - 1 /\ UNCHANGED <<i, cursor, last>>
           ELSE /\ last' = (IF w[i] > 0 THEN i - 1 ELSE last) /\ i' = i + 1
                \* rounding upwards, by less than a weight
                /\ \E e \in {0, 1} : cursor' = cursor - 64 * w[i] + e
                /\ UNCHANGED res
        /\ UNCHANGED <<w, u>>
Over == res = NoIdx /\ i > Len(w) /\ res' = last /\ UNCHANGED <<w, u, i, cursor, last>>
Spec == Init /\ [][Step \/ Over]_vars /\ WF_vars(Step \/ Over)
\* the tolerance of one unit for every rounding is that of the drawn fraction
Accepted == res # NoIdx =>
  DrawOK([w |-> w, idx |-> IF res = NullIdx THEN 0 ELSE res, err |-> IF res = NullIdx THEN "null" ELSE "",
          used |-> 1, ulo |-> MaxI(0, u - 1), uhi |-> u + N, mut |-> FALSE])
Ends == <>(res # NoIdx)
=============================================================================

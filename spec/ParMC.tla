-------------------------------- MODULE ParMC -------------------------------
(* The parallel helper and a parallel reduction (C12, C13): workers process  *)
(* the elements of disjoint slices one at a time, in any interleaving, each  *)
(* into its own partial result; partial results are then merged.             *)
EXTENDS Rat
CONSTANTS Size, Degree, Vals, K
VARIABLES data, lab, pos, part, result
vars == <<data, lab, pos, part, result>>

\* worker r (from 0) has elements Start(r)+1 .. Start(r+1)
Start(r) == LET q == Size \div Degree  m == Size % Degree
            IN r * q + MaxI(0, r - (Degree - m))
Workers == 0..(Degree - 1)
Zero == [l \in 1..K |-> [n |-> 0, sum |-> 0, sq |-> 0]]
Absorb(p, x, l) == [p EXCEPT ![l] = [n |-> @.n + 1, sum |-> @.sum + x, sq |-> @.sq + x * x]]
Merge(p, q) == [l \in 1..K |-> [n |-> p[l].n + q[l].n, sum |-> p[l].sum + q[l].sum, sq |-> p[l].sq + q[l].sq]]
Sequential == FoldLeft(LAMBDA p, i : Absorb(p, data[i], lab[i]), Zero, [i \in 1..Size |-> i])

Init == /\ data \in [1..Size -> Vals] /\ lab \in [1..Size -> 1..K]
        /\ pos = [r \in Workers |-> Start(r)] /\ part = [r \in Workers |-> Zero] /\ result = <<>>
Work(r) == /\ pos[r] < Start(r + 1)
           /\ pos' = [pos EXCEPT ![r] = @ + 1]
           /\ part' = [part EXCEPT ![r] = Absorb(@, data[pos[r] + 1], lab[pos[r] + 1])]
           /\ UNCHANGED <<data, lab, result>>
Finish == /\ result = <<>> /\ \A r \in Workers : pos[r] = Start(r + 1)
          /\ result' = FoldLeft(LAMBDA p, r : Merge(p, part[r]), Zero, [r \in 1..Degree |-> r - 1])
          /\ UNCHANGED <<data, lab, pos, part>>
Next == Finish \/ \E r \in Workers : Work(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* slices are disjoint and cover every index
CoverOK == /\ Start(0) = 0 /\ Start(Degree) = Size
           /\ \A r \in Workers : Start(r) <= Start(r + 1) /\ Start(r + 1) - Start(r) <= Size \div Degree + 1
\* no element is counted twice, at any time
CountOK == LET done == {x \in 1..Size : \E r \in Workers : x > Start(r) /\ x <= pos[r]}
           IN SumI([r \in 1..Degree |-> SumI([l \in 1..K |-> part[r-1][l].n])]) = Cardinality(done)
SameOK == result # <<>> => result = Sequential
Finishes == <>(result # <<>>)
=============================================================================

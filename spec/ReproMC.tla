------------------------------- MODULE ReproMC -------------------------------
(* Why the published clusterings are reproducible (C30), on a small model:    *)
(* algorithms 1..A each iterate R times; an iteration draws a number from the *)
(* algorithm's own source, shares it out to W workers that end in any order   *)
(* (all algorithms interleaved), then folds the parts in the order of ranks.  *)
(* The fold is not commutative nor associative, as with floating points.      *)
EXTENDS Naturals, Sequences
CONSTANTS A, R, W
VARIABLES src,   \* position in the source of each algorithm
          parts, \* parts computed by the workers of each algorithm
          out    \* clusterings published by each algorithm
vars == <<src, parts, out>>
Algos == 1..A
None == <<>>
\* the n-th draw of the source of an algorithm, the part of a worker
Draw(a, n) == <<"draw", a, n>>
Part(a, n, w) == <<"part", Draw(a, n), w>>
RECURSIVE Fold(_, _)
Fold(s, n) == IF n = 1 THEN s[1] ELSE <<Fold(s, n - 1), s[n]>>
Init == /\ src = [a \in Algos |-> 0]
        /\ parts = [a \in Algos |-> [w \in 1..W |-> None]]
        /\ out = [a \in Algos |-> <<>>]
Work(a, w) == /\ Len(out[a]) < R /\ parts[a][w] = None
              /\ parts' = [parts EXCEPT ![a][w] = Part(a, src[a], w)]
              /\ UNCHANGED <<src, out>>
Publish(a) == /\ \A w \in 1..W : parts[a][w] # None
              /\ out' = [out EXCEPT ![a] = Append(@, Fold(parts[a], W))]
              /\ parts' = [parts EXCEPT ![a] = [w \in 1..W |-> None]]
              /\ src' = [src EXCEPT ![a] = @ + 1]
Next == \E a \in Algos : Publish(a) \/ \E w \in 1..W : Work(a, w)
Spec == Init /\ [][Next]_vars
\* what an algorithm publishes when it runs alone, its workers in order
Alone(a) == [n \in 1..R |-> Fold([w \in 1..W |-> Part(a, n - 1, w)], W)]
Reproducible == \A a \in Algos : out[a] = SubSeq(Alone(a), 1, Len(out[a]))
==============================================================================

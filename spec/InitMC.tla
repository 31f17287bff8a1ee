------------------------------- MODULE InitMC --------------------------------
(* The initialisers of kmeans/init.go (C15), draw by draw, on all small data:*)
(* what they give is what InitOK accepts, and they do not run for ever.      *)
(* Elements have a value and a class; elements of a class are at distance 0. *)
EXTENDS Clustering
CONSTANTS N, Vals, Classes, MaxK
VARIABLES data, kk, how, chosen, err, ph
vars == <<data, kk, how, chosen, err, ph>>
Cls(v) == v % Classes
Init == /\ data \in UNION {[1..n -> Vals] : n \in 0..N} /\ kk \in -1..MaxK /\ how \in {"given", "rand", "pp"}
        /\ chosen = <<>> /\ err = FALSE /\ ph = "check"
Check == /\ ph = "check"
         /\ IF kk < 1 \/ Len(data) < kk THEN err' = TRUE /\ ph' = "end" ELSE err' = err /\ ph' = "draw"
         /\ UNCHANGED <<data, kk, how, chosen>>
Weight(i) == IF chosen = <<>> THEN 1
             ELSE Min({AbsI(Cls(data[i]) - Cls(data[chosen[j]])) : j \in 1..Len(chosen)})
Draw == /\ ph = "draw" /\ Len(chosen) < kk
        /\ CASE how = "given" -> chosen' = Append(chosen, Len(chosen) + 1) /\ UNCHANGED <<err, ph>>
             [] how = "rand"  -> \E i \in 1..Len(data) :
                                   chosen' = (IF i \in Range(chosen) THEN chosen ELSE Append(chosen, i)) /\ UNCHANGED <<err, ph>>
             [] how = "pp"    -> IF \A i \in 1..Len(data) : Weight(i) = 0
                                 THEN err' = TRUE /\ ph' = "end" /\ UNCHANGED chosen
                                 ELSE \E i \in 1..Len(data) : Weight(i) > 0 /\ chosen' = Append(chosen, i) /\ UNCHANGED <<err, ph>>
        /\ UNCHANGED <<data, kk, how>>
Finish == ph = "draw" /\ Len(chosen) = kk /\ ph' = "end" /\ UNCHANGED <<data, kk, how, chosen, err>>
Next == Check \/ Draw \/ Finish
\* random draws are fair: an element not yet chosen is chosen at last
NewDraw == Draw /\ chosen' # chosen
Spec == Init /\ [][Next]_vars /\ WF_vars(Check) /\ WF_vars(Finish) /\ SF_vars(Draw) /\ WF_vars(NewDraw)
Given == ph = "end" => InitOK([data |-> data, kk |-> kk, init |-> how, cls |-> [i \in 1..Len(data) |-> Cls(data[i])],
                               err |-> err, res |-> IF err THEN <<>> ELSE [i \in 1..kk |-> data[chosen[i]]], mut |-> FALSE])
Distinct == how # "pp" => \A i, j \in 1..Len(chosen) : i # j => chosen[i] # chosen[j]
Ends == <>(ph = "end")
=============================================================================

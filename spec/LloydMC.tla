------------------------------ MODULE LloydMC -------------------------------
(* k-means on small data: pushes and iterations interleaved, with a frame    *)
(* (C14, C10 seen from the algorithm).                                       *)
EXTENDS Lloyd
CONSTANTS N, Val, K, Frame
VARIABLES all, clust, changed, iters
vars == <<all, clust, changed, iters>>
Data == Window(all, Len(all), Frame)
Init ==
  /\ all \in UNION {[1..n -> {<<v>> : v \in Val}] : n \in K..N}
  /\ clust = GivenInit(Data, K)
  /\ changed = TRUE /\ iters = 0
Push == /\ Len(all) < N
        /\ \E v \in Val : all' = Append(all, <<v>>)
        /\ changed' = TRUE /\ iters' = 0 /\ UNCHANGED clust
\* an iteration; iters counts those which change something since the last push
Iterate == /\ clust' = LloydStep(clust, Data)
           /\ changed' = (clust' # clust)
           /\ iters' = IF changed' THEN iters + 1 ELSE iters
           /\ UNCHANGED all
Next == Push \/ Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Iterate)

CountOK == Len(clust) = K
DataOK == Len(Data) = IF Frame > 0 THEN MinI(Frame, Len(all)) ELSE Len(all)
\* every centroid is in the hull of the data seen so far
HullOK == \A c \in 1..K : \E i, j \in 1..Len(all) : RLe(R(all[i][1]), clust[c][1]) /\ RLe(clust[c][1], R(all[j][1]))
\* the loss never increases on unchanged data
LossOK == LET next == LloydStep(clust, Data) IN RLe(Loss2(next, Data), Loss2(clust, Data))
\* a fixed point stays, and is reached within the number of partitions
FixOK == LET next == LloydStep(clust, Data) IN ClustEq(next, clust) => ClustEq(LloydStep(next, Data), next)
\* what attracts no data is kept, what attracts some is their average
StepOK ==
  LET lab == [i \in 1..Len(Data) |-> First(Dists(Data[i], clust))]  next == LloydStep(clust, Data)
  IN \A c \in 1..K :
       LET S == {i \in 1..Len(Data) : lab[i] = c}
       IN IF S = {} THEN VecEq(next[c], clust[c])
          ELSE REq(RMul(next[c][1], R(Cardinality(S))), R(FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in S |-> Data[i][1]], S)))
\* when ties may be broken in any way, the step is one of the possible ones
TiesOK == LET S == LloydSteps(clust, Data, FALSE) IN S = {} \/ LloydStep(clust, Data) \in S
\* a fixed point is reached, within as many iterations as there are partitions
IterBound == iters <= PowI(K, Len(Data))
FixReached == []<>(changed = FALSE \/ Len(all) < N)
=============================================================================

------------------------------- MODULE McmcMC -------------------------------
(* The Markov chain and its store of centres on small data (C19, C20).       *)
EXTENDS Mcmc
CONSTANTS N, N0, Vals, InitK, MaxK, Proba, Frame, MaxIt
Moves == <<1, 8, 1>>
VARIABLES all, clust, m, acc, iters, how
vars == <<all, clust, m, acc, iters, how>>
Data == Window(all, Len(all), Frame)
Chain == [maxk |-> MaxK, proba |-> Proba]

Init == /\ all \in [1..N0 -> {<<v>> : v \in Vals}]
        /\ clust = GivenInit(Data, InitK)
        /\ m = NoCenters /\ acc = 0 /\ iters = 0 /\ how = "init"
Push == /\ Len(all) < N /\ \E v \in Vals : all' = Append(all, <<v>>)
        /\ how' = "push" /\ UNCHANGED <<clust, m, acc, iters>>
\* clusterings that may be proposed with k centres
Proposals(k) == {LloydStep(x, Data) : x \in GetResults(m, Data, k, clust, Same)}
Ks == NextKs(Chain, Len(clust), clust, Data)
Iterate ==
  /\ iters < MaxIt
  /\ \E k \in Ks : \E x \in Proposals(k) :
       \/ /\ clust' = x /\ m' = Put(m, x) /\ acc' = acc + 1 /\ how' = "accepted"
       \/ /\ UNCHANGED <<clust, m, acc>> /\ how' = "rejected"
  /\ iters' = iters + 1 /\ UNCHANGED all
\* a new session may begin at any time; the store is kept, or not
Restart == /\ clust' = GivenInit(Data, InitK) /\ acc' = 0 /\ iters' = 0 /\ how' = "init"
           /\ m' \in {m, NoCenters} /\ UNCHANGED all
Next == Push \/ Iterate \/ Restart
Spec == Init /\ [][Next]_vars

BoundsOK == Len(clust) >= 1 /\ Len(clust) <= MaxI(MaxK, InitK) /\ Len(clust) <= Len(all)
AccOK == acc <= iters
\* some proposal is always possible
Lively == Ks # {} /\ \A k \in Ks : k >= 1 /\ k <= MaxK /\ k <= Len(Data) =>
             (k \in DOMAIN m \/ k <= Len(clust) \/ Addable(Data, clust, Same) # {} => Proposals(k) # {})
\* no set of possible proposals is empty for every move
CanStep == (\E k \in Ks : Proposals(k) # {})
StoreSizes == \A k \in DOMAIN m : Len(m[k]) = k /\ k <= MaxK
\* neighbours of the current clustering
GenOK == \A k \in {Len(clust) - 1, Len(clust), Len(clust) + 1} \ {0} :
  \A g \in Generated(Data, k, clust, Same) :
    /\ Len(g) = k
    /\ k = Len(clust) => ClustEq(g, clust)
    /\ k > Len(clust) => /\ ClustEq(SubSeq(g, 1, k - 1), clust)
                         /\ \E i \in 1..Len(Data) : Same(Data[i], g[k])
                         /\ \A j \in 1..(k - 1) : ~VecEq(g[j], g[k])
    /\ k < Len(clust) => \E d \in 1..Len(clust) : ClustEq(g, Without(clust, d))
NoneOK == \A k \in {Len(clust) + 1} :
  Generated(Data, k, clust, Same) = {} <=> \A i \in 1..Len(Data) : \E j \in 1..Len(clust) : Same(Data[i], clust[j])
\* all neighbours are possible when there are several
AllOK == Len(clust) > 1 => Cardinality(Generated(Data, Len(clust) - 1, clust, Same)) =
           Cardinality({Without(clust, d) : d \in 1..Len(clust)})
\* the largest set of proposals is at the closest data
MoveOK == [][how' \in {"accepted", "rejected"} =>
  /\ AbsI(Len(clust') - Len(clust)) <= 1
  /\ (how' = "rejected" => clust' = clust /\ m' = m /\ acc' = acc)
  /\ (how' = "accepted" => acc' = acc + 1 /\ m'[Len(clust')] = clust')]_vars
=============================================================================

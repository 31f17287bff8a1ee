------------------------------- MODULE Lloyd --------------------------------
(* k-means: one iteration is exactly one Lloyd step (property C14).  Vectors *)
(* are sequences of rationals, data are integer vectors.                     *)
EXTENDS Rat, TLC

Vec(x) == [i \in 1..Len(x) |-> R(x[i])]
RD2(x, c) == SumR([i \in 1..Len(x) |-> RMul(RSub(R(x[i]), c[i]), RSub(R(x[i]), c[i]))])
RD1(x, c) == SumR([i \in 1..Len(x) |-> RAbs(RSub(R(x[i]), c[i]))])

\* distances of x to the centroids of a clustering, and the nearest ones
Dists(x, clust) == TLCEval([i \in 1..Len(clust) |-> RD2(x, clust[i])])
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
First(ds) == FoldLeft(LAMBDA best, i : IF RLt(ds[i], ds[best]) THEN i ELSE best, 1, [i \in 1..Len(ds) |-> i])
Minimal(ds) == LET f == First(ds) IN {i \in 1..Len(ds) : RLe(ds[i], ds[f])}

\* average of the data of indices S (not empty)
MeanOf(data, S) ==
  LET n == Cardinality(S)
      sum(j) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in S |-> data[i][j]], S)
  IN [j \in 1..Len(data[CHOOSE i \in S : TRUE]) |-> Reduced(<<sum(j), n>>)]

\* new centroids given the label of each element
Relabelled(clust, data, lab) == TLCEval(
  [c \in 1..Len(clust) |->
     LET S == {i \in 1..Len(data) : lab[i] = c}
     IN IF S = {} THEN clust[c] ELSE MeanOf(data, S)])
LloydStep(clust, data) ==
  Relabelled(clust, data, TLCEval([i \in 1..Len(data) |-> First(Dists(data[i], clust))]))

\* possible steps when the rounding of distances may break ties: labels are
\* any minimal ones.  Empty if there are too many of them.
RECURSIVE TieBreaks(_, _)
TieBreaks(tied, n) ==
  IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in TieBreaks(tied, n - 1), x \in tied[n]}
RECURSIVE Prod(_, _)
Prod(tied, n) == IF n = 0 THEN 1 ELSE LET p == Prod(tied, n - 1) IN IF p > 200 THEN p ELSE p * Cardinality(tied[n])
LloydSteps(clust, data, strict) ==
  IF strict THEN {LloydStep(clust, data)}
  ELSE LET tied == TLCEval([i \in 1..Len(data) |-> Minimal(Dists(data[i], clust))])
       IN IF Prod(tied, Len(data)) > 200 THEN {}
          ELSE {Relabelled(clust, data, lab) : lab \in TieBreaks(tied, Len(data))}

\* sum of squared (or of absolute, for one coordinate) distances
MinR(ds) == ds[First(ds)]
Loss2(clust, data) == SumR([i \in 1..Len(data) |-> MinR(Dists(data[i], clust))])
Loss1(clust, data) ==
  SumR([i \in 1..Len(data) |->
         LET ds == TLCEval([c \in 1..Len(clust) |-> RD1(data[i], clust[c])]) IN MinR(ds)])

ClustEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VecEq(a[i], b[i])

\* data made of the first p elements of a list, with a frame size f (0: none)
Window(all, p, f) == IF f > 0 /\ p > f THEN SubSeq(all, p - f + 1, p) ELSE SubSeq(all, 1, p)
GivenInit(data, k) == [i \in 1..k |-> Vec(data[i])]

\* a recorded execution: the state is the last clustering s.clust with the
\* least number s.p of elements that the data may have; s.ok tells whether
\* the record is allowed
LloydEvent(c, s, e) ==
  IF ~s.ok THEN s
  ELSE IF e.t = "init"
  THEN [ok |-> ClustEq(e.clust, GivenInit(Window(c.data, e.pushed, c.frame), c.kk)),
        clust |-> e.clust, p |-> e.pushed]
  ELSE IF e.t # "iter" THEN [s EXCEPT !.ok = FALSE]
  ELSE LET fits(q) == LET st == LloydSteps(s.clust, Window(c.data, q, c.frame), c.sp = "r")
                      IN st = {} \/ \E x \in st : ClustEq(e.clust, x)
           Q == {q \in s.p..e.pushed : fits(q)}
       IN IF Q = {} THEN [s EXCEPT !.ok = FALSE]
          ELSE [ok |-> Len(e.clust) = Len(s.clust), clust |-> e.clust, p |-> MinOf(Q)]
LloydOK(c) ==
  FoldLeft(LAMBDA s, e : LloydEvent(c, s, e), [ok |-> TRUE, clust |-> <<>>, p |-> c.n0], c.ev).ok
=============================================================================

----------------------------- MODULE Clustering -----------------------------
(* Assignment, reductions, parallel partition, k-means step, initialisers,   *)
(* weighted draws: properties C12, C13, C14, C15, C27.                       *)
EXTENDS Spaces
dtw == INSTANCE DTW

\* --- distances of an element e to a centroid x, as something to compare ---
\* A case c tells its space c.sp; a "table" space gives ranks of distances.
Series1(s) == [i \in 1..Len(s) |-> << <<s[i], 1>> >>]
Dtw1(a, b, w) == LET s == dtw!Shrunk(Series1(a), Series1(b), w)
                 IN dtw!CumCost(s[1], s[2], w)[Len(s[1])][Len(s[2])]
Key(c, e, x) ==
  CASE c.sp = "euclid" -> R(D2(e, x))
    [] c.sp = "l1"     -> R(D1(e, x))
    [] c.sp = "table"  -> R(c.tab[e][x])
    [] c.sp = "dtw"    -> Dtw1(e, x, c.w)
    [] c.sp = "cosine" -> <<-SgnI(Dot(e, x)) * Dot(e, x) * Dot(e, x), Dot(x, x)>>

NearestIn(keys) ==        \* 0-based first minimum, -1 when there is none
  IF Len(keys) = 0 THEN -1
  ELSE FoldLeft(LAMBDA best, i : IF RLt(keys[i], keys[best]) THEN i ELSE best,
                1, [i \in 1..Len(keys) |-> i]) - 1
Keys(c, e, cs) == [i \in 1..Len(cs) |-> Key(c, e, cs[i])]
Nearest(c, e, cs) == NearestIn(Keys(c, e, cs))
\* rounding may break ties of the cosine space, and of averaged series
LabelOK(c, e, cs, l) ==
  IF c.sp = "cosine" \/ (c.sp = "dtw" /\ c.w # 0)
  THEN IF Len(cs) = 0 THEN l = -1
       ELSE l \in 0..(Len(cs) - 1) /\ LET k == Keys(c, e, cs) IN \A i \in 1..Len(cs) : RLe(k[l+1], k[i])
  ELSE l = Nearest(c, e, cs)

\* a recorded distance d of e and x (a triple for the cosine space)
DistOK(c, e, x, d) ==
  IF c.sp = "cosine" THEN CosineOK(e, x, d[1], <<d[2], d[3]>>)
  ELSE REq(<<d[2], d[3]>>, Key(c, e, x))

AssignOK(c) ==
  /\ Len(c.lab) = Len(c.es) /\ Len(c.d) = Len(c.es)
  /\ \A i \in 1..Len(c.es) :
        /\ LabelOK(c, c.es[i], c.cs, c.lab[i])
        /\ c.lab[i] >= 0 => DistOK(c, c.es[i], c.cs[c.lab[i]+1], c.d[i])
        /\ c.cok[i]
  \* bulk: same labels and same distances, to the bit
  /\ \A k \in 1..Len(c.bulk) : c.bulk[k].lab = c.lab /\ c.bulk[k].deq
  /\ c.pred.lab = (IF c.pred.on THEN c.lab ELSE <<>>) /\ c.pred.deq
  /\ ~c.mut

\* --- reductions ---
Members(labels, l) == {i \in 1..Len(labels) : labels[i] = l}
RECURSIVE SetToSorted(_)
SetToSorted(S) == IF S = {} THEN <<>>
                  ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
                       IN <<x>> \o SetToSorted(S \ {x})
Mean(es, S) ==            \* average of the elements of indices S (euclid)
  LET n == Cardinality(S)  q == SetToSorted(S)  e1 == es[q[1]]
  IN [j \in 1..Len(e1) |-> Reduced(<<SumI([i \in 1..n |-> es[q[i]][j]]), n>>)]
\* m is the mean recorded for the elements of S; an empty cluster has no mean
\* or keeps its centroid
MeanOK(c, m, S, x) ==
  CASE c.sp = "euclid" -> IF S = {} THEN m = <<>> \/ VecEq(m, [j \in 1..Len(x) |-> R(x[j])])
                          ELSE VecEq(m, Mean(c.es, S))
    [] c.sp = "bag"    -> IF S = {} THEN m = <<>> \/ m = <<-1>> ELSE m = SetToSorted(S)
Pos(c, e) == IF c.sp = "bag" THEN <<e>> ELSE e
Loss1(c, e, x, norm) ==      \* c.sq: distances are squared, the norm is half the given one
  IF ~c.sq /\ norm = 2 THEN D2(Pos(c, e), Pos(c, x)) ELSE PowI(D1(Pos(c, e), Pos(c, x)), norm)
NearestLabels(c) ==
  [i \in 1..Len(c.es) |->
     NearestIn([j \in 1..Len(c.cs) |-> R(D2(Pos(c, c.es[i]), Pos(c, c.cs[j])))])]

RunOK(c, r, near) ==
  LET labels == IF r.given THEN c.labels ELSE near
      k == Len(c.cs)
      cards == [l \in 1..k |-> Cardinality(Members(labels, l - 1))]
      losses == [l \in 1..k |->
                  SumI([i \in 1..Len(c.es) |->
                         IF labels[i] = l - 1 THEN Loss1(c, c.es[i], c.cs[l], r.norm) ELSE 0])]
  IN CASE r.f = "dba"  -> /\ r.cards = cards
                          /\ Len(r.means) = k
                          /\ \A l \in 1..k : MeanOK(c, r.means[l], Members(labels, l - 1), c.cs[l])
       [] r.f = "loss" -> /\ r.cards = cards
                          /\ VecEq(r.losses, [l \in 1..k |-> R(losses[l])])
       [] r.f = "tot"  -> REq(r.tot, R(SumI(losses)))
ReduceOK(c) ==
  LET near == NearestLabels(c)
  IN (\A i \in 1..Len(c.runs) : RunOK(c, c.runs[i], near)) /\ ~c.mut

\* average of all elements with weights
AvgOK(c) ==
  /\ c.err = (Len(c.es) = 0)
  /\ ~c.err => LET t == SumI(c.ws)
               IN VecEq(c.res, [j \in 1..Len(c.es[1]) |->
                                  Reduced(<<SumI([i \in 1..Len(c.es) |-> c.ws[i] * c.es[i][j]]), t>>)])
  /\ ~c.mut

\* slices <<start, end, rank>> run by the parallel helper
ParOK(c) ==
  /\ \A i \in 1..Len(c.slices) : c.slices[i][1] <= c.slices[i][2]
  /\ \A x \in 0..(c.size - 1) :
       Cardinality({i \in 1..Len(c.slices) : c.slices[i][1] <= x /\ x < c.slices[i][2]}) = 1
  /\ \A i \in 1..Len(c.slices) : c.slices[i][1] >= 0 /\ c.slices[i][2] <= c.size
  /\ \A i, j \in 1..Len(c.slices) : i # j => c.slices[i][3] # c.slices[j][3]
  /\ \A i \in 1..Len(c.slices) : c.slices[i][3] \in 0..(c.deg - 1)
  /\ c.done

\* --- weighted draw (C27); the drawn fraction is in ulo/64 .. uhi/64 ---
Cum(w, i) == SumI(SubSeq(w, 1, i))
DrawOK(c) ==
  LET sum == SumI(c.w)
  IN /\ IF sum = 0 THEN c.err = "null" /\ c.used <= 1
        ELSE /\ c.err = ""
             /\ c.idx \in 0..(Len(c.w) - 1)
             /\ c.w[c.idx + 1] > 0
             /\ Cum(c.w, c.idx) * 64 <= c.uhi * sum
             /\ c.ulo * sum <= Cum(c.w, c.idx + 1) * 64
             /\ c.used = 1
     /\ ~c.mut

\* --- initialisers (C15); elements are values, with duplicates ---
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
ClassOf(c, x) == c.cls[CHOOSE i \in 1..Len(c.data) : c.data[i] = x]
InitOK(c) ==
  LET n == Len(c.data)
      impossible == c.kk < 1 \/ n < c.kk \/ (c.init = "pp" /\ Cardinality(Range(c.cls)) < c.kk)
  IN /\ c.err = impossible
     /\ ~c.err =>
         /\ Len(c.res) = c.kk
         /\ CASE c.init = "given" -> c.res = SubSeq(c.data, 1, c.kk)
              [] c.init = "rand"  -> \A i \in 1..c.kk : Count(c.res, c.res[i]) <= Count(c.data, c.res[i])
              [] c.init = "pp"    ->
                   /\ Range(c.res) \subseteq Range(c.data)
                   \* classes: elements at distance zero are in the same class
                   /\ \A i, j \in 1..c.kk : i # j => ClassOf(c, c.res[i]) # ClassOf(c, c.res[j])
     /\ ~c.mut
=============================================================================

------------------------------- MODULE Spaces -------------------------------
(* Distances and weighted averages of the spaces (property C25), on integer  *)
(* vectors.  Distances that are square roots are compared by their squares.  *)
EXTENDS Rat

Dot(a, b) == SumI([i \in 1..Len(a) |-> a[i] * b[i]])
D2(a, b) == SumI([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
D1(a, b) == SumI([i \in 1..Len(a) |-> AbsI(a[i] - b[i])])

\* squared Euclidean distance d2 of a and b
EuclidOK(a, b, d2) == REq(d2, R(D2(a, b)))
\* cosine: sign s and square c2 of one minus the distance
CosineOK(a, b, s, c2) ==
  /\ s = SgnI(Dot(a, b))
  /\ REq(c2, <<Dot(a, b) * Dot(a, b), Dot(a, a) * Dot(b, b)>>)

\* coordinate-wise average with weights u and v
Average(a, u, b, v) == [i \in 1..Len(a) |-> Reduced(<<a[i] * u + b[i] * v, u + v>>)]

SpaceOK(c) ==
  /\ IF c.sp = "cosine" THEN CosineOK(c.a, c.b, c.s, c.d2) ELSE EuclidOK(c.a, c.b, c.d2)
  /\ c.sym /\ c.nonneg /\ c.self /\ c.scale
  /\ VecEq(c.comb, Average(c.a, c.u, c.b, c.v))
  /\ c.dim = Len(c.a) /\ c.none = 0 /\ c.points
  /\ c.copyeq /\ c.copyfree /\ c.combfree /\ ~c.mut

\* copies and dimension of series: the dimension is that of the first point
SeriesSpaceOK(c) ==
  /\ c.none = 0
  /\ c.dim = IF c.series = <<>> THEN 0 ELSE Len(c.series[1])
  /\ Len(c.copy) = Len(c.series)
  /\ \A i \in 1..Len(c.series) : VecEq(c.copy[i], [j \in 1..Len(c.series[i]) |-> R(c.series[i][j])])
  /\ c.free
=============================================================================

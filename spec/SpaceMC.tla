------------------------------- MODULE SpaceMC -------------------------------
(* What the specified distances and averages have to be (C25, C12, C13): on  *)
(* all small vectors, distances are metrics, nearest centroids do not depend *)
(* on translations, and averages do not depend on the order of combinations. *)
EXTENDS Clustering
CONSTANTS Dim, Coord, Ws
Coords == -1..2
VARIABLES a, b, x, u, v, t
vars == <<a, b, x, u, v, t>>
V == [1..Dim -> Coord]
Init == a \in V /\ b \in V /\ x \in V /\ u \in Ws /\ v \in Ws /\ t \in Ws
Spec == Init /\ [][FALSE]_vars
Rv(p) == [i \in 1..Dim |-> R(p[i])]
\* weighted average of rationals
AvgR(p, m, q, n) == [i \in 1..Dim |-> LET s == RAdd(RMul(p[i], R(m)), RMul(q[i], R(n))) IN Reduced(RMul(s, <<1, m + n>>))]
Metric == /\ D2(a, b) = D2(b, a) /\ D1(a, b) = D1(b, a) /\ D2(a, b) >= 0
          /\ (D2(a, b) = 0 <=> a = b) /\ (D1(a, b) = 0 <=> a = b)
          /\ D1(a, x) <= D1(a, b) + D1(b, x)
          \* triangle inequality of the square roots
          /\ LET d == D2(a, x) - D2(a, b) - D2(b, x) IN d <= 0 \/ d * d <= 4 * D2(a, b) * D2(b, x)
          /\ Dot(a, b) * Dot(a, b) <= Dot(a, a) * Dot(b, b)
Averages ==
  LET m == Average(a, u, b, v)
  IN /\ VecEq(m, Average(b, v, a, u)) /\ VecEq(Average(a, u, a, v), Rv(a)) /\ VecEq(m, Average(a, 2 * u, b, 2 * v))
     \* any order of combinations
     /\ VecEq(AvgR(m, u + v, Rv(x), t), AvgR(Rv(a), u, Average(b, v, x, t), v + t))
     /\ VecEq(AvgR(m, u + v, Rv(x), t), AvgR(Average(a, u, x, t), u + t, Rv(b), v))
     \* between its arguments
     /\ \A i \in 1..Dim : RLe(R(MinI(a[i], b[i])), m[i]) /\ RLe(m[i], R(MaxI(a[i], b[i])))
Near == LET c == [sp |-> "euclid"]
            sh(p) == [i \in 1..Dim |-> p[i] + u]
        IN /\ Nearest(c, x, <<a, b>>) = Nearest(c, sh(x), <<sh(a), sh(b)>>)
           /\ Nearest(c, x, <<a, b>>) = (IF D2(x, b) < D2(x, a) THEN 1 ELSE 0)
           /\ Nearest(c, x, <<a, b, a>>) # 2 /\ Nearest(c, x, <<>>) = -1
=============================================================================

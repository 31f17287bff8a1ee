-------------------------------- MODULE DTW --------------------------------
(* Dynamic time warping of series of rational points: properties C16, C17.   *)
(* A series is a sequence of points, a point a sequence of rationals; the    *)
(* distance of points is the sum of absolute differences (the harness uses   *)
(* Euclidean points of one coordinate, or a Manhattan inner space).          *)
EXTENDS Rat

PDist(p, q) == SumR([i \in 1..Len(p) |-> RAbs(RSub(p[i], q[i]))])

InWin(i, j, w) == w = 0 \/ (i - j <= w /\ j - i <= w)

\* warping paths are sequences of <<i, j>>, 1-based
IsPath(p, n, m, w) ==
  /\ Len(p) > 0 /\ p[1] = <<1, 1>> /\ p[Len(p)] = <<n, m>>
  /\ \A k \in 1..Len(p) : InWin(p[k][1], p[k][2], w) /\ p[k][1] \in 1..n /\ p[k][2] \in 1..m
  /\ \A k \in 2..Len(p) : <<p[k][1] - p[k-1][1], p[k][2] - p[k-1][2]>> \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}

PathCost(p, a, b) == SumR([k \in 1..Len(p) |-> PDist(a[p[k][1]], b[p[k][2]])])

\* all the paths ending at (i, j), by definition
RECURSIVE PathsTo(_, _, _)
PathsTo(i, j, w) ==
  IF ~InWin(i, j, w) THEN {}
  ELSE IF i = 1 /\ j = 1 THEN {<< <<1, 1>> >>}
  ELSE {Append(p, <<i, j>>) :
          p \in (IF i > 1 THEN PathsTo(i - 1, j, w) ELSE {})
                \cup (IF j > 1 THEN PathsTo(i, j - 1, w) ELSE {})
                \cup (IF i > 1 /\ j > 1 THEN PathsTo(i - 1, j - 1, w) ELSE {})}
MinCost(a, b, w) == LET S == {PathCost(p, a, b) : p \in PathsTo(Len(a), Len(b), w)}
                    IN CHOOSE x \in S : \A y \in S : RLe(x, y)

\* the same by recurrence on prefixes; <<1, 0>> stands for infinity
Inf == <<1, 0>>
IsInf(x) == x[2] = 0
Min2(x, y) == IF IsInf(x) THEN y ELSE IF IsInf(y) THEN x ELSE IF RLt(y, x) THEN y ELSE x
Row(a, b, w, i, prev) ==   \* row i of the accumulated costs, given row i-1
  FoldLeft(LAMBDA row, j :
     Append(row,
       IF ~InWin(i, j, w) THEN Inf
       ELSE LET best == IF i = 1 /\ j = 1 THEN R(0)
                        ELSE Min2(IF i > 1 THEN prev[j] ELSE Inf,
                             Min2(IF j > 1 THEN row[j-1] ELSE Inf,
                                  IF i > 1 /\ j > 1 THEN prev[j-1] ELSE Inf))
            IN IF IsInf(best) THEN Inf ELSE RAdd(best, PDist(a[i], b[j]))),
     <<>>, [j \in 1..Len(b) |-> j])
RECURSIVE Rows(_, _, _, _)
Rows(a, b, w, i) == IF i = 0 THEN <<>>
                    ELSE LET r == Rows(a, b, w, i - 1)
                         IN Append(r, Row(a, b, w, i, IF i = 1 THEN <<>> ELSE r[i-1]))
CumCost(a, b, w) == Rows(a, b, w, Len(a))

\* linear interpolation at whole positions of points at positions idx/f
PAt(s, idx, f, x) ==       \* x-th point, 0-based; idx is strictly increasing
  LET X == x * f
      j == CHOOSE k \in 1..Len(s) : idx[k] >= X /\ (k = 1 \/ idx[k-1] < X)
  IN IF idx[j] = X THEN s[j]
     ELSE LET d == idx[j] - idx[j-1]
          IN [c \in 1..Len(s[j]) |->
                RAdd(RMul(s[j-1][c], <<idx[j] - X, d>>), RMul(s[j][c], <<X - idx[j-1], d>>))]
Interp(s, idx, f) == [x \in 1..(idx[Len(idx)] \div f + 1) |-> PAt(s, idx, f, x - 1)]

ResizeTo(s, n) ==
  IF Len(s) = 1 THEN [i \in 1..n |-> s[1]]
  ELSE IF n = 1 THEN <<s[1]>>
  ELSE Interp(s, [i \in 1..Len(s) |-> (i - 1) * (n - 1)], Len(s) - 1)

Shrunk(a, b, w) ==
  IF w > 0 /\ Len(a) > Len(b) + w THEN <<ResizeTo(a, Len(b) + w), b>>
  ELSE IF w > 0 /\ Len(b) > Len(a) + w THEN <<a, ResizeTo(b, Len(a) + w)>>
  ELSE <<a, b>>

\* average along a path with weights u and v
AvgPoint(p, u, q, v) ==
  [c \in 1..Len(p) |-> RMul(RAdd(RMul(p[c], R(u)), RMul(q[c], R(v))), <<1, u + v>>)]
AlongPath(a, b, p, u, v) ==
  Interp([k \in 1..Len(p) |-> AvgPoint(a[p[k][1]], u, b[p[k][2]], v)],
         [k \in 1..Len(p) |-> (p[k][1] - 1) * u + (p[k][2] - 1) * v], u + v)

SeriesEq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : VecEq(s[i], t[i])

\* recorded path: from the end to the start, or from the start to the end
Forward(p) == IF p[1] = <<1, 1>> THEN p ELSE [k \in 1..Len(p) |-> p[Len(p) + 1 - k]]

\* distance and path of two series with lengths that differ at most by the window
DtwOK(c) ==
  LET a == c.a  b == c.b  w == c.w  cum == CumCost(a, b, w)
  IN /\ REq(c.dist, cum[Len(a)][Len(b)])
     /\ Len(c.path) > 0
     /\ LET p == Forward(c.path)
        IN IsPath(p, Len(a), Len(b), w) /\ REq(PathCost(p, a, b), c.dist)
     /\ \A i \in 1..Len(a), j \in 1..Len(b) :
          IF IsInf(cum[i][j]) THEN c.cum[i][j] = Inf ELSE REq(c.cum[i][j], cum[i][j])
     /\ REq(c.rev, c.dist)      \* distance of b and a
     /\ ~c.mut

\* distance in a space, series of any lengths
DtwDistOK(c) ==
  LET s == Shrunk(c.a, c.b, c.w)
  IN /\ REq(c.dist, CumCost(s[1], s[2], c.w)[Len(s[1])][Len(s[2])])
     /\ REq(c.rev, c.dist)
     /\ c.self = <<0, 1>>
     /\ ~c.mut

\* average of two series; c.path is the path reported for the shrunk series
DbaOK(c) ==
  LET s == Shrunk(c.a, c.b, c.w)  p == Forward(c.path)
  IN /\ SeriesEq(c.sa, s[1]) /\ SeriesEq(c.sb, s[2])
     /\ IsPath(p, Len(s[1]), Len(s[2]), c.w)
     /\ REq(PathCost(p, s[1], s[2]), CumCost(s[1], s[2], c.w)[Len(s[1])][Len(s[2])])
     /\ SeriesEq(c.res, AlongPath(s[1], s[2], p, c.u, c.v))
     /\ SeriesEq(c.dba, c.res)
     /\ Len(c.res) = 1 + ((Len(s[1]) - 1) * c.u + (Len(s[2]) - 1) * c.v) \div (c.u + c.v)
     /\ VecEq(c.res[1], AvgPoint(s[1][1], c.u, s[2][1], c.v))
     /\ ~c.mut

ResizeOK(c) ==
  /\ SeriesEq(c.res, ResizeTo(c.a, c.n))
  /\ Len(c.res) = c.n
  /\ VecEq(c.res[1], c.a[1])
  /\ c.n > 1 => VecEq(c.res[c.n], c.a[Len(c.a)])
  /\ c.n = Len(c.a) => SeriesEq(c.res, c.a)
  /\ ~c.mut

InterpOK(c) == SeriesEq(c.res, Interp(c.a, c.idx, c.f)) /\ ~c.mut
============================================================================

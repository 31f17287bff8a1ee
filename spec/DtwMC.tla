------------------------------- MODULE DtwMC --------------------------------
(* Dynamic time warping as a machine: fills the accumulated costs cell by    *)
(* cell, follows a path back from the end, then averages along it.  Checked  *)
(* against the definition by enumeration of all the paths (C16, C17).        *)
EXTENDS DTW
CONSTANTS MaxLen, MaxVal, MaxWin, Weights
VARIABLES a0, b0, w, a, b, cum, i, j, path, pc
vars == <<a0, b0, w, a, b, cum, i, j, path, pc>>

SeriesSet == UNION {[1..n -> {<<R(v)>> : v \in 0..MaxVal}] : n \in 1..MaxLen}
Init ==
  /\ a0 \in SeriesSet /\ b0 \in SeriesSet /\ w \in 0..MaxWin
  /\ LET s == Shrunk(a0, b0, w) IN a = s[1] /\ b = s[2]
  /\ cum = [c \in (1..Len(a)) \X (1..Len(b)) |-> Inf]
  /\ i = 1 /\ j = 1 /\ path = <<>> /\ pc = "fill"

At(x, y) == IF x < 1 \/ y < 1 THEN Inf ELSE cum[<<x, y>>]
Best(x, y) == Min2(At(x - 1, y), Min2(At(x, y - 1), At(x - 1, y - 1)))
Fill ==
  /\ pc = "fill"
  /\ cum' = [cum EXCEPT ![<<i, j>>] =
               IF ~InWin(i, j, w) THEN Inf
               ELSE IF i = 1 /\ j = 1 THEN PDist(a[1], b[1])
               ELSE IF IsInf(Best(i, j)) THEN Inf ELSE RAdd(Best(i, j), PDist(a[i], b[j]))]
  /\ IF j < Len(b) THEN j' = j + 1 /\ UNCHANGED <<i, pc>>
     ELSE IF i < Len(a) THEN i' = i + 1 /\ j' = 1 /\ pc' = pc
     ELSE pc' = "back" /\ UNCHANGED <<i, j>>
  /\ UNCHANGED <<a0, b0, w, a, b, path>>
Back ==
  /\ pc = "back"
  /\ path' = << <<i, j>> >> \o path
  /\ IF i = 1 /\ j = 1 THEN pc' = "done" /\ UNCHANGED <<i, j>>
     ELSE /\ \E c \in {<<i - 1, j>>, <<i, j - 1>>, <<i - 1, j - 1>>} :
               /\ ~IsInf(At(c[1], c[2])) /\ REq(At(c[1], c[2]), Best(i, j))
               /\ i' = c[1] /\ j' = c[2]
          /\ pc' = pc
  /\ UNCHANGED <<a0, b0, w, a, b, cum>>
Next == Fill \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* resampling keeps the ends and brings lengths within the window
ShrinkOK ==
  /\ w > 0 => Len(a) - Len(b) <= w /\ Len(b) - Len(a) <= w
  /\ VecEq(a[1], a0[1]) /\ VecEq(b[1], b0[1])
  /\ (Len(a) > 1 \/ Len(a0) = 1) => VecEq(a[Len(a)], a0[Len(a0)])
  /\ (Len(b) > 1 \/ Len(b0) = 1) => VecEq(b[Len(b)], b0[Len(b0)])
  /\ SeriesEq(ResizeTo(a0, Len(a0)), a0)
\* every accumulated cost is the minimum over the paths, by definition
CellsOK ==
  pc = "back" =>
    \A c \in DOMAIN cum :
      LET S == {PathCost(p, a, b) : p \in PathsTo(c[1], c[2], w)}
      IN IF S = {} THEN IsInf(cum[c])
         ELSE (\E x \in S : REq(x, cum[c])) /\ (\A x \in S : RLe(cum[c], x))
\* the recurrence used to judge the real code is the same, the distance finite and symmetric
RecurrenceOK ==
  pc = "back" =>
    /\ LET cc == CumCost(a, b, w) IN \A c \in DOMAIN cum : cc[c[1]][c[2]] = cum[c]
    /\ ~IsInf(cum[<<Len(a), Len(b)>>])
    /\ LET s == Shrunk(b0, a0, w) IN REq(CumCost(s[1], s[2], w)[Len(s[1])][Len(s[2])], cum[<<Len(a), Len(b)>>])
\* tracing back from the end gives a path of that cost
PathOK == pc = "done" => IsPath(path, Len(a), Len(b), w) /\ REq(PathCost(path, a, b), cum[<<Len(a), Len(b)>>])
\* averages have the stated length and first point, and stay within the values combined
AverageOK ==
  pc = "done" =>
    \A u \in Weights, v \in Weights :
      LET r == AlongPath(a, b, path, u, v)
      IN /\ Len(r) = 1 + ((Len(a) - 1) * u + (Len(b) - 1) * v) \div (u + v)
         /\ VecEq(r[1], AvgPoint(a[1], u, b[1], v))
         /\ \A k \in 1..Len(r) : RLe(R(0), r[k][1]) /\ RLe(r[k][1], R(MaxVal))
         \* averaging a series with itself gives it back
         /\ SeriesEq(AlongPath(a, a, [k \in 1..Len(a) |-> <<k, k>>], u, v), a)
Finishes == <>(pc = "done")
=============================================================================

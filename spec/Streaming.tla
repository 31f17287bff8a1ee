----------------------------- MODULE Streaming ------------------------------
(* Streaming clustering (property C18).  Elements are integer positions,     *)
(* centres are sets of the elements they average.                            *)
EXTENDS Rat

SumPos(pos, S) == FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in S |-> pos[i]], S)
Centre(pos, S) == Reduced(<<SumPos(pos, S), Cardinality(S)>>)
DistTo(pos, x, S) == RAbs(RSub(R(pos[x]), Centre(pos, S)))
NearestCentres(pos, x, cs) ==
  {i \in 1..Len(cs) : \A j \in 1..Len(cs) : RLe(DistTo(pos, x, cs[i]), DistTo(pos, x, cs[j]))}

\* what consuming element x may do to the centres cs, the largest distance mx
\* and the number n of elements consumed after the first: set of
\* [cs, mx, how]; threshold between relative distances only when known
Consume(c, cs, mx, n, x) ==
  UNION {
    LET d == DistTo(c.pos, x, cs[l])
        half == <<1, 2>>
        lim == RMul(RMul(R(c.ratio2), half), mx)
        zero == mx[1] = 0
        \* relative to the largest distance; the first distance that is not null is the largest
        outlier == n >= c.after /\ IF zero THEN d[1] > 0 /\ c.ratio2 < 2 ELSE RLt(lim, d)
        \* at the limit, rounding decides unless numbers are exact
        dyadic(r) == r[2] \in {1, 2, 4, 8, 16}
        maybe == n >= c.after /\ IF zero THEN d[1] > 0 ELSE REq(lim, d) /\ ~(dyadic(Reduced(d)) /\ dyadic(Reduced(mx)))
        mlim == RMul(RMul(R(c.mu2), half), IF zero THEN d ELSE mx)
        mayadd == ~c.tiny \/ (RLe(mlim, d) /\ d[1] > 0)
        mayupd == ~c.tiny \/ RLe(d, mlim)
        added == Append(cs, {x})
        moved == [cs EXCEPT ![l] = @ \cup {x}]
    IN (IF outlier \/ maybe THEN {[cs |-> added, mx |-> mx]} \cup (IF zero THEN {[cs |-> added, mx |-> d]} ELSE {}) ELSE {})
       \cup (IF outlier /\ ~zero THEN {}
             ELSE (IF mayadd THEN {[cs |-> added, mx |-> RMax(mx, d)]} ELSE {})
                  \cup (IF mayupd THEN {[cs |-> moved, mx |-> RMax(mx, d)]} ELSE {}))
    : l \in NearestCentres(c.pos, x, cs)}

SetsOf(cs) == [i \in 1..Len(cs) |-> {cs[i][j] : j \in 1..Len(cs[i])}]

StreamEvent(c, s, e) ==
  IF ~s.ok THEN s
  ELSE CASE e.t = "push" ->
              IF e.ok THEN [s EXCEPT !.ok = Len(s.queue) < c.size, !.queue = Append(@, e.id)]
              ELSE [s EXCEPT !.ok = Len(s.queue) >= c.size]
    [] e.t = "init" ->
         IF s.cs = <<>>
         THEN IF s.queue = <<>> THEN [s EXCEPT !.ok = FALSE]
              ELSE [s EXCEPT !.ok = SetsOf(e.cs) = << {Head(s.queue)} >> /\ Len(e.cs[1]) = 1,
                             !.cs = << {Head(s.queue)} >>, !.queue = Tail(@)]
         ELSE [s EXCEPT !.ok = SetsOf(e.cs) = s.cs]
    [] e.t = "err" -> [s EXCEPT !.ok = s.cs = <<>> /\ s.queue = <<>>]
    [] e.t = "iter" ->
         IF s.queue = <<>> THEN [s EXCEPT !.ok = FALSE]
         ELSE LET x == Head(s.queue)
                  got == SetsOf(e.cs)
                  R1 == {r \in Consume(c, s.cs, s.mx, s.n, x) : r.cs = got /\ REq(r.mx, e.max)}
              IN IF R1 = {} THEN [s EXCEPT !.ok = FALSE]
                 ELSE [s EXCEPT !.cs = got, !.mx = e.max, !.n = @ + 1, !.queue = Tail(@),
                                !.ok = \A i \in 1..Len(e.cs) : Len(e.cs[i]) = Cardinality(got[i])]
    [] OTHER -> [s EXCEPT !.ok = FALSE]
StreamStart(c) == [ok |-> TRUE, queue |-> [i \in 1..c.n0 |-> i], cs |-> <<>>, mx |-> R(0), n |-> 0]
StreamOK(c) == FoldLeft(LAMBDA s, e : StreamEvent(c, s, e), StreamStart(c), c.ev).ok
=============================================================================

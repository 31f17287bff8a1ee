------------------------------ MODULE StreamMC ------------------------------
(* Streaming clustering on small inputs: pushes, initialisations and         *)
(* iterations in any order (C18).  Transitions are those against which the   *)
(* recorded executions are judged (Streaming!StreamEvent).                   *)
EXTENDS Streaming, TLC
CONSTANTS N, Vals, Size, Ratio2, After
VARIABLES c, s, live, pushed, outl
vars == <<c, s, live, pushed, outl>>

Init == /\ c \in {[pos |-> p, ratio2 |-> Ratio2, after |-> After, mu2 |-> 1, tiny |-> FALSE,
                   size |-> Size, n0 |-> 0] : p \in [1..N -> Vals]}
        /\ s = StreamStart(c) /\ live = FALSE /\ pushed = 0 /\ outl = {}

Push == /\ pushed < N /\ Len(s.queue) < Size
        /\ pushed' = pushed + 1
        /\ s' = [s EXCEPT !.queue = Append(@, pushed + 1)]
        /\ UNCHANGED <<c, live, outl>>
\* start, or start again after a stop
Begin == /\ ~live
         /\ IF s.cs = <<>>
            THEN /\ s.queue # <<>>
                 /\ s' = [s EXCEPT !.cs = << {Head(s.queue)} >>, !.queue = Tail(@)]
            ELSE UNCHANGED s
         /\ live' = TRUE /\ UNCHANGED <<c, pushed, outl>>
Stop == live /\ live' = FALSE /\ UNCHANGED <<c, s, pushed, outl>>
Iterate ==
  /\ live /\ s.queue # <<>>
  /\ \E r \in Consume(c, s.cs, s.mx, s.n, Head(s.queue)) :
       /\ s' = [s EXCEPT !.cs = r.cs, !.mx = r.mx, !.n = @ + 1, !.queue = Tail(@)]
       \* what was added far from all others without growing the largest distance
       /\ outl' = IF Len(r.cs) > Len(s.cs) /\ r.mx = s.mx THEN outl \cup {Head(s.queue)} ELSE outl
  /\ UNCHANGED <<c, live, pushed>>
Next == Push \/ Begin \/ Stop \/ Iterate
Spec == Init /\ [][Next]_vars

Consumed == 1..(pushed - Len(s.queue))
\* the centres partition the consumed elements: each absorbed exactly once
PartitionOK == /\ UNION {s.cs[i] : i \in 1..Len(s.cs)} = Consumed
               /\ SumI([i \in 1..Len(s.cs) |-> Cardinality(s.cs[i])]) = Cardinality(Consumed)
               /\ \A i \in 1..Len(s.cs) : s.cs[i] # {}
\* the queue is what remains, in order
QueueOK == s.queue = [i \in 1..Len(s.queue) |-> pushed - Len(s.queue) + i] /\ Len(s.queue) <= Size
CountOK == s.cs # <<>> => s.n = Cardinality(Consumed) - 1
\* every step has an outcome
Total == (live /\ s.queue # <<>>) => Consume(c, s.cs, s.mx, s.n, Head(s.queue)) # {}
\* moving a centre is the cardinality-weighted average
AverageOK == \A i \in 1..Len(s.cs) : \A x \in s.cs[i] :
  Cardinality(s.cs[i]) > 1 =>
    LET m == Cardinality(s.cs[i]) - 1  old == Centre(c.pos, s.cs[i] \ {x})
    IN REq(Centre(c.pos, s.cs[i]), RMul(RAdd(RMul(R(m), old), R(c.pos[x])), <<1, m + 1>>))
\* centres stay in the hull of the data, distances below its diameter
HullOK == \A i \in 1..Len(s.cs) : \E a, b \in Consumed :
  RLe(R(c.pos[a]), Centre(c.pos, s.cs[i])) /\ RLe(Centre(c.pos, s.cs[i]), R(c.pos[b]))
MaxOK == \A v \in {s.mx} : IsRat(v) /\ RLe(R(0), v) /\ \E a, b \in Vals : RLe(v, R(AbsI(a - b)))
\* before enough elements nothing is an outlier: every addition grows, or keeps, the maximum
EarlyOK == (live /\ s.queue # <<>> /\ s.n < After) =>
  \A r \in Consume(c, s.cs, s.mx, s.n, Head(s.queue)) :
    \E l \in NearestCentres(c.pos, Head(s.queue), s.cs) :
      r.mx = RMax(s.mx, DistTo(c.pos, Head(s.queue), s.cs[l]))
\* beyond the ratio, an element is always added and the maximum is kept
OutlierOK == (live /\ s.queue # <<>> /\ s.n >= After /\ s.mx[1] > 0) =>
  LET x == Head(s.queue)
  IN (\E l \in NearestCentres(c.pos, x, s.cs) :
        RLt(RMul(<<Ratio2, 2>>, s.mx), DistTo(c.pos, x, s.cs[l]))) =>
     Consume(c, s.cs, s.mx, s.n, x) = {[cs |-> Append(s.cs, {x}), mx |-> s.mx]}
Never == [][/\ Len(s'.cs) >= Len(s.cs) /\ Len(s'.cs) <= Len(s.cs) + 1
            /\ \A i \in 1..Len(s.cs) : s.cs[i] \subseteq s'.cs[i]
            /\ RLe(s.mx, s'.mx)]_vars
ResumeKeeps == [][live # live' /\ s.cs # <<>> => s' = s]_vars
=============================================================================

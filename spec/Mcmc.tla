-------------------------------- MODULE Mcmc --------------------------------
(* MCMC clustering (property C19) and its centre store (property C20).       *)
EXTENDS Lloyd

\* --- the store: m maps numbers of centres to clusterings ---
Put(m, clust) == [k \in DOMAIN m \cup {Len(clust)} |-> IF k = Len(clust) THEN clust ELSE m[k]]
NoCenters == [k \in {} |-> <<>>]
Without(clust, d) == [i \in 1..(Len(clust) - 1) |-> IF i < d THEN clust[i] ELSE clust[i + 1]]

\* elements that may be added: at a distance of all centres that is not null
\* (zero(x, c) tells whether the distance is null)
Addable(data, clust, zero(_, _)) ==
  {i \in 1..Len(data) : \A j \in 1..Len(clust) : ~zero(data[i], clust[j])}

\* generated centres for k from clust
Generated(data, k, clust, zero(_, _)) ==
  IF k = Len(clust) THEN {clust}
  ELSE IF k > Len(clust) THEN {Append(clust, Vec(data[i])) : i \in Addable(data, clust, zero)}
  ELSE {Without(clust, d) : d \in 1..Len(clust)}
GetResults(m, data, k, clust, zero(_, _)) ==
  IF k \in DOMAIN m THEN {m[k]} ELSE Generated(data, k, clust, zero)

\* recorded histories of a store
ZeroIn(c, x, y) == IF c.first THEN REq(R(x[1]), y[1]) ELSE VecEq(Vec(x), y)
StoreOp(c, s, o) ==
  IF ~s.ok THEN s
  ELSE IF o.op = "set" THEN [s EXCEPT !.m = Put(@, [i \in 1..Len(o.c) |-> Vec(o.c[i])])]
  ELSE LET clust == [i \in 1..Len(o.c) |-> Vec(o.c[i])]
           res == GetResults(s.m, o.data, o.kk, clust, LAMBDA x, y : ZeroIn(c, x, y))
       IN [s EXCEPT !.ok = IF res = {} THEN o.err
                           ELSE ~o.err /\ (\E r \in res : ClustEq(o.res, r)) /\ ~o.mut]
StoreOK(c) == FoldLeft(LAMBDA s, o : StoreOp(c, s, o), [ok |-> TRUE, m |-> NoCenters], c.ops).ok

\* --- the chain ---
LossOf(c, clust, data) == IF c.sp = "abs" THEN Loss1(clust, data) ELSE Loss2(clust, data)
Clamp(k, n, maxk) == IF k < 1 THEN 1 ELSE IF k > maxk THEN maxk ELSE IF k > n THEN n ELSE k
Same(x, y) == VecEq(Vec(x), y)
NextKs(c, k, clust, data) ==
  LET moves == {i \in 1..3 : c.proba[i] > 0}
      ks == {Clamp(k + i - 2, Len(data), c.maxk) : i \in moves}
  IN IF (k + 1) \in ks /\ Addable(data, clust, Same) = {} THEN ks \cup {k} ELSE ks

\* largest denominator the harness recognises
Seen(x, y) == y[2] > 40000 \/ REq(x, y)

\* s: clust, losses (possible values of the loss of the current clustering when
\* it was proposed), acc, iters, m (store of accepted ones), old (stores of
\* previous sessions), p (least number of elements in data)
McmcIter(c, s, e, q) ==
  LET data == Window(c.data, q, c.frame)
      k == Len(s.clust)
      kp == Len(e.outs)
      \* clusterings that may have been proposed
      props == LloydSteps(e.outs, data, c.sp = "r")
      curs == s.losses \cup {LossOf(c, s.clust, data)}
      accepted == e.acc = s.acc + 1
      coherent(x) ==
        /\ accepted => ClustEq(e.clust, x)
        /\ c.amp2 = 0 \/ \E cur \in curs : Seen(e.gibbs, RSub(cur, LossOf(c, x, data)))
      gens == GetResults(s.m, data, kp, s.clust, Same) \cup s.old \cup Generated(data, kp, s.clust, Same)
  IN /\ e.time = Len(data) /\ e.stime
     /\ Len(e.mus) = kp
     \* the proposal has a neighbouring number of clusters
     /\ kp \in NextKs(c, k, s.clust, data)
     /\ kp >= 1 /\ kp <= c.maxk /\ kp <= Len(data) /\ AbsI(kp - k) <= 1
     \* it derives from a stored or a generated clustering
     /\ IF kp \in DOMAIN s.m
        THEN ClustEq(e.mus, s.m[kp])
        ELSE \E x \in gens : ClustEq(e.mus, x)
     /\ props = {} \/ \E x \in props : coherent(x)
     \* published, or not
     /\ \/ accepted /\ Len(e.clust) = kp
        \/ e.acc = s.acc /\ ClustEq(e.clust, s.clust)
     /\ e.rho = "ge1" => accepted
     /\ e.rho = "zero" => ~accepted
     /\ e.rho # "nan"
     /\ e.acc <= s.iters + 1
     \* figures of the decision
     /\ REq(e.lam2, Reduced(<<c.amp2 * c.amp2 * (c.dim + 3), 4 * e.time>>))
     /\ e.lnr = 8888 \/ e.lnr = (c.dim * c.l + c.p) * (k - kp)

McmcEvent(c, s, e) ==
  IF ~s.ok THEN s
  ELSE IF e.t = "init"
  THEN LET data == Window(c.data, e.pushed, c.frame)
       IN [ok |-> ClustEq(e.clust, GivenInit(data, c.kk)), clust |-> e.clust,
           losses |-> {LossOf(c, e.clust, data)}, acc |-> 0, iters |-> 0,
           m |-> NoCenters, old |-> s.old \cup {s.m[k] : k \in DOMAIN s.m}, p |-> e.pushed]
  ELSE IF e.t # "iter" THEN [s EXCEPT !.ok = FALSE]
  ELSE LET Q == {q \in s.p..e.pushed : McmcIter(c, s, e, q)}
       IN IF Q = {} THEN [s EXCEPT !.ok = FALSE]
          ELSE IF e.acc = s.acc THEN [s EXCEPT !.p = MinOf(Q), !.iters = @ + 1]
          ELSE [s EXCEPT !.p = MinOf(Q), !.iters = @ + 1, !.acc = e.acc, !.clust = e.clust,
                         !.losses = {LossOf(c, e.clust, Window(c.data, q, c.frame)) : q \in Q},
                         !.m = Put(@, e.clust)]
McmcOK(c) ==
  FoldLeft(LAMBDA s, e : McmcEvent(c, s, e),
           [ok |-> TRUE, clust |-> <<>>, losses |-> {}, acc |-> 0, iters |-> 0, m |-> NoCenters, old |-> {}, p |-> c.n0],
           c.ev).ok
=============================================================================

-------------------------------- MODULE Conf --------------------------------
(* Configurations (property C23), finishing conditions on an observed model  *)
(* (property C22), calls on an algorithm whose initialisation may fail       *)
(* (property C15).  Reals are recorded in millionths, durations in seconds   *)
(* and nanoseconds.                                                          *)
EXTENDS Rat, TLC
fin == INSTANCE Finishing

\* value given x, default d (unset parameters are zero)
Dflt(x, d) == IF x = 0 THEN d ELSE x

Filled(algo, f) ==
  CASE algo = "kmeans" -> f
    [] algo = "mcmc"   -> [f EXCEPT !.norm = Dflt(@, 2000000), !.maxk = Dflt(@, 16), !.b = Dflt(@, 1000000),
                                    !.proba = IF @ = <<>> THEN <<1000000, 8000000, 1000000>> ELSE @]
    [] algo = "streaming" -> [f EXCEPT !.buf = Dflt(@, 100), !.mu = Dflt(@, 500000), !.sigma = Dflt(@, 100000),
                                       !.ratio = Dflt(@, 2000000), !.after = Dflt(@, 5)]

CtrlRefused(k) == k.iter < 0 \/ k.ipd < 0 \/ k.dpi < 0 \/ k.freq < 0 \/ k.tmo < 0 \/ k.tmos < 0
AlgoRefused(algo, g) ==      \* g is the filled configuration
  CASE algo = "kmeans"    -> g.k < 1
    [] algo = "mcmc"      -> g.k < 1 \/ g.k > g.maxk
    [] algo = "streaming" -> g.after < 2

\* f: the fields of a configuration after its preparation; the number of
\* processors and the random generator have defaults of the environment
FieldsOK(algo, given, f) ==
  LET want == Filled(algo, given)
  IN \A x \in DOMAIN want :
       CASE x = "cpu"   -> IF given.cpu = 0 THEN f.cpu > 0 ELSE f.cpu = given.cpu
         [] x = "rgen"  -> f.rgen
         [] x = "rsame" -> f.rsame
         [] OTHER       -> f[x] = want[x]

ConfOK(c) ==
  LET g == Filled(c.algo, c.given)
      refused == CtrlRefused(c.ctrl) \/ AlgoRefused(c.algo, g)
      toobig == c.algo = "streaming" /\ c.ndata > g.buf
  IN /\ c.refused = (refused \/ toobig)
     /\ c.preperr = refused
     /\ c.cverr = CtrlRefused(c.ctrl)
     /\ AlgoRefused(c.algo, g) => c.verr
     /\ c.verr => refused
     /\ ~c.refused => FieldsOK(c.algo, c.given, c.after) /\ c.ctrlafter = c.ctrl
     /\ ~refused => FieldsOK(c.algo, c.given, c.prep) /\ FieldsOK(c.algo, c.given, c.again)

FinOK(c) ==
  /\ c.res = fin!FinHolds(c.f, c.s, c.e, c.it, c.pu)
  /\ c.stable /\ ~c.mut

\* the clustering exists iff some initialisation succeeded since creation;
\* st: has a clustering, last status known to be alive or not
FailInitOK(c) ==
  LET enough(p) ==    \* could p pushed elements, all different, be enough?
        IF c.algo = "streaming" THEN p >= 1
        ELSE c.distinct + p >= c.kk
      bad(o) == \/ o.c = "predict" /\ o.res = "inconsistent"
                \/ o.c = "centroids" /\ o.res = "nil centroid"
                \/ o.c \in {"init", "play", "batch"} /\ ~enough(o.pushed) /\ o.res = ""
                \/ o.c \in {"predict"} /\ ~enough(o.pushed) /\ o.res # "none"
                \/ o.c = "centroids" /\ ~enough(o.pushed) /\ o.res # "0"
                \/ o.c = "copy" /\ o.res = "copy predicts"
  IN \A i \in 1..Len(c.obs) : ~bad(c.obs[i])
=============================================================================

-------------------------------- MODULE ConfMC -------------------------------
(* Life of a configuration (C23): given, filled with defaults, verified, then*)
(* used again by a copy.  Whatever is given, what is accepted is complete and*)
(* valid, filling changes no parameter that was set, and a configuration     *)
(* once accepted is accepted again, unchanged.                               *)
EXTENDS Conf
VARIABLES algo, given, cur, ph
vars == <<algo, given, cur, ph>>
G == {0, 1, 2, 4, 20}
KM == [k : -1..3, frame : {0, 2}]
MC == [k : -1..3, frame : {0, 2}, norm : {0, 1, 2000000}, maxk : {0, 1, 2, 16}, b : {0, 1, 1000000}, proba : {<<>>, <<1, 2, 3>>}]
SM == [buf : {0, 1, 50}, mu : {-1, 0, 500000}, sigma : {0, 1, 100000}, ratio : {0, 1, 2000000}, after : {-1, 0, 1, 2, 5}]
Init == /\ algo \in {"kmeans", "mcmc", "streaming"}
        /\ given \in (CASE algo = "kmeans" -> KM [] algo = "mcmc" -> MC [] algo = "streaming" -> SM)
        /\ cur = given /\ ph = "given"
Fill == ph \in {"given", "accepted"} /\ cur' = Filled(algo, cur) /\ ph' = "filled" /\ UNCHANGED <<algo, given>>
Verify == ph = "filled" /\ ph' = (IF AlgoRefused(algo, cur) THEN "refused" ELSE "accepted") /\ UNCHANGED <<algo, given, cur>>
Spec == Init /\ [][Fill \/ Verify]_vars /\ WF_vars(Fill \/ Verify)
Unset(x) == IF x = "proba" THEN given[x] = <<>> ELSE given[x] = 0
Kept == \A x \in DOMAIN given : ~Unset(x) => cur[x] = given[x]
Complete == ph \in {"filled", "accepted"} => cur = Filled(algo, cur)
Valid == ph = "accepted" =>
  CASE algo = "kmeans" -> cur.k >= 1
    [] algo = "mcmc" -> cur.k >= 1 /\ cur.k <= cur.maxk /\ cur.norm > 0 /\ cur.b > 0 /\ Len(cur.proba) = 3
    [] algo = "streaming" -> cur.buf > 0 /\ cur.after >= 2 /\ cur.ratio > 0 /\ cur.sigma > 0
\* refusal is for good, and acceptance too
Stable == [][ph = "accepted" => (cur' = cur /\ ph' # "refused")]_vars
StaysAccepted == [][(ph = "filled" /\ ph' = "refused") => AlgoRefused(algo, Filled(algo, given))]_vars
Decided == <>(ph \in {"accepted", "refused"})
=============================================================================

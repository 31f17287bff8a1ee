------------------------------- MODULE Cases --------------------------------
(* Judges the cases recorded from the real code: one state per case, whose   *)
(* result has to be the one specified.  Rejected cases are printed.          *)
EXTENDS Clustering, Conf, IOUtils, Json
mcmc == INSTANCE Mcmc
stream == INSTANCE Streaming
copy == INSTANCE Copy
late == INSTANCE Late
ddtw == INSTANCE DTW
mvt == INSTANCE MultivT
repro == INSTANCE Repro
flood == INSTANCE Flood
fault == INSTANCE Fault

CasesOf == ndJsonDeserialize(IOEnv.CASES)
ASSUME TLCSet(42, CasesOf)
All == TLCGet(42)

CaseOK(c) ==
  CASE c.crash # "" -> FALSE
    [] c.k = "space"    -> SpaceOK(c)
    [] c.k = "serspace" -> SeriesSpaceOK(c)
    [] c.k = "assign"   -> AssignOK(c)
    [] c.k = "reduce"   -> ReduceOK(c)
    [] c.k = "avg"      -> AvgOK(c)
    [] c.k = "par"      -> ParOK(c)
    [] c.k = "wdraw"    -> DrawOK(c)
    [] c.k = "init"     -> InitOK(c)
    [] c.k = "failinit" -> FailInitOK(c)
    [] c.k = "conf"     -> ConfOK(c)
    [] c.k = "fin"      -> FinOK(c)
    [] c.k = "dtw"      -> ddtw!DtwOK(c)
    [] c.k = "dtwdist"  -> ddtw!DtwDistOK(c)
    [] c.k = "dba"      -> ddtw!DbaOK(c)
    [] c.k = "resize"   -> ddtw!ResizeOK(c)
    [] c.k = "interp"   -> ddtw!InterpOK(c)
    [] c.k = "lloyd"    -> mcmc!LloydOK(c)
    [] c.k = "mcmc"     -> mcmc!McmcOK(c)
    [] c.k = "store"    -> mcmc!StoreOK(c)
    [] c.k = "stream"   -> stream!StreamOK(c)
    [] c.k = "copy"     -> copy!CopyOK(c)
    [] c.k = "scopy"    -> copy!StreamCopyOK(c)
    [] c.k = "late"     -> late!LateOK(c)
    [] c.k = "mvtpdf"    -> mvt!MvtPdfOK(c)
    [] c.k = "mvtsample" -> mvt!MvtSampleOK(c)
    [] c.k = "mvtlaw"    -> mvt!MvtLawOK(c)
    [] c.k = "mvtconf"   -> mvt!MvtConfOK(c)
    [] c.k = "dirac"     -> mvt!DiracOK(c)
    [] c.k = "flood"    -> flood!FloodOK(c)
    [] c.k = "fault"    -> fault!FaultOK(c)
    [] c.k = "repro"    -> repro!ReproOK(c)
    [] c.k = "atomic"   -> c.done
    [] c.k = "snap"     -> ~c.mut /\ c.consistent

\* known findings, by key
Known(c) == IF c.crash = "" /\ c.k = "mvtpdf" THEN (IF mvt!MvtPdfKnown(c) THEN "mvt-scale" ELSE "") ELSE ""

VARIABLE i
Init == i = 0
Next == /\ i < Len(All)
        /\ i' = i + 1
        /\ IF CaseOK(All[i+1]) THEN TRUE ELSE PrintT(<<"BAD", i + 1, Known(All[i+1])>>)
Spec == Init /\ [][Next]_i
Done == i < Len(All) \/ PrintT(<<"JUDGED", i>>)
=============================================================================

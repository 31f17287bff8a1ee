------------------------------- MODULE LateMC --------------------------------
(* The late distribution (mcmc/latedistrib.go, property C21), step by step:  *)
(* a flag read atomically, a lock, a second look at the flag, a build in two *)
(* steps, a plain store of the distribution, an atomic store of the flag.    *)
(* Its observable events are folded by the operator that judges the histories*)
(* recorded from the real code; plain accesses must not race.                *)
EXTENDS Late
CONSTANTS Callers, Calls
VARIABLES pc, left, lock, flag, dist, builds, seen, s
vars == <<pc, left, lock, flag, dist, builds, seen, s>>
Log(e) == s' = LateEvent(s, e)
Quiet == UNCHANGED s

Init == /\ pc = [i \in Callers |-> "out"] /\ left = [i \in Callers |-> Calls]
        /\ lock = 0 /\ flag = 0 /\ dist = 0 /\ builds = 0 /\ seen = [i \in Callers |-> 0] /\ s = LateStart
Goto(i, l) == pc' = [pc EXCEPT ![i] = l]
CallIt(i) == /\ pc[i] = "out" /\ left[i] > 0 /\ Goto(i, "load") /\ left' = [left EXCEPT ![i] = @ - 1]
             /\ Log([t |-> "call", i |-> i, els |-> <<i>>]) /\ UNCHANGED <<lock, flag, dist, builds, seen>>
Load(i) == /\ pc[i] = "load" /\ Goto(i, IF flag = 0 THEN "lock" ELSE "use")
           /\ Quiet /\ UNCHANGED <<left, lock, flag, dist, builds, seen>>
Lock(i) == /\ pc[i] = "lock" /\ lock = 0 /\ lock' = i /\ Goto(i, "check")
           /\ Quiet /\ UNCHANGED <<left, flag, dist, builds, seen>>
Check(i) == /\ pc[i] = "check" /\ Goto(i, IF flag = 0 THEN "build" ELSE "unlock")
            /\ Quiet /\ UNCHANGED <<left, lock, flag, dist, builds, seen>>
Build(i) == /\ pc[i] = "build" /\ Goto(i, "building") /\ builds' = builds + 1
            /\ Log([t |-> "build", i |-> i, el |-> i]) /\ UNCHANGED <<left, lock, flag, dist, seen>>
Built(i) == /\ pc[i] = "building" /\ Goto(i, "store") /\ seen' = [seen EXCEPT ![i] = builds]
            /\ Log([t |-> "built", i |-> i, by |-> builds]) /\ UNCHANGED <<left, lock, flag, dist, builds>>
Store(i) == /\ pc[i] = "store" /\ dist' = seen[i] /\ Goto(i, "flag")
            /\ Quiet /\ UNCHANGED <<left, lock, flag, builds, seen>>
Flag(i) == /\ pc[i] = "flag" /\ flag' = 1 /\ Goto(i, "unlock")
           /\ Quiet /\ UNCHANGED <<left, lock, dist, builds, seen>>
Unlock(i) == /\ pc[i] = "unlock" /\ lock' = 0 /\ Goto(i, "use")
             /\ Quiet /\ UNCHANGED <<left, flag, dist, builds, seen>>
Use(i) == /\ pc[i] = "use" /\ seen' = [seen EXCEPT ![i] = dist] /\ Goto(i, "ret")
          /\ Quiet /\ UNCHANGED <<left, lock, flag, dist, builds>>
Ret(i) == /\ pc[i] = "ret" /\ Goto(i, "out")
          /\ Log([t |-> "ret", i |-> i, by |-> seen[i], ok |-> TRUE]) /\ UNCHANGED <<left, lock, flag, dist, builds, seen>>
Step(i) == CallIt(i) \/ Load(i) \/ Lock(i) \/ Check(i) \/ Build(i) \/ Built(i) \/ Store(i) \/ Flag(i)
           \/ Unlock(i) \/ Use(i) \/ Ret(i)
Next == \E i \in Callers : Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Callers : WF_vars(Step(i))

OnceOK == builds <= 1 /\ s.ok
\* no plain access of the distribution is concurrent with its store
NoRace == \A i, j \in Callers : ~(pc[i] = "store" /\ pc[j] = "use")
UsedBuilt == \A i \in Callers : pc[i] = "ret" => seen[i] = 1
AllReturn == <>(\A i \in Callers : pc[i] = "out" /\ left[i] = 0)
=============================================================================

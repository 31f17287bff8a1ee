------------------------------ MODULE Protocol ------------------------------
(* The mechanism of core/ctrl.go and core/algo.go: one action per critical   *)
(* section.  Clients, executions (runs) and timeouts share the status (under *)
(* a readers-writer lock s), the model (under another, m) and two unbuffered *)
(* channels per run: commands are offered to the run, which acknowledges     *)
(* them; the end of the run closes the channel of acknowledgments.  Commands *)
(* are serialised by a lock c.  Go's readers-writer locks are modelled with  *)
(* the priority of waiting writers.                                          *)
(* Checked: no deadlock (C03), no unordered accesses (C02, C11), one loop at *)
(* a time and quiescence when a command has returned (C04), every status     *)
(* change is one of the workflow (C01), every call ends (C03).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, MaxRuns, Budgets, Ops, MaxIter, Fail, Timeouts

Runs == 1..MaxRuns
Run(r) == 100 + r
Tmo(r) == 200 + r
B11 == <<1, 1>>
B21 == <<2, 1>>
B111 == <<1, 1, 1>>
B31 == <<3, 1>>
B22 == <<2, 2>>
None == 0
Procs == Clients \cup {Run(i) : i \in Runs} \cup {Tmo(i) : i \in Runs}
Free == [w |-> None, r |-> {}, q |-> {}]

(* --fair algorithm Protocol
variables
  status = "Created", cur = 0, s = Free, m = Free, c = None,
  spawned = 0, pushed = 0, iters = 0, centroids = "none", initf = FALSE,
  offer = [i \in Runs |-> "none"],   \* a command offered on the channel of the run
  waiting = [i \in Runs |-> None],   \* who waits for an acknowledgment
  acked = [i \in Runs |-> FALSE], closed = [i \in Runs |-> FALSE],
  disabled = [i \in Runs |-> FALSE],
  sent = [p \in Procs |-> FALSE], ok = [p \in Procs |-> FALSE], \* results of procedures
  budget = Budgets;

define
  Quiet == \A i \in Clients : pc[i] = "Done"
  Over == Quiet /\ \A i \in Runs : pc[Tmo(i)] = "Done"
  CanR(l) == l.w = None /\ l.q = {}
  CanW(l) == l.w = None /\ l.r = {}
end define;

macro rlock(l) begin await CanR(l); l.r := l.r \cup {self}; end macro;
macro runlock(l) begin l.r := l.r \ {self}; end macro;
macro want(l) begin l.q := l.q \cup {self}; end macro;
macro wlock(l) begin await CanW(l); l := [w |-> self, r |-> {}, q |-> l.q \ {self}]; end macro;
macro wunlock(l) begin l.w := None; end macro;
macro setStatus(v) begin status := v; end macro;

\* offers a command to run r; sets sent
procedure send(cmd = "", r = 0) begin
  snd: offer[r] := cmd;
  sel: either await offer[r] = "taken"; offer[r] := "none"; waiting[r] := self;
         ack: await acked[r] \/ closed[r];
              acked[r] := FALSE; waiting[r] := None; sent[self] := TRUE; return;
       or await closed[r] /\ offer[r] # "taken"; offer[r] := "none"; sent[self] := FALSE; return;
       end either;
end procedure;

\* starts a run: s is held
procedure start() begin
  st1: if spawned = MaxRuns then return; \* bound of the model
       else spawned := spawned + 1; cur := spawned; setStatus("Running");
            disabled := [i \in Runs |-> disabled[i] \/ i < spawned];
       end if;
  st2: rlock(m);
  st3: runlock(m); return;
end procedure;

\* initialises: s (and c) are held; sets ok
procedure init() begin
  in1: if status \in {"Created", "Finished"} then
         if status = "Finished" then
           in2: want(m);
           in3: wlock(m);
           in4: pushed := 0; iters := 0; wunlock(m); cur := 0;
         end if;
         in5: setStatus("Initializing");
         in5a: rlock(m); \* the implementation is given a copy of the model
         in5b: runlock(m);
         in6: if Fail then either initf := TRUE; or initf := FALSE; end either; end if;
         in7: if initf then setStatus("Finished"); ok[self] := FALSE; return;
              else want(m); end if;
         in8: wlock(m);
         in9: centroids := "init"; wunlock(m); setStatus("Ready"); ok[self] := TRUE; return;
       else ok[self] := FALSE; return;
       end if;
end procedure;

\* interrupts the last run (only run, when not 0)
procedure interrupt(run = 0) variables st = "", rr = 0; begin
  it1: await c = None; c := self;
  it2: want(s);
  it3: wlock(s);
  it4: st := status; rr := cur;
       if run # 0 /\ run # cur then wunlock(s); goto it7;
       elsif status = "Ready" then setStatus("Finished"); wunlock(s); goto it7;
       else wunlock(s); end if;
  it5: if st \notin {"Running", "Idle"} then goto it7;
       else call send("Finished", rr); end if;
  it6: if ~sent[self] then goto it2; end if;
  it7: c := None; sent[self] := FALSE; return;
end procedure;

fair process client \in Clients
variables op = "", val = "", k = 0;
begin
  cl: while budget[self] > 0 do
        budget[self] := budget[self] - 1;
        with o \in Ops do op := o; end with;
    go: if op = "play" then
          p1: await c = None; c := self;
          p2: rlock(s);
          p3: val := status; k := cur; runlock(s);
          p4: if val = "Idle" then call send("Running", k); goto p9; else want(s); end if;
          p5: wlock(s);
          p6: if status \in {"Created", "Finished"} then call init();
              elsif status = "Ready" then ok[self] := TRUE;
              else ok[self] := FALSE; end if;
          p7: if ok[self] then call start(); end if;
          p8: wunlock(s);
          p9: c := None; ok[self] := FALSE; sent[self] := FALSE; val := ""; k := 0;
        elsif op = "pause" then
          a1: await c = None; c := self;
          a2: rlock(s);
          a3: val := status; k := cur; runlock(s);
          a4: if val = "Running" then call send("Idle", k); end if;
          a5: c := None; sent[self] := FALSE; val := ""; k := 0;
        elsif op = "stop" then call interrupt(0);
        elsif op = "init" then
          i1: await c = None; c := self;
          i2: want(s);
          i3: wlock(s);
          i4: call init();
          i5: wunlock(s); c := None; ok[self] := FALSE;
        elsif op = "push" then
          u1: want(s);
          u2: wlock(s);
          u3: want(m);
          u4: wlock(m);
          u5: pushed := pushed + 1; wunlock(m);
          u6: if status = "Ready" then call start(); end if; \* automatic restart
          u7: wunlock(s);
        elsif op = "read" then
          r1: rlock(s);
          r2: runlock(s);
          r3: rlock(m);
          r4: runlock(m);
        end if;
      end while;
end process;

fair process run \in {Run(i) : i \in Runs}
variables r = self - 100, err = FALSE, n = 0, seen = 0, fin = FALSE, cmd = "";
begin
  w:  await spawned >= r \/ Quiet;
      if spawned < r then goto t7; end if;
  l0: skip; \* reads the centroids
  l1: if err \/ status # "Running" then goto t1; end if; \* reads the status without lock
  l2: rlock(m);
  l3: seen := pushed; runlock(m);
  l4: rlock(m);
  l5: fin := n >= MaxIter; runlock(m);
      if ~fin then seen := 0; goto s1; end if;
  l6: want(s);
  l7: wlock(s);
  l8: fin := FALSE;
      if pushed # seen then seen := 0; wunlock(s); goto l2;
      else seen := 0; setStatus("Ready"); want(m); end if;
  l9: wlock(m);
  la: wunlock(m); closed[r] := TRUE;
  lb: wunlock(s); goto t1;
  s1: if offer[r] \notin {"none", "taken"} then \* a command is offered
        cmd := offer[r]; offer[r] := "taken"; want(s);
        s2: wlock(s);
        s3: setStatus(cmd); wunlock(s);
        if cmd # "Idle" then cmd := ""; goto l1; end if;
        s4: await waiting[r] # None; acked[r] := TRUE;
        s5: await Over \/ offer[r] \notin {"none", "taken"};
            if offer[r] \in {"none", "taken"} then goto t7; \* paused for ever
            else cmd := offer[r]; offer[r] := "taken"; want(s); end if;
        s6: wlock(s);
        s7: setStatus(cmd); wunlock(s);
        if cmd = "Finished" then cmd := ""; goto l1; end if;
        s8: await waiting[r] # None /\ ~acked[r]; acked[r] := TRUE; cmd := ""; goto l1;
      end if;
  j1: rlock(m);
  j2: runlock(m); n := n + 1;
  jx: skip; \* reads the centroids and the status, without lock
  j3: if Fail then either err := TRUE; or skip; end either; end if; \* the iteration
  j4: if err then goto l1; else want(m); end if;
  j5: wlock(m);
  j6: iters := iters + 1; centroids := "iter"; wunlock(m); goto l1;
  t1: want(s);
  t2: wlock(s);
  t3: if closed[r] then goto t6;
      elsif err then setStatus("Finished"); end if;
  t4: want(m);
  t5: wlock(m);
  ty: wunlock(m); closed[r] := TRUE;
  t6: wunlock(s);
  t7: skip;
end process;

fair process timeout \in {Tmo(i) : i \in Runs}
variables x = self - 200;
begin
  z1: await spawned >= x \/ Quiet;
  z2: if spawned >= x /\ Timeouts /\ ~disabled[x] then call interrupt(x); end if;
  z3: skip;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "7c28162a" /\ chksum(tla) = "b45bdeb3")
\* Process run at line 155 col 6 changed to run_
\* Process variable r of process run at line 156 col 11 changed to r_
\* Process variable cmd of process run at line 156 col 70 changed to cmd_
VARIABLES pc, status, cur, s, m, c, spawned, pushed, iters, centroids, initf, 
          offer, waiting, acked, closed, disabled, sent, ok, budget, stack

(* define statement *)
Quiet == \A i \in Clients : pc[i] = "Done"
Over == Quiet /\ \A i \in Runs : pc[Tmo(i)] = "Done"
CanR(l) == l.w = None /\ l.q = {}
CanW(l) == l.w = None /\ l.r = {}

VARIABLES cmd, r, run, st, rr, op, val, k, r_, err, n, seen, fin, cmd_, x

vars == << pc, status, cur, s, m, c, spawned, pushed, iters, centroids, initf, 
           offer, waiting, acked, closed, disabled, sent, ok, budget, stack, 
           cmd, r, run, st, rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

ProcSet == (Clients) \cup ({Run(i) : i \in Runs}) \cup ({Tmo(i) : i \in Runs})

Init == (* Global variables *)
        /\ status = "Created"
        /\ cur = 0
        /\ s = Free
        /\ m = Free
        /\ c = None
        /\ spawned = 0
        /\ pushed = 0
        /\ iters = 0
        /\ centroids = "none"
        /\ initf = FALSE
        /\ offer = [i \in Runs |-> "none"]
        /\ waiting = [i \in Runs |-> None]
        /\ acked = [i \in Runs |-> FALSE]
        /\ closed = [i \in Runs |-> FALSE]
        /\ disabled = [i \in Runs |-> FALSE]
        /\ sent = [p \in Procs |-> FALSE]
        /\ ok = [p \in Procs |-> FALSE]
        /\ budget = Budgets
        (* Procedure send *)
        /\ cmd = [ self \in ProcSet |-> ""]
        /\ r = [ self \in ProcSet |-> 0]
        (* Procedure interrupt *)
        /\ run = [ self \in ProcSet |-> 0]
        /\ st = [ self \in ProcSet |-> ""]
        /\ rr = [ self \in ProcSet |-> 0]
        (* Process client *)
        /\ op = [self \in Clients |-> ""]
        /\ val = [self \in Clients |-> ""]
        /\ k = [self \in Clients |-> 0]
        (* Process run_ *)
        /\ r_ = [self \in {Run(i) : i \in Runs} |-> self - 100]
        /\ err = [self \in {Run(i) : i \in Runs} |-> FALSE]
        /\ n = [self \in {Run(i) : i \in Runs} |-> 0]
        /\ seen = [self \in {Run(i) : i \in Runs} |-> 0]
        /\ fin = [self \in {Run(i) : i \in Runs} |-> FALSE]
        /\ cmd_ = [self \in {Run(i) : i \in Runs} |-> ""]
        (* Process timeout *)
        /\ x = [self \in {Tmo(i) : i \in Runs} |-> self - 200]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Clients -> "cl"
                                        [] self \in {Run(i) : i \in Runs} -> "w"
                                        [] self \in {Tmo(i) : i \in Runs} -> "z1"]

snd(self) == /\ pc[self] = "snd"
             /\ offer' = [offer EXCEPT ![r[self]] = cmd[self]]
             /\ pc' = [pc EXCEPT ![self] = "sel"]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

sel(self) == /\ pc[self] = "sel"
             /\ \/ /\ offer[r[self]] = "taken"
                   /\ offer' = [offer EXCEPT ![r[self]] = "none"]
                   /\ waiting' = [waiting EXCEPT ![r[self]] = self]
                   /\ pc' = [pc EXCEPT ![self] = "ack"]
                   /\ UNCHANGED <<sent, stack, cmd, r>>
                \/ /\ closed[r[self]] /\ offer[r[self]] # "taken"
                   /\ offer' = [offer EXCEPT ![r[self]] = "none"]
                   /\ sent' = [sent EXCEPT ![self] = FALSE]
                   /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                   /\ cmd' = [cmd EXCEPT ![self] = Head(stack[self]).cmd]
                   /\ r' = [r EXCEPT ![self] = Head(stack[self]).r]
                   /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                   /\ UNCHANGED waiting
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, acked, closed, disabled, ok, 
                             budget, run, st, rr, op, val, k, r_, err, n, seen, 
                             fin, cmd_, x >>

ack(self) == /\ pc[self] = "ack"
             /\ acked[r[self]] \/ closed[r[self]]
             /\ acked' = [acked EXCEPT ![r[self]] = FALSE]
             /\ waiting' = [waiting EXCEPT ![r[self]] = None]
             /\ sent' = [sent EXCEPT ![self] = TRUE]
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ cmd' = [cmd EXCEPT ![self] = Head(stack[self]).cmd]
             /\ r' = [r EXCEPT ![self] = Head(stack[self]).r]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, closed, disabled, ok, 
                             budget, run, st, rr, op, val, k, r_, err, n, seen, 
                             fin, cmd_, x >>

send(self) == snd(self) \/ sel(self) \/ ack(self)

st1(self) == /\ pc[self] = "st1"
             /\ IF spawned = MaxRuns
                   THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                        /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                        /\ UNCHANGED << status, cur, spawned, disabled >>
                   ELSE /\ spawned' = spawned + 1
                        /\ cur' = spawned'
                        /\ status' = "Running"
                        /\ disabled' = [i \in Runs |-> disabled[i] \/ i < spawned']
                        /\ pc' = [pc EXCEPT ![self] = "st2"]
                        /\ stack' = stack
             /\ UNCHANGED << s, m, c, pushed, iters, centroids, initf, offer, 
                             waiting, acked, closed, sent, ok, budget, cmd, r, 
                             run, st, rr, op, val, k, r_, err, n, seen, fin, 
                             cmd_, x >>

st2(self) == /\ pc[self] = "st2"
             /\ CanR(m)
             /\ m' = [m EXCEPT !.r = m.r \cup {self}]
             /\ pc' = [pc EXCEPT ![self] = "st3"]
             /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

st3(self) == /\ pc[self] = "st3"
             /\ m' = [m EXCEPT !.r = m.r \ {self}]
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, cmd, r, run, st, rr, 
                             op, val, k, r_, err, n, seen, fin, cmd_, x >>

start(self) == st1(self) \/ st2(self) \/ st3(self)

in1(self) == /\ pc[self] = "in1"
             /\ IF status \in {"Created", "Finished"}
                   THEN /\ IF status = "Finished"
                              THEN /\ pc' = [pc EXCEPT ![self] = "in2"]
                              ELSE /\ pc' = [pc EXCEPT ![self] = "in5"]
                        /\ UNCHANGED << ok, stack >>
                   ELSE /\ ok' = [ok EXCEPT ![self] = FALSE]
                        /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                        /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, budget, cmd, r, run, st, rr, op, 
                             val, k, r_, err, n, seen, fin, cmd_, x >>

in5(self) == /\ pc[self] = "in5"
             /\ status' = "Initializing"
             /\ pc' = [pc EXCEPT ![self] = "in5a"]
             /\ UNCHANGED << cur, s, m, c, spawned, pushed, iters, centroids, 
                             initf, offer, waiting, acked, closed, disabled, 
                             sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                             val, k, r_, err, n, seen, fin, cmd_, x >>

in5a(self) == /\ pc[self] = "in5a"
              /\ CanR(m)
              /\ m' = [m EXCEPT !.r = m.r \cup {self}]
              /\ pc' = [pc EXCEPT ![self] = "in5b"]
              /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                              centroids, initf, offer, waiting, acked, closed, 
                              disabled, sent, ok, budget, stack, cmd, r, run, 
                              st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                              x >>

in5b(self) == /\ pc[self] = "in5b"
              /\ m' = [m EXCEPT !.r = m.r \ {self}]
              /\ pc' = [pc EXCEPT ![self] = "in6"]
              /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                              centroids, initf, offer, waiting, acked, closed, 
                              disabled, sent, ok, budget, stack, cmd, r, run, 
                              st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                              x >>

in6(self) == /\ pc[self] = "in6"
             /\ IF Fail
                   THEN /\ \/ /\ initf' = TRUE
                           \/ /\ initf' = FALSE
                   ELSE /\ TRUE
                        /\ initf' = initf
             /\ pc' = [pc EXCEPT ![self] = "in7"]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

in7(self) == /\ pc[self] = "in7"
             /\ IF initf
                   THEN /\ status' = "Finished"
                        /\ ok' = [ok EXCEPT ![self] = FALSE]
                        /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                        /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                        /\ m' = m
                   ELSE /\ m' = [m EXCEPT !.q = m.q \cup {self}]
                        /\ pc' = [pc EXCEPT ![self] = "in8"]
                        /\ UNCHANGED << status, ok, stack >>
             /\ UNCHANGED << cur, s, c, spawned, pushed, iters, centroids, 
                             initf, offer, waiting, acked, closed, disabled, 
                             sent, budget, cmd, r, run, st, rr, op, val, k, r_, 
                             err, n, seen, fin, cmd_, x >>

in8(self) == /\ pc[self] = "in8"
             /\ CanW(m)
             /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
             /\ pc' = [pc EXCEPT ![self] = "in9"]
             /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

in9(self) == /\ pc[self] = "in9"
             /\ centroids' = "init"
             /\ m' = [m EXCEPT !.w = None]
             /\ status' = "Ready"
             /\ ok' = [ok EXCEPT ![self] = TRUE]
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << cur, s, c, spawned, pushed, iters, initf, offer, 
                             waiting, acked, closed, disabled, sent, budget, 
                             cmd, r, run, st, rr, op, val, k, r_, err, n, seen, 
                             fin, cmd_, x >>

in2(self) == /\ pc[self] = "in2"
             /\ m' = [m EXCEPT !.q = m.q \cup {self}]
             /\ pc' = [pc EXCEPT ![self] = "in3"]
             /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

in3(self) == /\ pc[self] = "in3"
             /\ CanW(m)
             /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
             /\ pc' = [pc EXCEPT ![self] = "in4"]
             /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

in4(self) == /\ pc[self] = "in4"
             /\ pushed' = 0
             /\ iters' = 0
             /\ m' = [m EXCEPT !.w = None]
             /\ cur' = 0
             /\ pc' = [pc EXCEPT ![self] = "in5"]
             /\ UNCHANGED << status, s, c, spawned, centroids, initf, offer, 
                             waiting, acked, closed, disabled, sent, ok, 
                             budget, stack, cmd, r, run, st, rr, op, val, k, 
                             r_, err, n, seen, fin, cmd_, x >>

init(self) == in1(self) \/ in5(self) \/ in5a(self) \/ in5b(self)
                 \/ in6(self) \/ in7(self) \/ in8(self) \/ in9(self)
                 \/ in2(self) \/ in3(self) \/ in4(self)

it1(self) == /\ pc[self] = "it1"
             /\ c = None
             /\ c' = self
             /\ pc' = [pc EXCEPT ![self] = "it2"]
             /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

it2(self) == /\ pc[self] = "it2"
             /\ s' = [s EXCEPT !.q = s.q \cup {self}]
             /\ pc' = [pc EXCEPT ![self] = "it3"]
             /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

it3(self) == /\ pc[self] = "it3"
             /\ CanW(s)
             /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
             /\ pc' = [pc EXCEPT ![self] = "it4"]
             /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

it4(self) == /\ pc[self] = "it4"
             /\ st' = [st EXCEPT ![self] = status]
             /\ rr' = [rr EXCEPT ![self] = cur]
             /\ IF run[self] # 0 /\ run[self] # cur
                   THEN /\ s' = [s EXCEPT !.w = None]
                        /\ pc' = [pc EXCEPT ![self] = "it7"]
                        /\ UNCHANGED status
                   ELSE /\ IF status = "Ready"
                              THEN /\ status' = "Finished"
                                   /\ s' = [s EXCEPT !.w = None]
                                   /\ pc' = [pc EXCEPT ![self] = "it7"]
                              ELSE /\ s' = [s EXCEPT !.w = None]
                                   /\ pc' = [pc EXCEPT ![self] = "it5"]
                                   /\ UNCHANGED status
             /\ UNCHANGED << cur, m, c, spawned, pushed, iters, centroids, 
                             initf, offer, waiting, acked, closed, disabled, 
                             sent, ok, budget, stack, cmd, r, run, op, val, k, 
                             r_, err, n, seen, fin, cmd_, x >>

it5(self) == /\ pc[self] = "it5"
             /\ IF st[self] \notin {"Running", "Idle"}
                   THEN /\ pc' = [pc EXCEPT ![self] = "it7"]
                        /\ UNCHANGED << stack, cmd, r >>
                   ELSE /\ /\ cmd' = [cmd EXCEPT ![self] = "Finished"]
                           /\ r' = [r EXCEPT ![self] = rr[self]]
                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "send",
                                                                    pc        |->  "it6",
                                                                    cmd       |->  cmd[self],
                                                                    r         |->  r[self] ] >>
                                                                \o stack[self]]
                        /\ pc' = [pc EXCEPT ![self] = "snd"]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, run, st, rr, op, val, 
                             k, r_, err, n, seen, fin, cmd_, x >>

it6(self) == /\ pc[self] = "it6"
             /\ IF ~sent[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "it2"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "it7"]
             /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, sent, ok, budget, stack, cmd, r, run, 
                             st, rr, op, val, k, r_, err, n, seen, fin, cmd_, 
                             x >>

it7(self) == /\ pc[self] = "it7"
             /\ c' = None
             /\ sent' = [sent EXCEPT ![self] = FALSE]
             /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
             /\ st' = [st EXCEPT ![self] = Head(stack[self]).st]
             /\ rr' = [rr EXCEPT ![self] = Head(stack[self]).rr]
             /\ run' = [run EXCEPT ![self] = Head(stack[self]).run]
             /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
             /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                             centroids, initf, offer, waiting, acked, closed, 
                             disabled, ok, budget, cmd, r, op, val, k, r_, err, 
                             n, seen, fin, cmd_, x >>

interrupt(self) == it1(self) \/ it2(self) \/ it3(self) \/ it4(self)
                      \/ it5(self) \/ it6(self) \/ it7(self)

cl(self) == /\ pc[self] = "cl"
            /\ IF budget[self] > 0
                  THEN /\ budget' = [budget EXCEPT ![self] = budget[self] - 1]
                       /\ \E o \in Ops:
                            op' = [op EXCEPT ![self] = o]
                       /\ pc' = [pc EXCEPT ![self] = "go"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << budget, op >>
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, stack, cmd, r, run, st, rr, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

go(self) == /\ pc[self] = "go"
            /\ IF op[self] = "play"
                  THEN /\ pc' = [pc EXCEPT ![self] = "p1"]
                       /\ UNCHANGED << stack, run, st, rr >>
                  ELSE /\ IF op[self] = "pause"
                             THEN /\ pc' = [pc EXCEPT ![self] = "a1"]
                                  /\ UNCHANGED << stack, run, st, rr >>
                             ELSE /\ IF op[self] = "stop"
                                        THEN /\ /\ run' = [run EXCEPT ![self] = 0]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "interrupt",
                                                                                         pc        |->  "cl",
                                                                                         st        |->  st[self],
                                                                                         rr        |->  rr[self],
                                                                                         run       |->  run[self] ] >>
                                                                                     \o stack[self]]
                                             /\ st' = [st EXCEPT ![self] = ""]
                                             /\ rr' = [rr EXCEPT ![self] = 0]
                                             /\ pc' = [pc EXCEPT ![self] = "it1"]
                                        ELSE /\ IF op[self] = "init"
                                                   THEN /\ pc' = [pc EXCEPT ![self] = "i1"]
                                                   ELSE /\ IF op[self] = "push"
                                                              THEN /\ pc' = [pc EXCEPT ![self] = "u1"]
                                                              ELSE /\ IF op[self] = "read"
                                                                         THEN /\ pc' = [pc EXCEPT ![self] = "r1"]
                                                                         ELSE /\ pc' = [pc EXCEPT ![self] = "cl"]
                                             /\ UNCHANGED << stack, run, st, 
                                                             rr >>
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, cmd, r, op, val, k, r_, 
                            err, n, seen, fin, cmd_, x >>

p1(self) == /\ pc[self] = "p1"
            /\ c = None
            /\ c' = self
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

p2(self) == /\ pc[self] = "p2"
            /\ CanR(s)
            /\ s' = [s EXCEPT !.r = s.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "p3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

p3(self) == /\ pc[self] = "p3"
            /\ val' = [val EXCEPT ![self] = status]
            /\ k' = [k EXCEPT ![self] = cur]
            /\ s' = [s EXCEPT !.r = s.r \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "p4"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, r_, err, n, seen, fin, cmd_, x >>

p4(self) == /\ pc[self] = "p4"
            /\ IF val[self] = "Idle"
                  THEN /\ /\ cmd' = [cmd EXCEPT ![self] = "Running"]
                          /\ r' = [r EXCEPT ![self] = k[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "send",
                                                                   pc        |->  "p9",
                                                                   cmd       |->  cmd[self],
                                                                   r         |->  r[self] ] >>
                                                               \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "snd"]
                       /\ s' = s
                  ELSE /\ s' = [s EXCEPT !.q = s.q \cup {self}]
                       /\ pc' = [pc EXCEPT ![self] = "p5"]
                       /\ UNCHANGED << stack, cmd, r >>
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, run, st, rr, op, val, 
                            k, r_, err, n, seen, fin, cmd_, x >>

p5(self) == /\ pc[self] = "p5"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "p6"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

p6(self) == /\ pc[self] = "p6"
            /\ IF status \in {"Created", "Finished"}
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "init",
                                                                pc        |->  "p7" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "in1"]
                       /\ ok' = ok
                  ELSE /\ IF status = "Ready"
                             THEN /\ ok' = [ok EXCEPT ![self] = TRUE]
                             ELSE /\ ok' = [ok EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "p7"]
                       /\ stack' = stack
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, budget, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

p7(self) == /\ pc[self] = "p7"
            /\ IF ok[self]
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "start",
                                                                pc        |->  "p8" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "st1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p8"]
                       /\ stack' = stack
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, cmd, r, run, st, rr, 
                            op, val, k, r_, err, n, seen, fin, cmd_, x >>

p8(self) == /\ pc[self] = "p8"
            /\ s' = [s EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "p9"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

p9(self) == /\ pc[self] = "p9"
            /\ c' = None
            /\ ok' = [ok EXCEPT ![self] = FALSE]
            /\ sent' = [sent EXCEPT ![self] = FALSE]
            /\ val' = [val EXCEPT ![self] = ""]
            /\ k' = [k EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "cl"]
            /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, budget, stack, cmd, r, run, st, rr, op, 
                            r_, err, n, seen, fin, cmd_, x >>

a1(self) == /\ pc[self] = "a1"
            /\ c = None
            /\ c' = self
            /\ pc' = [pc EXCEPT ![self] = "a2"]
            /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

a2(self) == /\ pc[self] = "a2"
            /\ CanR(s)
            /\ s' = [s EXCEPT !.r = s.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "a3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

a3(self) == /\ pc[self] = "a3"
            /\ val' = [val EXCEPT ![self] = status]
            /\ k' = [k EXCEPT ![self] = cur]
            /\ s' = [s EXCEPT !.r = s.r \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "a4"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, r_, err, n, seen, fin, cmd_, x >>

a4(self) == /\ pc[self] = "a4"
            /\ IF val[self] = "Running"
                  THEN /\ /\ cmd' = [cmd EXCEPT ![self] = "Idle"]
                          /\ r' = [r EXCEPT ![self] = k[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "send",
                                                                   pc        |->  "a5",
                                                                   cmd       |->  cmd[self],
                                                                   r         |->  r[self] ] >>
                                                               \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "snd"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a5"]
                       /\ UNCHANGED << stack, cmd, r >>
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, run, st, rr, op, val, 
                            k, r_, err, n, seen, fin, cmd_, x >>

a5(self) == /\ pc[self] = "a5"
            /\ c' = None
            /\ sent' = [sent EXCEPT ![self] = FALSE]
            /\ val' = [val EXCEPT ![self] = ""]
            /\ k' = [k EXCEPT ![self] = 0]
            /\ pc' = [pc EXCEPT ![self] = "cl"]
            /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, ok, budget, stack, cmd, r, run, st, rr, 
                            op, r_, err, n, seen, fin, cmd_, x >>

i1(self) == /\ pc[self] = "i1"
            /\ c = None
            /\ c' = self
            /\ pc' = [pc EXCEPT ![self] = "i2"]
            /\ UNCHANGED << status, cur, s, m, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

i2(self) == /\ pc[self] = "i2"
            /\ s' = [s EXCEPT !.q = s.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "i3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

i3(self) == /\ pc[self] = "i3"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "i4"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

i4(self) == /\ pc[self] = "i4"
            /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "init",
                                                     pc        |->  "i5" ] >>
                                                 \o stack[self]]
            /\ pc' = [pc EXCEPT ![self] = "in1"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, cmd, r, run, st, rr, 
                            op, val, k, r_, err, n, seen, fin, cmd_, x >>

i5(self) == /\ pc[self] = "i5"
            /\ s' = [s EXCEPT !.w = None]
            /\ c' = None
            /\ ok' = [ok EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "cl"]
            /\ UNCHANGED << status, cur, m, spawned, pushed, iters, centroids, 
                            initf, offer, waiting, acked, closed, disabled, 
                            sent, budget, stack, cmd, r, run, st, rr, op, val, 
                            k, r_, err, n, seen, fin, cmd_, x >>

u1(self) == /\ pc[self] = "u1"
            /\ s' = [s EXCEPT !.q = s.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "u2"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

u2(self) == /\ pc[self] = "u2"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "u3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

u3(self) == /\ pc[self] = "u3"
            /\ m' = [m EXCEPT !.q = m.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "u4"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

u4(self) == /\ pc[self] = "u4"
            /\ CanW(m)
            /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "u5"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

u5(self) == /\ pc[self] = "u5"
            /\ pushed' = pushed + 1
            /\ m' = [m EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "u6"]
            /\ UNCHANGED << status, cur, s, c, spawned, iters, centroids, 
                            initf, offer, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

u6(self) == /\ pc[self] = "u6"
            /\ IF status = "Ready"
                  THEN /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "start",
                                                                pc        |->  "u7" ] >>
                                                            \o stack[self]]
                       /\ pc' = [pc EXCEPT ![self] = "st1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "u7"]
                       /\ stack' = stack
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, cmd, r, run, st, rr, 
                            op, val, k, r_, err, n, seen, fin, cmd_, x >>

u7(self) == /\ pc[self] = "u7"
            /\ s' = [s EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "cl"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

r1(self) == /\ pc[self] = "r1"
            /\ CanR(s)
            /\ s' = [s EXCEPT !.r = s.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "r2"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

r2(self) == /\ pc[self] = "r2"
            /\ s' = [s EXCEPT !.r = s.r \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "r3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

r3(self) == /\ pc[self] = "r3"
            /\ CanR(m)
            /\ m' = [m EXCEPT !.r = m.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "r4"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

r4(self) == /\ pc[self] = "r4"
            /\ m' = [m EXCEPT !.r = m.r \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "cl"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

client(self) == cl(self) \/ go(self) \/ p1(self) \/ p2(self) \/ p3(self)
                   \/ p4(self) \/ p5(self) \/ p6(self) \/ p7(self)
                   \/ p8(self) \/ p9(self) \/ a1(self) \/ a2(self)
                   \/ a3(self) \/ a4(self) \/ a5(self) \/ i1(self)
                   \/ i2(self) \/ i3(self) \/ i4(self) \/ i5(self)
                   \/ u1(self) \/ u2(self) \/ u3(self) \/ u4(self)
                   \/ u5(self) \/ u6(self) \/ u7(self) \/ r1(self)
                   \/ r2(self) \/ r3(self) \/ r4(self)

w(self) == /\ pc[self] = "w"
           /\ spawned >= r_[self] \/ Quiet
           /\ IF spawned < r_[self]
                 THEN /\ pc' = [pc EXCEPT ![self] = "t7"]
                 ELSE /\ pc' = [pc EXCEPT ![self] = "l0"]
           /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                           centroids, initf, offer, waiting, acked, closed, 
                           disabled, sent, ok, budget, stack, cmd, r, run, st, 
                           rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l0(self) == /\ pc[self] = "l0"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "l1"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l1(self) == /\ pc[self] = "l1"
            /\ IF err[self] \/ status # "Running"
                  THEN /\ pc' = [pc EXCEPT ![self] = "t1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "l2"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l2(self) == /\ pc[self] = "l2"
            /\ CanR(m)
            /\ m' = [m EXCEPT !.r = m.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "l3"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l3(self) == /\ pc[self] = "l3"
            /\ seen' = [seen EXCEPT ![self] = pushed]
            /\ m' = [m EXCEPT !.r = m.r \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "l4"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, fin, cmd_, x >>

l4(self) == /\ pc[self] = "l4"
            /\ CanR(m)
            /\ m' = [m EXCEPT !.r = m.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "l5"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l5(self) == /\ pc[self] = "l5"
            /\ fin' = [fin EXCEPT ![self] = n[self] >= MaxIter]
            /\ m' = [m EXCEPT !.r = m.r \ {self}]
            /\ IF ~fin'[self]
                  THEN /\ seen' = [seen EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "s1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "l6"]
                       /\ seen' = seen
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, cmd_, x >>

l6(self) == /\ pc[self] = "l6"
            /\ s' = [s EXCEPT !.q = s.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "l7"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l7(self) == /\ pc[self] = "l7"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "l8"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

l8(self) == /\ pc[self] = "l8"
            /\ fin' = [fin EXCEPT ![self] = FALSE]
            /\ IF pushed # seen[self]
                  THEN /\ seen' = [seen EXCEPT ![self] = 0]
                       /\ s' = [s EXCEPT !.w = None]
                       /\ pc' = [pc EXCEPT ![self] = "l2"]
                       /\ UNCHANGED << status, m >>
                  ELSE /\ seen' = [seen EXCEPT ![self] = 0]
                       /\ status' = "Ready"
                       /\ m' = [m EXCEPT !.q = m.q \cup {self}]
                       /\ pc' = [pc EXCEPT ![self] = "l9"]
                       /\ s' = s
            /\ UNCHANGED << cur, c, spawned, pushed, iters, centroids, initf, 
                            offer, waiting, acked, closed, disabled, sent, ok, 
                            budget, stack, cmd, r, run, st, rr, op, val, k, r_, 
                            err, n, cmd_, x >>

l9(self) == /\ pc[self] = "l9"
            /\ CanW(m)
            /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "la"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

la(self) == /\ pc[self] = "la"
            /\ m' = [m EXCEPT !.w = None]
            /\ closed' = [closed EXCEPT ![r_[self]] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "lb"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

lb(self) == /\ pc[self] = "lb"
            /\ s' = [s EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "t1"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

s1(self) == /\ pc[self] = "s1"
            /\ IF offer[r_[self]] \notin {"none", "taken"}
                  THEN /\ cmd_' = [cmd_ EXCEPT ![self] = offer[r_[self]]]
                       /\ offer' = [offer EXCEPT ![r_[self]] = "taken"]
                       /\ s' = [s EXCEPT !.q = s.q \cup {self}]
                       /\ pc' = [pc EXCEPT ![self] = "s2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "j1"]
                       /\ UNCHANGED << s, offer, cmd_ >>
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, x >>

s2(self) == /\ pc[self] = "s2"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "s3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

s3(self) == /\ pc[self] = "s3"
            /\ status' = cmd_[self]
            /\ s' = [s EXCEPT !.w = None]
            /\ IF cmd_[self] # "Idle"
                  THEN /\ cmd_' = [cmd_ EXCEPT ![self] = ""]
                       /\ pc' = [pc EXCEPT ![self] = "l1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "s4"]
                       /\ cmd_' = cmd_
            /\ UNCHANGED << cur, m, c, spawned, pushed, iters, centroids, 
                            initf, offer, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, x >>

s4(self) == /\ pc[self] = "s4"
            /\ waiting[r_[self]] # None
            /\ acked' = [acked EXCEPT ![r_[self]] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "s5"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

s5(self) == /\ pc[self] = "s5"
            /\ Over \/ offer[r_[self]] \notin {"none", "taken"}
            /\ IF offer[r_[self]] \in {"none", "taken"}
                  THEN /\ pc' = [pc EXCEPT ![self] = "t7"]
                       /\ UNCHANGED << s, offer, cmd_ >>
                  ELSE /\ cmd_' = [cmd_ EXCEPT ![self] = offer[r_[self]]]
                       /\ offer' = [offer EXCEPT ![r_[self]] = "taken"]
                       /\ s' = [s EXCEPT !.q = s.q \cup {self}]
                       /\ pc' = [pc EXCEPT ![self] = "s6"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, x >>

s6(self) == /\ pc[self] = "s6"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "s7"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

s7(self) == /\ pc[self] = "s7"
            /\ status' = cmd_[self]
            /\ s' = [s EXCEPT !.w = None]
            /\ IF cmd_[self] = "Finished"
                  THEN /\ cmd_' = [cmd_ EXCEPT ![self] = ""]
                       /\ pc' = [pc EXCEPT ![self] = "l1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "s8"]
                       /\ cmd_' = cmd_
            /\ UNCHANGED << cur, m, c, spawned, pushed, iters, centroids, 
                            initf, offer, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, x >>

s8(self) == /\ pc[self] = "s8"
            /\ waiting[r_[self]] # None /\ ~acked[r_[self]]
            /\ acked' = [acked EXCEPT ![r_[self]] = TRUE]
            /\ cmd_' = [cmd_ EXCEPT ![self] = ""]
            /\ pc' = [pc EXCEPT ![self] = "l1"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, x >>

j1(self) == /\ pc[self] = "j1"
            /\ CanR(m)
            /\ m' = [m EXCEPT !.r = m.r \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "j2"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

j2(self) == /\ pc[self] = "j2"
            /\ m' = [m EXCEPT !.r = m.r \ {self}]
            /\ n' = [n EXCEPT ![self] = n[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "jx"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, seen, fin, cmd_, x >>

jx(self) == /\ pc[self] = "jx"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "j3"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

j3(self) == /\ pc[self] = "j3"
            /\ IF Fail
                  THEN /\ \/ /\ err' = [err EXCEPT ![self] = TRUE]
                          \/ /\ TRUE
                             /\ err' = err
                  ELSE /\ TRUE
                       /\ err' = err
            /\ pc' = [pc EXCEPT ![self] = "j4"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, n, seen, fin, cmd_, x >>

j4(self) == /\ pc[self] = "j4"
            /\ IF err[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "l1"]
                       /\ m' = m
                  ELSE /\ m' = [m EXCEPT !.q = m.q \cup {self}]
                       /\ pc' = [pc EXCEPT ![self] = "j5"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

j5(self) == /\ pc[self] = "j5"
            /\ CanW(m)
            /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "j6"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

j6(self) == /\ pc[self] = "j6"
            /\ iters' = iters + 1
            /\ centroids' = "iter"
            /\ m' = [m EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "l1"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, initf, offer, 
                            waiting, acked, closed, disabled, sent, ok, budget, 
                            stack, cmd, r, run, st, rr, op, val, k, r_, err, n, 
                            seen, fin, cmd_, x >>

t1(self) == /\ pc[self] = "t1"
            /\ s' = [s EXCEPT !.q = s.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "t2"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

t2(self) == /\ pc[self] = "t2"
            /\ CanW(s)
            /\ s' = [w |-> self, r |-> {}, q |-> s.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "t3"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

t3(self) == /\ pc[self] = "t3"
            /\ IF closed[r_[self]]
                  THEN /\ pc' = [pc EXCEPT ![self] = "t6"]
                       /\ UNCHANGED status
                  ELSE /\ IF err[self]
                             THEN /\ status' = "Finished"
                             ELSE /\ TRUE
                                  /\ UNCHANGED status
                       /\ pc' = [pc EXCEPT ![self] = "t4"]
            /\ UNCHANGED << cur, s, m, c, spawned, pushed, iters, centroids, 
                            initf, offer, waiting, acked, closed, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

t4(self) == /\ pc[self] = "t4"
            /\ m' = [m EXCEPT !.q = m.q \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "t5"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

t5(self) == /\ pc[self] = "t5"
            /\ CanW(m)
            /\ m' = [w |-> self, r |-> {}, q |-> m.q \ {self}]
            /\ pc' = [pc EXCEPT ![self] = "ty"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

ty(self) == /\ pc[self] = "ty"
            /\ m' = [m EXCEPT !.w = None]
            /\ closed' = [closed EXCEPT ![r_[self]] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "t6"]
            /\ UNCHANGED << status, cur, s, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, disabled, 
                            sent, ok, budget, stack, cmd, r, run, st, rr, op, 
                            val, k, r_, err, n, seen, fin, cmd_, x >>

t6(self) == /\ pc[self] = "t6"
            /\ s' = [s EXCEPT !.w = None]
            /\ pc' = [pc EXCEPT ![self] = "t7"]
            /\ UNCHANGED << status, cur, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

t7(self) == /\ pc[self] = "t7"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

run_(self) == w(self) \/ l0(self) \/ l1(self) \/ l2(self) \/ l3(self)
                 \/ l4(self) \/ l5(self) \/ l6(self) \/ l7(self)
                 \/ l8(self) \/ l9(self) \/ la(self) \/ lb(self)
                 \/ s1(self) \/ s2(self) \/ s3(self) \/ s4(self)
                 \/ s5(self) \/ s6(self) \/ s7(self) \/ s8(self)
                 \/ j1(self) \/ j2(self) \/ jx(self) \/ j3(self)
                 \/ j4(self) \/ j5(self) \/ j6(self) \/ t1(self)
                 \/ t2(self) \/ t3(self) \/ t4(self) \/ t5(self)
                 \/ ty(self) \/ t6(self) \/ t7(self)

z1(self) == /\ pc[self] = "z1"
            /\ spawned >= x[self] \/ Quiet
            /\ pc' = [pc EXCEPT ![self] = "z2"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

z2(self) == /\ pc[self] = "z2"
            /\ IF spawned >= x[self] /\ Timeouts /\ ~disabled[x[self]]
                  THEN /\ /\ run' = [run EXCEPT ![self] = x[self]]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "interrupt",
                                                                   pc        |->  "z3",
                                                                   st        |->  st[self],
                                                                   rr        |->  rr[self],
                                                                   run       |->  run[self] ] >>
                                                               \o stack[self]]
                       /\ st' = [st EXCEPT ![self] = ""]
                       /\ rr' = [rr EXCEPT ![self] = 0]
                       /\ pc' = [pc EXCEPT ![self] = "it1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "z3"]
                       /\ UNCHANGED << stack, run, st, rr >>
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, cmd, r, op, val, k, r_, 
                            err, n, seen, fin, cmd_, x >>

z3(self) == /\ pc[self] = "z3"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << status, cur, s, m, c, spawned, pushed, iters, 
                            centroids, initf, offer, waiting, acked, closed, 
                            disabled, sent, ok, budget, stack, cmd, r, run, st, 
                            rr, op, val, k, r_, err, n, seen, fin, cmd_, x >>

timeout(self) == z1(self) \/ z2(self) \/ z3(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in ProcSet:  \/ send(self) \/ start(self) \/ init(self)
                               \/ interrupt(self))
           \/ (\E self \in Clients: client(self))
           \/ (\E self \in {Run(i) : i \in Runs}: run_(self))
           \/ (\E self \in {Tmo(i) : i \in Runs}: timeout(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Next)
        /\ \A self \in Clients : /\ WF_vars(client(self))
                                 /\ WF_vars(send(self))
                                 /\ WF_vars(init(self))
                                 /\ WF_vars(start(self))
                                 /\ WF_vars(interrupt(self))
        /\ \A self \in {Run(i) : i \in Runs} : WF_vars(run_(self))
        /\ \A self \in {Tmo(i) : i \in Runs} : WF_vars(timeout(self)) /\ WF_vars(interrupt(self)) /\ WF_vars(send(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 

-----------------------------------------------------------------------------
\* The workflow (C01)
Flow == {<<"Created", "Initializing">>, <<"Finished", "Initializing">>, <<"Initializing", "Ready">>,
         <<"Initializing", "Finished">>, <<"Ready", "Running">>, <<"Running", "Idle">>, <<"Idle", "Running">>,
         <<"Running", "Ready">>, <<"Running", "Finished">>, <<"Idle", "Finished">>, <<"Ready", "Finished">>}
Workflow == [][status' = status \/ <<status, status'>> \in Flow]_status

\* Iterations are made by one run, while running (C04)
Iterating(i) == pc[Run(i)] = "j3"
OneLoop == \A i \in Runs : Iterating(i) => /\ status = "Running" /\ i = cur
                                            /\ \A j \in Runs : Iterating(j) => j = i
                                            /\ \A p \in Procs : pc[p] # "in6"
\* a command that has returned leaves no iteration in progress
Quiesced == \A p \in Clients : pc[p] = "a5" /\ sent[p] /\ val[p] = "Running" => \A i \in Runs : ~Iterating(i)

\* Accesses made by the next step of a process, "r"ead or "w"rite (C02, C11)
R(vs) == {<<a, "r">> : a \in vs}
W(vs) == {<<a, "w">> : a \in vs}
Access(p) ==
  CASE pc[p] \in {"p3", "a3"} -> R({"status", "cur"})
    [] pc[p] \in {"p6", "in1", "u6", "r2", "l1"} -> R({"status"})
    [] pc[p] = "it4" -> R({"cur"}) \cup IF status = "Ready" THEN W({"status"}) ELSE R({"status"})
    [] pc[p] = "st1" -> W({"status", "cur"})
    [] pc[p] = "in4" -> W({"pushed", "iters", "cur"})
    [] pc[p] \in {"in5", "s3", "s7"} -> W({"status"})
    [] pc[p] = "in7" -> IF initf THEN W({"status"}) ELSE {}
    [] pc[p] = "in9" -> W({"centroids", "status"})
    [] pc[p] = "u5" -> W({"pushed"})
    [] pc[p] = "r4" -> R({"iters", "centroids", "pushed"})
    [] pc[p] = "l0" -> R({"centroids"})
    [] pc[p] = "l3" -> R({"pushed"})
    [] pc[p] = "l5" -> R({"iters", "pushed"})
    [] pc[p] = "l8" -> R({"pushed"}) \cup W({"status"})
    [] pc[p] = "jx" -> R({"centroids", "status"})
    [] pc[p] = "j6" -> W({"iters", "centroids"})
    [] pc[p] = "t3" -> IF err[p] /\ ~closed[p - 100] THEN W({"status"}) ELSE {}
    [] OTHER -> {}
Ordered == \A p, q \in Procs : p < q =>
  \A a \in Access(p), b \in Access(q) : a[1] = b[1] => a[2] = "r" /\ b[2] = "r"

\* A run which waits is the paused one; none is left behind by a stop (C31)
NoneLeft == \A i \in Runs : pc[Run(i)] = "s5" /\ offer[i] = "none" => status = "Idle" /\ cur = i

\* Every call ends (C03)
Returns == <>Quiet
\* and every run, once no call is made, and every timeout (C31)
Settles == <>(\A i \in Runs : pc[Run(i)] = "Done" /\ pc[Tmo(i)] = "Done")
=============================================================================

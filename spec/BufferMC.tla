------------------------------ MODULE BufferMC -------------------------------
(* Data buffers at the level of Go slices (core/buffer.go; C10, C11, C24): a *)
(* slice is a window of a backing array, appending writes in place while the *)
(* array has room and moves to a greater array otherwise, a full frame       *)
(* forgets its first element by moving its window.  Slices given to          *)
(* iterations, to copies and by the user are never seen to change.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Frames,     \* sizes of the frame of every buffer (0: none)
          Base,       \* length of the data given by the user
          MaxPush, Growth
F1 == <<2, 0>>
F2 == <<0, 3>>
F3 == <<3, 2, 0>>
VARIABLES heap,       \* backing arrays
          buf,        \* slice of every buffer
          hist,       \* elements every buffer received, in order
          staged, snaps, pushes
vars == <<heap, buf, hist, staged, snaps, pushes>>
Buffers == DOMAIN Frames

Slice(a, o, n) == [arr |-> a, off |-> o, len |-> n]
Val(h, s) == [i \in 1..s.len |-> h[s.arr][s.off + i]]
LastN(q, n) == IF n > 0 /\ Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
\* append x to slice s of heap h: <<heap, slice>>
Add(h, s, x) ==
  IF s.off + s.len < Len(h[s.arr])
  THEN <<[h EXCEPT ![s.arr][s.off + s.len + 1] = x], Slice(s.arr, s.off, s.len + 1)>>
  ELSE LET room == s.len + 1 + Growth
           new == [i \in 1..room |-> IF i <= s.len THEN h[s.arr][s.off + i] ELSE IF i = s.len + 1 THEN x ELSE 0]
       IN <<Append(h, new), Slice(Len(h) + 1, 0, s.len + 1)>>
Strategy(h, s, f, x) ==
  IF f > 0 /\ s.len = f THEN Add(h, Slice(s.arr, s.off + 1, s.len - 1), x) ELSE Add(h, s, x)
\* a new buffer of frame f with the data of slice s
Fresh(h, s, f) ==
  LET v == LastN(Val(h, s), f)
      room == IF f > Len(v) THEN f ELSE Len(v)
  IN <<Append(h, [i \in 1..room |-> IF i <= Len(v) THEN v[i] ELSE 0]), Slice(Len(h) + 1, 0, Len(v))>>

\* the user's slice is array 1, with room at its end
User == Slice(1, 0, Base)
Init == LET h0 == << [i \in 1..(Base + 1) |-> IF i <= Base THEN i ELSE 0] >>
            f == Fresh(h0, User, Frames[1])
        IN /\ heap = f[1] /\ buf = <<f[2]>> /\ hist = <<[i \in 1..Base |-> i]>>
           /\ staged = << <<>> >> /\ snaps = {[s |-> User, v |-> [i \in 1..Base |-> i]]} /\ pushes = 0
Made == 1..Len(buf)
Put(b, h, s) == /\ heap' = h /\ buf' = [buf EXCEPT ![b] = s]
NewElement == 10 + pushes
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(h, s, f, q) == IF q = <<>> THEN <<h, s>> ELSE LET r == Strategy(h, s, f, Head(q)) IN ApplyAll(r[1], r[2], f, Tail(q))
\* a push while nothing is alive: after what is staged
PushNow(b) ==
  /\ pushes < MaxPush /\ pushes' = pushes + 1
  /\ LET r == ApplyAll(heap, buf[b], Frames[b], Append(staged[b], NewElement)) IN Put(b, r[1], r[2])
  /\ hist' = [hist EXCEPT ![b] = @ \o Append(staged[b], NewElement)]
  /\ staged' = [staged EXCEPT ![b] = <<>>] /\ UNCHANGED snaps
Stage(b) ==
  /\ pushes < MaxPush /\ pushes' = pushes + 1 /\ Len(staged[b]) < 2
  /\ staged' = [staged EXCEPT ![b] = Append(@, NewElement)] /\ UNCHANGED <<heap, buf, hist, snaps>>
Apply(b) ==
  /\ staged[b] # <<>>
  /\ LET r == ApplyAll(heap, buf[b], Frames[b], staged[b]) IN Put(b, r[1], r[2])
  /\ hist' = [hist EXCEPT ![b] = @ \o staged[b]] /\ staged' = [staged EXCEPT ![b] = <<>>]
  /\ UNCHANGED <<snaps, pushes>>
\* an iteration takes the data
Take(b) == /\ Cardinality(snaps) < 4
           /\ snaps' = snaps \cup {[s |-> buf[b], v |-> Val(heap, buf[b])]}
           /\ UNCHANGED <<heap, buf, hist, staged, pushes>>
\* a copy begins with the data of its original, not with what is staged
CopyIt(b) ==
  /\ Len(buf) < Len(Frames)
  /\ LET f == Frames[Len(buf) + 1]  r == Fresh(heap, buf[b], f)
     IN /\ heap' = r[1] /\ buf' = Append(buf, r[2])
        /\ hist' = Append(hist, LastN(hist[b], Frames[b]))
  /\ staged' = Append(staged, <<>>) /\ UNCHANGED <<snaps, pushes>>
Next == \E b \in Made : PushNow(b) \/ Stage(b) \/ Apply(b) \/ Take(b) \/ CopyIt(b)
Spec == Init /\ [][Next]_vars

Content == \A b \in Made : Val(heap, buf[b]) = LastN(hist[b], Frames[b])
Stable == \A x \in snaps : Val(heap, x.s) = x.v
\* no two buffers, nor a buffer and the user's data, share an array
Apart == \A b \in Made : buf[b].arr # 1 /\ \A d \in Made : b # d => buf[b].arr # buf[d].arr
=============================================================================

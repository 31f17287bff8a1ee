------------------------------- MODULE Flood --------------------------------
(* Data pushed faster than iterations take them (C10): whatever the staging  *)
(* room, every element is stored once, and the frame keeps the last ones.    *)
(* Element j is <<j, j*j % 97>>; the only cluster is the average of them.    *)
EXTENDS Integers, Sequences, SequencesExt

FloodOK(c) ==
  LET total == c.n0 + c.n
      first == IF c.frame > 0 /\ c.frame < total THEN total - c.frame + 1 ELSE 1
      js == [i \in 1..(total - first + 1) |-> first + i - 1]
  IN /\ c.all /\ c.errs = 0
     /\ c.kept = Len(js)
     /\ c.sums = FoldLeft(LAMBDA a, j : <<a[1] + j, a[2] + ((j * j) % 97)>>, <<0, 0>>, js)
     /\ c.pushed = (IF c.again THEN 0 ELSE c.n)
=============================================================================

---------------------------- MODULE MCRecorder ----------------------------
(***************************************************************************)
(* Every history of at most MaxSteps saves (of two things, one value that  *)
(* cannot be saved) and recorded times, with the disk having any content   *)
(* that Recorder allows.  The properties are stated over the history.      *)
(***************************************************************************)
EXTENDS Recorder, Json, TLC

CONSTANTS MaxSteps, Gen

Things == {"a", "b"}
Values == {"1", "2", "bad"}
Names == {"f1", "f2", "f3"}
Times == {400, 1000}

VARIABLES dir, tab, disk, open, now, hist
vars == <<dir, tab, disk, open, now, hist>>

Init == dir = NoFiles /\ tab = NoRows /\ disk = <<>> /\ open = TRUE /\ now = 0 /\ hist = <<>>

Save == \E k \in Things, v \in Values :
  /\ IF v = "bad" THEN dir' = dir
     ELSE \E f \in Names : /\ SavedAs(dir, k, v, Seen(Put(dir, k, f, v)))
                           /\ dir' = Put(dir, k, f, v)
  /\ hist' = Append(hist, [c |-> "save", k |-> k, v |-> v, t |-> 0])
  /\ UNCHANGED <<tab, disk, open, now>>

Record == \E d \in Times, v \in {"1", "2"} :
  /\ open
  /\ now' = now + d
  /\ tab' = Row(tab, now', v)
  /\ disk' \in {SubSeq(tab'.rows, 1, n) : n \in Len(disk)..Len(tab'.rows)}
  /\ OnDisk(tab', disk')
  /\ hist' = Append(hist, [c |-> "record", k |-> "", v |-> v, t |-> now'])
  /\ UNCHANGED <<dir, open>>

Close == /\ open /\ open' = FALSE
         /\ tab' = Closed(tab) /\ disk' = tab.rows
         /\ hist' = Append(hist, [c |-> "close", k |-> "", v |-> "", t |-> 0])
         /\ UNCHANGED <<dir, now>>

Next == Len(hist) < MaxSteps /\ (Save \/ Record \/ Close)

Saves(k) == {i \in 1..Len(hist) : hist[i].c = "save" /\ hist[i].k = k /\ hist[i].v # "bad"}
Last(s) == CHOOSE i \in s : \A j \in s : j <= i
\* one file for each thing saved, holding what was saved last
LastSaved == /\ \A k \in Things : Saves(k) # {} <=> Known(dir, k)
             /\ \A x \in dir : x.v = hist[Last(Saves(x.k))].v
Apart == \A x, y \in dir : x.f = y.f => x = y
Recorded == LET R == SelectSeq(hist, LAMBDA e : e.c = "record") IN [i \in 1..Len(R) |-> [t |-> R[i].t, v |-> R[i].v]]
\* the table has the rows recorded, in order; whole seconds are never lost, and nothing is once it is closed
InOrder == tab.rows = Recorded /\ Prefix(disk, Recorded)
Durable == \A i \in 1..Len(Recorded) : Recorded[i].t % 1000 = 0 => Len(disk) >= i
Complete == ~open => disk = Recorded

Script == IF Gen /\ Len(hist') = MaxSteps THEN PrintT("CASE " \o ToJson([steps |-> hist'])) ELSE TRUE
=============================================================================

---------------------------- MODULE MCTogether ----------------------------
(***************************************************************************)
(* Logs used at the same time by different goroutines. Go's lists share    *)
(* their storage when they are cut from each other: appending to a list    *)
(* with room left writes to storage another list may use, too. Each log's  *)
(* goroutine here pushes operations and publishes its queue as a version,  *)
(* in steps that may be interleaved with the others' at any point. The     *)
(* second log is a slice of the first one, cut while the first had         *)
(* operations queued; the third one has nothing to do with them, but is    *)
(* given the same patch list as the first.                                 *)
(* With Copies (as the library does it: what is handed in or out is        *)
(* copied), each log is at any time what its own pushes make of it, and    *)
(* nobody writes what another may read; without, TLC finds the             *)
(* interleavings in which it is not.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Copies, MaxPush, Room

Logs == {1, 2, 3}
Given == <<"g1", "g2">>              \* the patch list which logs 1 and 3 are given

VARIABLES heap,      \* arrays: sequences of cells, of fixed length
          queue,     \* of each log: [arr, len]
          done,      \* versions published: sequences of [arr, len]
          pc,        \* what each goroutine is about to do
          told       \* what each log was told to push (history)
vars == <<heap, queue, done, pc, told>>

Cells(a, n) == SubSeq(heap[a], 1, n)
Content(q) == IF q.len = 0 THEN <<>> ELSE Cells(q.arr, q.len)
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE "-"]

\* array 1 is the caller's list, 2 the queue of log 1 after it was stored (with room), and so on
Init == /\ heap = IF Copies
                  THEN <<Pad(Given, 2 + Room), Pad(Given, 2 + Room), Pad(Given, 2 + Room), Pad(Given, 2 + Room)>>
                  ELSE <<Pad(Given, 2 + Room)>>
        /\ queue = [l \in Logs |-> [arr |-> IF Copies THEN l + 1 ELSE 1, len |-> 2]]
        /\ done = [l \in Logs |-> <<>>]
        /\ pc = [l \in Logs |-> "idle"]
        /\ told = [l \in Logs |-> <<>>]

Op(l) == ToString(l) \o ":" \o ToString(Len(told[l]) + 1)

\* a push looks for room,
Look(l) == /\ pc[l] = "idle" /\ Len(told[l]) < MaxPush
           /\ pc' = [pc EXCEPT ![l] = IF queue[l].len < Len(heap[queue[l].arr]) THEN "write" ELSE "grow"]
           /\ UNCHANGED <<heap, queue, done, told>>
\* writes there and
Write(l) == /\ pc[l] = "write"
            /\ heap' = [heap EXCEPT ![queue[l].arr][queue[l].len + 1] = Op(l)]
            /\ pc' = [pc EXCEPT ![l] = "count"]
            /\ UNCHANGED <<queue, done, told>>
\* counts it; or takes new storage
Count(l) == /\ pc[l] = "count"
            /\ queue' = [queue EXCEPT ![l].len = @ + 1]
            /\ told' = [told EXCEPT ![l] = Append(@, Op(l))]
            /\ pc' = [pc EXCEPT ![l] = "idle"]
            /\ UNCHANGED <<heap, done>>
Grow(l) == /\ pc[l] = "grow"
           /\ heap' = Append(heap, Pad(Append(Content(queue[l]), Op(l)), queue[l].len + 1 + Room))
           /\ queue' = [queue EXCEPT ![l] = [arr |-> Len(heap) + 1, len |-> @.len + 1]]
           /\ told' = [told EXCEPT ![l] = Append(@, Op(l))]
           /\ pc' = [pc EXCEPT ![l] = "idle"]
           /\ UNCHANGED done
\* the queue becomes a version, the next one starts empty
Publish(l) == /\ pc[l] = "idle" /\ queue[l].len > 0 /\ Len(done[l]) < 1
              /\ done' = [done EXCEPT ![l] = Append(@, queue[l])]
              /\ heap' = Append(heap, Pad(<<>>, Room))
              /\ queue' = [queue EXCEPT ![l] = [arr |-> Len(heap) + 1, len |-> 0]]
              /\ UNCHANGED <<pc, told>>

Next == \E l \in Logs : Look(l) \/ Write(l) \/ Count(l) \/ Grow(l) \/ Publish(l)

RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Content(Head(qs)) \o Flat(Tail(qs))
All(l) == Flat(done[l]) \o Content(queue[l])

\* each log is what its own history makes of it
Apart == \A l \in Logs : All(l) = Given \o told[l]
\* and the caller's list is what it was
CallerSame == Cells(1, 2) = Given
\* nobody is about to write where another one reads or writes
NoRace == \A l, m \in Logs : l # m /\ pc[l] \in {"write", "count"} =>
            /\ \A i \in 1..Len(done[m]) : done[m][i].arr # queue[l].arr
            /\ queue[m].arr # queue[l].arr
=============================================================================

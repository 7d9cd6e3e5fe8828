----------------------------- MODULE Recorder -----------------------------
(***************************************************************************)
(* What the experiments leave on disk (C34).                               *)
(*                                                                         *)
(* A storage is a directory: a set of files [k, f, v]; k is the thing that *)
(* was saved (a kind of document and its number), f the name of its file,  *)
(* v what it holds.  How files are named is left open, except that each    *)
(* thing has its own.                                                      *)
(*                                                                         *)
(* A table of a sensor is the list of its rows [t, v]; the first `safe` of *)
(* them have reached the disk for certain.  A recorder is a set of tables, *)
(* one for each key sensor.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

\* ---- storages
NoFiles == {}
Known(d, k) == \E x \in d : x.k = k
FileOf(d, k) == (CHOOSE x \in d : x.k = k).f
Seen(d) == {<<x.f, x.v>> : x \in d}
Put(d, k, f, v) == {x \in d : x.k # k} \cup {[k |-> k, f |-> f, v |-> v]}

\* the directories that may be there after v was saved as k: files as <<name, content>>
SavedAs(d, k, v, seen) ==
  IF Known(d, k) THEN seen = Seen(Put(d, k, FileOf(d, k), v))
  ELSE \E x \in seen : /\ x[2] = v
                       /\ \A y \in d : y.f # x[1]
                       /\ seen = Seen(d) \cup {x}
NameOf(d, k, seen) == IF Known(d, k) THEN FileOf(d, k)
                      ELSE (CHOOSE x \in seen : \A y \in d : y.f # x[1])[1]

\* ---- tables
NoRows == [rows |-> <<>>, safe |-> 0]
\* at whole seconds everything recorded reaches the disk
Row(tab, t, v) == LET r == Append(tab.rows, [t |-> t, v |-> v])
                  IN [rows |-> r, safe |-> IF t % 1000 = 0 THEN Len(r) ELSE tab.safe]
Closed(tab) == [tab EXCEPT !.safe = Len(tab.rows)]
OnDisk(tab, seen) == Prefix(seen, tab.rows) /\ Len(seen) >= tab.safe
=============================================================================

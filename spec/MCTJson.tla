------------------------------ MODULE MCTJson ------------------------------
(***************************************************************************)
(* Exhaustive model of the temporal JSON baseline: every stream of at most *)
(* MaxOps operations on Paths at times 1..MaxTime, in any order.           *)
(***************************************************************************)
EXTENDS TJson, Json

CONSTANTS MaxOps, MaxTime, Paths, Gen

Val(x) == [k |-> "s", x |-> x, n |-> 0]
Ops == {[op |-> o, p |-> p, v |-> v, t |-> t] : o \in {"add", "replace"}, p \in Paths, v \in {Val("u"), Val("w")}, t \in 1..MaxTime}
       \cup {[op |-> "remove", p |-> p, v |-> Nothing, t |-> t] : p \in Paths, t \in 1..MaxTime}

VARIABLES ops
vars == <<ops>>
Init == ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in Ops : ops' = Append(ops, o)

Range == {<<a, b>> \in (0..(MaxTime + 1)) \X (0..(MaxTime + 1)) : a <= b}
\* the construction lists the periods of the stream
Construction == \A p \in Paths : \A r \in Range : GoodTrack(Of(ops, p), r[1], r[2], Overlapping(Periods(Of(ops, p)), r[1], r[2]))
\* a snapshot holds what the periods covering its time hold
Snapshots == \A t \in 0..(MaxTime + 1) : \A p \in Paths :
               LET c == Overlapping(Periods(Of(ops, p)), t, t)
               IN Len(c) <= 1 /\ (p \in DOMAIN SnapshotAt(ops, t)) = (Len(c) = 1) /\ (Len(c) = 1 => SnapshotAt(ops, t)[p] = c[1].v)
\* the order of recording matters only among operations of the same location and time
Commutes == \A i \in 1..(Len(ops) - 1) :
              LET sw == [ops EXCEPT ![i] = ops[i + 1], ![i + 1] = ops[i]]
              IN ops[i].p # ops[i + 1].p \/ ops[i].t # ops[i + 1].t
                 => \A t \in 0..(MaxTime + 1) : SnapshotAt(sw, t) = SnapshotAt(ops, t)
\* the past does not depend on the future
Causal == \A t \in 0..MaxTime : SnapshotAt(SelectSeq(ops, LAMBDA o : o.t <= t), t) = SnapshotAt(ops, t)

Script == IF Gen /\ Len(ops') = MaxOps THEN PrintT("CASE " \o ToJson(ops')) ELSE TRUE
=============================================================================

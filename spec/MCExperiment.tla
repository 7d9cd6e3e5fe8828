--------------------------- MODULE MCExperiment ---------------------------
(***************************************************************************)
(* Exhaustive model of a small experiment: three sensors with intervals of *)
(* one, two and three steps, every evolution of their values.              *)
(***************************************************************************)
EXTENDS Experiment

CONSTANTS MaxTime

Sensors == {"a", "b", "c"}
Interval == [a |-> 1, b |-> 2, c |-> 3]
N(m) == [k |-> "n", x |-> ToString(m), m |-> m]
Vals == [a |-> {N(0), N(3), N(10)}, b |-> {N(0), N(10)}, c |-> {[k |-> "b", x |-> "true", m |-> 0], [k |-> "b", x |-> "false", m |-> 0]}]

VARIABLES t, st, init, json, tson, cum, last
vars == <<t, st, init, json, tson, cum, last>>

Docs == {d \in [Sensors -> UNION {Vals[s] : s \in Sensors}] : \A s \in Sensors : d[s] \in Vals[s]}
Init == /\ init \in {[s \in Sensors |-> [v |-> d[s], t |-> "0000"]] : d \in Docs}
        /\ t = 0 /\ st = Begin(init, init) /\ json = <<>> /\ tson = <<>> /\ cum = <<>>
        /\ last = [s \in Sensors |-> "0000"]

Seq1(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : s[i] = s[j] => i = j
Next ==
  /\ t < MaxTime
  /\ LET due == {s \in Sensors : Due(Interval[s], t)}
         order == Seq1(due)
     IN \E d \in Docs :
          LET ups == [i \in 1..Len(order) |-> [p |-> order[i], ch |-> Changed(st.tson[order[i]].v, d[order[i]]), v |-> d[order[i]]]]
          IN /\ \A s \in Sensors \ due : d[s] = st.tson[s].v
             /\ st' = After(st, t, ups)
             /\ json' = json \o Seq1(JsonPatches(t, ups))
             /\ tson' = tson \o Seq1(TsonPatches(t, ups))
             /\ last' = [s \in Sensors |-> IF s \in due THEN ToString(t) ELSE last[s]]
  /\ cum' = Append(cum, <<Len(json), Len(tson)>>)
  /\ t' = t + 1
  /\ UNCHANGED init

\* the document that the recorded patches make of the initial one
RECURSIVE Apply(_, _)
Apply(d, ps) == IF ps = <<>> THEN d ELSE Apply([d EXCEPT ![Head(ps).p] = [v |-> Head(ps).v, t |-> ToString(Head(ps).t)]], Tail(ps))
RECURSIVE ApplyJson(_, _)
ApplyJson(d, ps) == IF ps = <<>> THEN d
  ELSE ApplyJson(IF Head(ps).what = "value" THEN [d EXCEPT ![Head(ps).p].v = Head(ps).v] ELSE [d EXCEPT ![Head(ps).p].t = Head(ps).v.x], Tail(ps))

Explained == st.tson = Apply(init, tson) /\ st.json = ApplyJson(init, json)
RECURSIVE EachChanges(_, _)
EachChanges(d, ps) == ps = <<>> \/ (Changed(d[Head(ps).p].v, Head(ps).v) /\ EachChanges(Apply(d, <<Head(ps)>>), Tail(ps)))
Worth == EachChanges(init, tson)
Ordered == \A i \in 1..(Len(tson) - 1) : tson[i].t <= tson[i + 1].t
OnTime == \A i \in 1..Len(tson) : tson[i].t % Interval[tson[i].p] = 0
Counters == Len(json) = JsonCount(st) /\ Len(tson) = TsonCount(st) /\ st.changes <= st.n
            /\ (t = MaxTime => st.n = Cardinality({<<s, u>> \in Sensors \X (0..(MaxTime - 1)) : u % Interval[s] = 0}))
Agree == \A s \in Sensors : Unchanged(st.tson[s].v, st.json[s].v) /\ st.json[s].t = last[s]
Never == \A i \in 1..Len(cum) : cum[i][2] <= cum[i][1]
=============================================================================

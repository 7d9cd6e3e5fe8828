------------------------------- MODULE TJson -------------------------------
(***************************************************************************)
(* The temporal JSON baseline: what a recorded stream of operations says   *)
(* about a location over time, and what its queries may answer.            *)
(* An operation has op ("init": the value is there from the start), p      *)
(* (location), v (value: [k, x, n]; n is a number in quarters) and t.  The latest operation on a location at or before a  *)
(* time decides; among operations of the same time, the last one recorded. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Open == 2000000000                \* the end of a period that has not ended
Nothing == [k |-> "none", x |-> "", n |-> 0]

Sets(o) == o.op \in {"add", "replace", "init"}
Of(ops, p) == SelectSeq(ops, LAMBDA o : o.p = p)
Locations(ops) == {ops[i].p : i \in 1..Len(ops)}

\* h: the operations on one location
DecidesAt(h, t) ==
  LET c == {i \in 1..Len(h) : h[i].t <= t}
  IN IF c = {} THEN 0
     ELSE CHOOSE i \in c : \A j \in c : h[j].t < h[i].t \/ (h[j].t = h[i].t /\ j <= i)
ValueAt(h, t) == LET i == DecidesAt(h, t) IN IF i = 0 THEN Nothing ELSE IF Sets(h[i]) THEN h[i].v ELSE Nothing

\* what a snapshot holds
SnapshotAt(ops, t) ==
  LET f == [p \in Locations(ops) |-> ValueAt(Of(ops, p), t)]
  IN [p \in {q \in Locations(ops) : f[q] # Nothing} |-> f[p]]

Times(h) == {h[i].t : i \in 1..Len(h)}
\* every value the location has lies in the stretch before one of these times, or at it
Marks(h) == Times(h) \cup {t - 1 : t \in Times(h)}

\* a period may end and another with the same value begin only where an operation took the value away
MaySplit(h, t, v) == \E i \in 1..Len(h) : h[i].t = t /\ ~(Sets(h[i]) /\ h[i].v = v)

\* ps: the periods [s, e, v] of a location which overlap the range from a to b
GoodPeriod(h, q) ==
  /\ q.s <= q.e /\ q.v # Nothing
  /\ \A t \in {q.s, q.e} \cup {m \in Marks(h) : m >= q.s /\ m <= q.e} : ValueAt(h, t) = q.v
  /\ q.s \in Times(h)
  /\ ValueAt(h, q.s - 1) = q.v => MaySplit(h, q.s, q.v)
  /\ q.e # Open => (q.e + 1) \in Times(h) /\ (ValueAt(h, q.e + 1) = q.v => MaySplit(h, q.e + 1, q.v))
GoodTrack(h, a, b, ps) ==
  /\ \A i \in 1..Len(ps) : GoodPeriod(h, ps[i]) /\ ps[i].s <= b /\ ps[i].e >= a
  /\ \A i \in 1..(Len(ps) - 1) : ps[i].e < ps[i + 1].s
  /\ \A t \in {x \in {a, b} \cup Marks(h) : x >= a /\ x <= b} :
       (ValueAt(h, t) # Nothing) = (\E i \in 1..Len(ps) : ps[i].s <= t /\ t <= ps[i].e)

\* predicates of event search
Holds(pred, v) ==
  CASE pred.k = "all" -> TRUE
    [] pred.k = "over" -> v.k = "n" /\ v.n > pred.n
    [] pred.k = "is" -> v.k = pred.v.k /\ v.x = pred.v.x
    [] OTHER -> FALSE
GoodEvents(pred, ps, es) ==
  LET hit == SelectSeq(ps, LAMBDA q : Holds(pred, q.v)) IN es = [i \in 1..Len(hit) |-> hit[i].s]

\* what the recorded stream itself answers: its operations on a location in a range
Recorded(h, a, b) == SelectSeq(h, LAMBDA o : o.op # "init" /\ o.t >= a /\ o.t <= b)
\* ... of which those that repeat the value of the one before may be left out
RECURSIVE Thinned(_, _, _, _)
Thinned(r, i, os, k) ==
  IF i > Len(r) THEN k > Len(os)
  ELSE IF k <= Len(os) /\ os[k].op = r[i].op /\ os[k].t = r[i].t /\ os[k].v = r[i].v THEN Thinned(r, i + 1, os, k + 1)
  ELSE i > 1 /\ r[i].v = r[i - 1].v /\ Thinned(r, i + 1, os, k)
GoodOps(h, a, b, os) == Thinned(Recorded(h, a, b), 1, os, 1)
RECURSIVE ThinnedTimes(_, _, _, _, _)
ThinnedTimes(pred, r, i, ts, k) ==
  IF i > Len(r) THEN k > Len(ts)
  ELSE \/ Holds(pred, r[i].v) /\ k <= Len(ts) /\ ts[k] = r[i].t /\ ThinnedTimes(pred, r, i + 1, ts, k + 1)
       \/ (~Holds(pred, r[i].v) \/ (i > 1 /\ r[i].v = r[i - 1].v)) /\ ThinnedTimes(pred, r, i + 1, ts, k)
GoodOpTimes(pred, h, a, b, ts) == ThinnedTimes(pred, Recorded(h, a, b), 1, ts, 1)

(***************************************************************************)
(* The construction: periods are closed as operations arrive in the order  *)
(* of time.  The theorem (checked by MCTJson) is that they are the periods *)
(* that the recorded stream has.                                           *)
(***************************************************************************)
InOrder(h) == \* stable order by time: repeatedly the earliest, and of these the first
  LET RECURSIVE go(_, _)
      go(left, acc) ==
        IF left = {} THEN acc
        ELSE LET i == CHOOSE i \in left : \A j \in left : h[i].t < h[j].t \/ (h[i].t = h[j].t /\ i <= j)
             IN go(left \ {i}, Append(acc, h[i]))
  IN go(1..Len(h), <<>>)

Periods(h) ==
  LET o == InOrder(h)
      RECURSIVE go(_, _, _, _)
      go(i, v, since, acc) ==
        LET closed(t) == IF v # Nothing /\ since < t THEN Append(acc, [s |-> since, e |-> t - 1, v |-> v]) ELSE acc
        IN IF i > Len(o) THEN (IF v = Nothing THEN acc ELSE Append(acc, [s |-> since, e |-> Open, v |-> v]))
           ELSE IF Sets(o[i]) THEN (IF o[i].v = v THEN go(i + 1, v, since, acc) ELSE go(i + 1, o[i].v, o[i].t, closed(o[i].t)))
           ELSE go(i + 1, Nothing, 0, closed(o[i].t))
  IN go(1, Nothing, 0, <<>>)
Overlapping(ps, a, b) == SelectSeq(ps, LAMBDA q : q.s <= b /\ q.e >= a)

If(c, tags) == IF c THEN {} ELSE tags
=============================================================================

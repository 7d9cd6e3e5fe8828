---------------------------- MODULE TJsonTrace ----------------------------
(***************************************************************************)
(* Trace validation for the temporal JSON baseline (C25), alone and beside *)
(* the log in the temporal query experiment (C29).  A trace has the        *)
(* recorded operations and the queries made; tag: the property it is for.  *)
(*   build     the document was built; kept: the list is as it was         *)
(*   snapshot  at t: the values found, as pairs                            *)
(*   track     of a location from a to b: the periods                      *)
(*   events    the same, with a predicate: track and start times           *)
(*   optrack, optimes   what the log answers: its own operations           *)
(*   eventtimes         the start times of periods, without the track      *)
(*   sizes     the sizes of answers as reported                            *)
(*   saved     the table of all results: want are the results              *)
(*   after     the document written for the first n operations             *)
(***************************************************************************)
EXTENDS TJson, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l
vars == <<sid, l>>

Init == sid \in 1..Len(Traces) /\ l = 1

Pairs(ops, t) == LET s == SnapshotAt(ops, t) IN {<<p, s[p]>> : p \in DOMAIN s}
Given(res) == {<<res[i].p, res[i].v>> : i \in 1..Len(res)}

\* h: by how much a is more than b, in hundredths of a percent, rounded
\* (left open where TLC's integers are too small)
Diff(a, b) == IF a > b THEN a - b ELSE b - a
Percent(h, a, b) ==
  IF b = 0 THEN h = 0
  ELSE IF Diff(a, b) >= 100000 THEN TRUE
  ELSE /\ h <= 1000000000 \div b + 1 /\ -h <= 1000000000 \div b + 1
       /\ Diff(h * b, 10000 * (a - b)) <= b \div 2 + 1
Row(w, r) == r.q = w.q /\ r.l = w.l /\ r.t = w.t /\ r.lt = w.lt /\ r.tt = w.tt /\ Percent(r.ds, r.l, r.t) /\ Percent(r.dt, r.lt, r.tt)

Judge(ops, ev) ==
  CASE ev.c = "build" -> ev.out = "ok" /\ ev.kept
    [] ev.c = "snapshot" -> ev.out = "ok" /\ Given(ev.res) = Pairs(ops, ev.t) /\ Len(ev.res) = Cardinality(Given(ev.res))
    [] ev.c = "after" -> ev.out = "ok" /\ Given(ev.res) = Pairs(SubSeq(ops, 1, ev.n), Open) /\ Len(ev.res) = Cardinality(Given(ev.res))
    [] ev.c = "track" ->
         LET h == TLCEval(Of(ops, ev.p))
         IN IF ev.out = "ok" THEN GoodTrack(h, ev.a, ev.b, ev.ps) ELSE Periods(h) = <<>>
    [] ev.c = "events" ->
         LET h == TLCEval(Of(ops, ev.p))
         IN IF ev.out = "ok" THEN GoodTrack(h, ev.a, ev.b, ev.ps) /\ GoodEvents(ev.pred, ev.ps, ev.es) ELSE Periods(h) = <<>>
    [] ev.c = "optrack" -> ev.out = "ok" /\ GoodOps(Of(ops, ev.p), ev.a, ev.b, ev.os)
    [] ev.c = "optimes" -> ev.out = "ok" /\ GoodOpTimes(ev.pred, Of(ops, ev.p), ev.a, ev.b, ev.ts)
    [] ev.c = "eventtimes" ->
         LET hit == SelectSeq(Overlapping(Periods(Of(ops, ev.p)), ev.a, ev.b), LAMBDA q : Holds(ev.pred, q.v))
         IN ev.out = "ok" /\ ev.es = [i \in 1..Len(hit) |-> hit[i].s]
    [] ev.c = "sizes" -> ev.out = "ok" /\ ev.told = ev.measured
    [] ev.c = "saved" -> ev.out = "ok" /\ Len(ev.rows) = Len(ev.want) /\ \A i \in 1..Len(ev.rows) : Row(ev.want[i], ev.rows[i])
    [] OTHER -> FALSE

Check(ops, ev) == IF ev.out = "dead" THEN {"C25", "C29"} ELSE If(Judge(ops, ev), {ev.tag})

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(IF ev.out = "dead" THEN <<>> ELSE Traces[sid].ops, ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ UNCHANGED sid

Next == Step
=============================================================================

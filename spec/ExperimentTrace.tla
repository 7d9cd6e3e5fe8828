-------------------------- MODULE ExperimentTrace --------------------------
(***************************************************************************)
(* Trace validation for a run of the patch experiment (C26, C28) and of    *)
(* the temporal queries made over its result (C29).  A trace has the       *)
(* sensors (how each moves) and the events, in the order of simulated time:*)
(*   begin   the initial documents                                         *)
(*   step    what was read, the patches recorded, the sensor tables and    *)
(*           the cumulative counts at that time                            *)
(*   snap    the answer of a temporal snapshot (placed after the step at   *)
(*           or before its time)                                           *)
(*   track, search   answers about one sensor                              *)
(*   final   the final documents and the counters                          *)
(***************************************************************************)
EXTENDS Experiment, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, st, at, cnt
vars == <<sid, l, st, at, cnt>>

Doc(list) == [p \in {list[i].p : i \in 1..Len(list)} |-> LET e == CHOOSE e \in Elems(list) : e.p = p IN [v |-> e.v, t |-> e.t]]
NoDoc == [p \in {} |-> 0]

Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = Begin(NoDoc, NoDoc) /\ at = -1 /\ cnt = NoDoc

Sensors == Traces[sid].sensors
Grid == 100

ChkBegin(ev) ==
  LET tson == Doc(ev.tson)
      json == Doc(ev.json)
  IN If(DOMAIN tson = DOMAIN Sensors /\ Len(ev.tson) = Cardinality(DOMAIN tson) /\ json = tson, {"C26"})
     \cup If(\A p \in DOMAIN Sensors \cap DOMAIN tson : InRange(Sensors[p], tson[p].v), {"C28"})

ChkStep(ev) ==
  LET read == {u.p : u \in Elems(ev.ups)}
      known == read \cap DOMAIN Sensors \cap DOMAIN st.tson
      new == {u \in Elems(ev.ups) : u.ch /\ u.p \in known}
      due == {p \in DOMAIN Sensors : Due(Sensors[p].interval, ev.t)}
      old(p) == st.tson[p].v
  IN If(ev.t = (IF at < 0 THEN 0 ELSE at + Grid), {"C26"})
     \cup If(read = due /\ Len(ev.ups) = Cardinality(read), {"C26"})
     \cup If(Elems(ev.json) = JsonPatches(ev.t, ev.ups) /\ Len(ev.json) = Cardinality(Elems(ev.json)), {"C26"})
     \cup If(Elems(ev.tson) = TsonPatches(ev.t, ev.ups) /\ Len(ev.tson) = Cardinality(Elems(ev.tson)), {"C26"})
     \cup If(\A u \in new : Changed(old(u.p), u.v), {"C26"})
     \cup If(\A i \in 1..Len(ev.rows) : ev.rows[i].p \in DOMAIN st.tson /\ ev.rows[i].r = old(ev.rows[i].p).r, {"C26"})
     \cup If(Len(ev.rows) = ev.keys, {"C26"})
     \cup If(ev.cum = IF ev.t % 10000 = 0 THEN <<JsonCount(st), TsonCount(st)>> ELSE <<>>, {"C26"})
     \cup If(\A u \in new : MayRead(Sensors[u.p], ev.t, old(u.p), u.v) /\ InRange(Sensors[u.p], u.v), {"C28"})
     \cup If(\A u \in Elems(ev.ups) : ~u.ch /\ u.p \in known => MayRest(Sensors[u.p], ev.t, old(u.p)), {"C28"})

\* u: KB/s in hundredths, rounded; r: percent in hundredths, rounded
\* (left open where TLC's integers are too small)
Usage(u, size, secs) ==
  IF size > 20000000 \/ secs > 300 THEN TRUE
  ELSE secs > 0 /\ u \in 0..6600 /\ Abs(100 * size - u * 1024 * secs) <= 512 * secs + 1
Reduction(r, json, tson) ==
  IF json > 200000 \/ tson > json THEN TRUE
  ELSE json > 0 => r \in 0..10000 /\ Abs(10000 * (json - tson) - r * json) <= (json \div 2) + 1

RECURSIVE Sum(_, _)
Sum(S, what) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE
                                     IN (IF what = "n" THEN cnt[p].n ELSE IF what = "hits" THEN cnt[p].up ELSE (cnt[p].n * Sensors[p].prob) \div 10) + Sum(S \ {p}, what)
\* the toggles together flip as often as their probabilities say
Toggles == {p \in DOMAIN cnt : Sensors[p].kind = "toggle"}
Chances ==
  /\ \A p \in DOMAIN cnt : Sensors[p].kind \in {"random_walk", "constant_with_noise"} => Balanced(cnt[p])
  /\ Expected(Sum(Toggles, "mean"), Sum(Toggles, "hits"), 1)

ChkFinal(ev) ==
  LET json == TLCEval(Doc(ev.json))
  IN If(Chances, {"C28"})
     \cup If(Doc(ev.tson) = st.tson, {"C26"})
     \cup If(DOMAIN json = DOMAIN st.json /\ \A p \in DOMAIN json \cap DOMAIN st.json :
               json[p].t = st.json[p].t /\ Unchanged(st.json[p].v, json[p].v), {"C26"})
     \cup If(ev.updates = st.n /\ ev.changes = st.changes /\ ev.only = st.n - st.changes, {"C26"})
     \cup If(ev.jsoncount = JsonCount(st) /\ ev.tsoncount = TsonCount(st) /\ ev.setcount = st.n, {"C26"})
     \cup If(ev.sizes = ev.measured, {"C26"})
     \cup If(\A i \in 1..2 : Usage(ev.usage[i], ev.sizes[i], ev.duration \div 1000), {"C26"})
     \cup If(Reduction(ev.reduction, ev.jsoncount, ev.tsoncount), {"C26"})
     \cup If(ev.left = 0 /\ ev.duration = at + Grid, {"C26"})

\* the changes of a sensor, from the steps of the whole trace
ChangesOf(p) ==
  LET ev == Traces[sid].ev
      steps == SelectSeq(ev, LAMBDA e : e.c = "step" /\ \E u \in Elems(e.ups) : u.p = p /\ u.ch)
  IN [i \in 1..Len(steps) |-> [t |-> steps[i].t, v |-> (CHOOSE u \in Elems(steps[i].ups) : u.p = p).v]]
First(p) == LET b == CHOOSE e \in Elems(SubSeq(Traces[sid].ev, 1, 3)) : e.c = "begin" IN IF p \in DOMAIN Doc(b.tson) THEN Doc(b.tson)[p].v ELSE [k |-> "none"]

Within(cs, a, b) == SelectSeq(cs, LAMBDA c : c.t >= a /\ c.t <= b)
\* a value lasts until the next one; the initial one from time 0
PeriodsOf(p) ==
  LET cs == TLCEval(ChangesOf(p))
      all == IF cs # <<>> /\ cs[1].t = 0 THEN cs ELSE <<[t |-> 0, v |-> First(p)]>> \o cs
  IN [i \in 1..Len(all) |-> [s |-> all[i].t, e |-> IF i = Len(all) THEN 2000000000 ELSE all[i + 1].t - 1, v |-> all[i].v]]
Over(ps, a, b) == SelectSeq(ps, LAMBDA q : q.s <= b /\ q.e >= a)

ChkSnap(ev) == If(ev.out = "ok" /\ (ev.t \div Grid) * Grid = at /\ Elems(ev.vals) = {[p |-> p, v |-> st.tson[p].v] : p \in DOMAIN st.tson}, {"C29"})
ChkTrack(ev) ==
  If(ev.out = "ok" /\ ev.lgm = Within(ChangesOf(ev.p), ev.a, ev.b) /\ ev.tj = Over(PeriodsOf(ev.p), ev.a, ev.b), {"C29"})
\* n: the threshold in thousandths; numbers exactly at it are not over it
ChkSearch(ev) ==
  LET over(v) == v.k = "n" /\ v.m >= ev.n /\ v.x # ev.x
      cs == SelectSeq(Within(ChangesOf(ev.p), ev.a, ev.b), LAMBDA c : over(c.v))
      ps == SelectSeq(Over(PeriodsOf(ev.p), ev.a, ev.b), LAMBDA c : over(c.v))
  IN If(ev.out = "ok" /\ ev.lgm = [i \in 1..Len(cs) |-> cs[i].t] /\ ev.tj = [i \in 1..Len(ps) |-> ps[i].s], {"C29"})

Check(ev) ==
  CASE ev.out = "dead" -> {"C26", "C28", "C29"}
    [] ev.c = "run" -> If(ev.out = "ok", {"C26", "C28"})
    [] ev.c = "begin" -> ChkBegin(ev)
    [] ev.c = "step" -> ChkStep(ev)
    [] ev.c = "final" -> ChkFinal(ev)
    [] ev.c = "queries" -> If(ev.out = "ok" /\ ev.count > 0, {"C29"})
    [] ev.c = "snap" -> ChkSnap(ev)
    [] ev.c = "track" -> ChkTrack(ev)
    [] ev.c = "search" -> ChkSearch(ev)
    [] OTHER -> {"BAD-EVENT"}

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ st' = IF ev.c = "begin" /\ ev.out = "ok" THEN Begin(Doc(ev.tson), Doc(ev.json))
              ELSE IF ev.c = "step" THEN After(st, ev.t, ev.ups) ELSE st
     /\ at' = IF ev.c = "step" THEN ev.t ELSE at
     /\ cnt' = CASE ev.c = "begin" /\ ev.out = "ok" -> [p \in DOMAIN Sensors |-> Fair]
                 [] ev.c = "step" -> TLCEval(
                      LET known == {u \in Elems(ev.ups) : u.p \in DOMAIN cnt \cap DOMAIN st.tson}
                          read == {u.p : u \in known}
                          of(p) == CHOOSE u \in known : u.p = p
                      IN [p \in DOMAIN cnt |-> IF p \in read THEN Tally(Sensors[p], cnt[p], st.tson[p].v, of(p).ch, of(p).v) ELSE cnt[p]])
                 [] OTHER -> cnt
     /\ UNCHANGED sid

Next == Step
=============================================================================

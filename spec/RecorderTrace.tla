--------------------------- MODULE RecorderTrace ---------------------------
(***************************************************************************)
(* Trace validation for what the experiments leave on disk (C34).          *)
(*   save    s the storage, k the thing, v the value; dirs: all storages'  *)
(*           directories afterwards, lists of [f, v]                       *)
(*   record  r the recorder, t the time, vals: the vehicle's key sensors   *)
(*   open    r starts anew                                                 *)
(*   look, close, open   tabs: all recorders' tables as they are on disk   *)
(* Values with a fraction are numbers of ten-thousandths (kind n).         *)
(***************************************************************************)
EXTENDS Recorder, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, dirs, recs
vars == <<sid, l, dirs, recs>>

If(c, tags) == IF c THEN {} ELSE tags
Dead(i) == "dead" \in DOMAIN Traces[i]

\* recs[r]: a sequence of tables, in the order of keys
Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ dirs = IF Dead(sid) THEN <<>> ELSE [i \in 1..Traces[sid].nsto |-> NoFiles]
        /\ recs = IF Dead(sid) THEN <<>> ELSE [i \in 1..Traces[sid].nrec |-> [j \in 1..Len(Traces[sid].keys) |-> NoRows]]

Same(seen, v) == IF v.k = "n" THEN seen.m - v.m \in {-1, 0, 1} ELSE seen.x = v.x
SameRows(seen, rows) == Len(seen) <= Len(rows) /\ \A i \in 1..Len(seen) : seen[i].t = rows[i].t /\ Same(seen[i].v, rows[i].v)
Rising(seen) == \A i \in 2..Len(seen) : seen[i - 1].at <= seen[i].at
Fits(tab, seen) == SameRows(seen, tab.rows) /\ Len(seen) >= tab.safe /\ Rising(seen)

Files(ev, i) == {<<ev.dirs[i][j].f, ev.dirs[i][j].v>> : j \in 1..Len(ev.dirs[i])}

RecsAfter(ev) ==
  IF ev.c = "record" THEN [recs EXCEPT ![ev.r] = [j \in 1..Len(Traces[sid].keys) |->
                             IF ev.vals[j].k = "none" THEN recs[ev.r][j] ELSE Row(recs[ev.r][j], ev.t, ev.vals[j])]]
  ELSE IF ev.c = "close" THEN [recs EXCEPT ![ev.r] = [j \in 1..Len(Traces[sid].keys) |-> Closed(recs[ev.r][j])]]
  ELSE IF ev.c = "open" THEN [recs EXCEPT ![ev.r] = [j \in 1..Len(Traces[sid].keys) |-> NoRows]]
  ELSE recs

Good(ev) ==
  CASE ev.c = "save" ->
        LET done == ev.v # "unsavable"
        IN /\ ev.out = (IF done THEN "ok" ELSE "refused")
           /\ \A i \in 1..Len(dirs) : IF i = ev.s /\ done THEN SavedAs(dirs[i], ev.k, ev.v, Files(ev, i)) ELSE Files(ev, i) = Seen(dirs[i])
    [] ev.c = "record" -> ev.out = "ok"
    [] OTHER -> /\ ev.out = "ok"
                /\ \A r \in 1..Len(recs), j \in 1..Len(Traces[sid].keys) : Fits(RecsAfter(ev)[r][j], ev.tabs[r][j])

Check(ev) == IF ev.out = "dead" THEN {"C34"} ELSE If(Good(ev), {"C34"})

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ dirs' = IF tags = {} /\ ev.c = "save" /\ ev.v # "unsavable"
                THEN [dirs EXCEPT ![ev.s] = Put(@, ev.k, NameOf(@, ev.k, Files(ev, ev.s)), ev.v)] ELSE dirs
     /\ recs' = IF Dead(sid) THEN recs ELSE RecsAfter(ev)
     /\ UNCHANGED sid

Next == Step
=============================================================================

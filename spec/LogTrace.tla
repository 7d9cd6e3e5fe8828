------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Trace validation for the Logument: every recorded library call must be  *)
(* a step that the relations of module Log allow.  One behaviour per       *)
(* script; the state holds the logs as last observed.  A step that is not  *)
(* allowed is reported with the properties it violates, and the observed   *)
(* state is adopted so that the rest of the script is still checked.       *)
(*                                                                         *)
(* Trace file (environment variable TRACE): one JSON object per line,      *)
(*   sid, paths (path text -> characters), ev (list of events)             *)
(* Event: c (call), l (log), arguments, out ("ok" | "refused" | "dead"),   *)
(*   res (result), new (log created by a slice), post (list of             *)
(*   [log, state] for every log which is not as before), drift (list of    *)
(*   caller-owned objects that are not as before)                          *)
(***************************************************************************)
EXTENDS Log, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, logs, tk, stuck
vars == <<sid, l, logs, tk, stuck>>

PairMap(list) == [v \in {list[i][1] : i \in 1..Len(list)} |->
                    list[CHOOSE i \in 1..Len(list) : list[i][1] = v][2]]

Obs(j) == [ver |-> j.ver, cur |-> j.cur, snaps |-> PairMap(j.snaps), pat |-> PairMap(j.pat),
           pool |-> j.pool]
WithG(s, g) == [ver |-> s.ver, cur |-> s.cur, snaps |-> s.snaps, pat |-> s.pat,
                pool |-> s.pool, g |-> g]

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ logs = <<>>
        /\ stuck = FALSE
        /\ tk = [p \in DOMAIN Traces[sid].paths |-> Tokens(Traces[sid].paths[p])]

\* a text form carries numbers only
Norm(op) == IF op.val.k = "I" THEN [op EXCEPT !.val.k = "N"] ELSE op
Input(ev) == IF ev.form \in {"text", "bytes"}
             THEN [i \in 1..Len(ev.p) |-> Norm(ev.p[i])] ELSE ev.p

Changed(ev) == {ev.post[i][1] : i \in 1..Len(ev.post)}
PostOf(ev, i) ==
  IF i \in Changed(ev)
  THEN Obs(ev.post[CHOOSE x \in 1..Len(ev.post) : ev.post[x][1] = i][2])
  ELSE logs[i]

CallTags(c) ==
  CASE c \in {"new", "store", "append"} -> {"C01"}
    [] c = "bulk" -> {"C01"}
    [] c \in {"snapshot", "sweep"} -> {"C02"}
    [] c = "tsnap" -> {"C06"}
    [] c = "slice" -> {"C07"}
    [] c = "tslice" -> {"C08"}
    [] c = "track" -> {"C04"}
    [] c = "ttrack" -> {"C05"}
    [] c \in {"set", "testset"} -> {"C09"}
    [] c = "compact" -> {"C10"}
    [] c = "history" -> {"C11"}
    [] OTHER -> {}

Check(ev) ==
  IF ev.out = "dead" THEN CallTags(ev.c) \cup {"C12"}
  ELSE IF ev.c = "new"
  THEN IF ev.bad THEN If(ev.out = "refused", {"C12"})
       ELSE IF ev.out # "ok" THEN {"C01", "C12"}
       ELSE ChkNew(ev.doc, Input(ev), Obs(ev.new))
  ELSE LET pre == logs[ev.l] post == PostOf(ev, ev.l) IN OnSlice(pre,
       CASE ev.c = "store" ->
              IF ev.bad THEN If(ev.out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
              ELSE ChkStore(pre, Input(ev), post, ev.out)
         [] ev.c = "append" -> ChkAppend(pre, post, ev.out)
         [] ev.c = "bulk" -> ChkBulk(pre, ev.batches, ev.every, post, ev.out)
         [] ev.c = "snapshot" ->
              IF ev.v < First(pre) THEN {} ELSE ChkSnapshot(tk, pre, ev.v, post, ev.out, ev.res)
         [] ev.c = "sweep" -> ChkSweep(tk, pre, ev.vs, post, ev.out, ev.res)
         [] ev.c = "tsnap" -> ChkTSnapshot(tk, pre, ev.t, post, ev.out, ev.res)
         [] ev.c = "slice" ->
              IF ev.vi < First(pre) THEN {}
              ELSE ChkSlice(tk, pre, ev.vi, ev.vj, post, ev.out,
                            IF ev.out = "ok" THEN Obs(ev.new) ELSE pre)
         [] ev.c = "tslice" ->
              ChkTSlice(tk, pre, ev.ti, ev.tj, post, ev.out,
                        IF ev.out = "ok" THEN Obs(ev.new) ELSE pre)
         [] ev.c = "track" ->
              IF ev.vi < First(pre) THEN {}
              ELSE ChkTrack(tk, pre, ev.vi, ev.vj, post, ev.out, PairMap(ev.res))
         [] ev.c = "ttrack" -> ChkTTrack(tk, pre, ev.ti, ev.tj, post, ev.out, PairMap(ev.res))
         [] ev.c = "set" -> ChkSet(tk, pre, ev.o, post, ev.out)
         [] ev.c = "testset" -> ChkTestSet(tk, pre, ev.o, post, ev.out)
         [] ev.c = "compact" -> ChkCompact(tk, pre, TargetTokens(Traces[sid].paths[ev.path]), post, ev.out)
         [] ev.c = "history" -> ChkHistory(tk, pre, TargetTokens(Traces[sid].paths[ev.path]), post, ev.out, ev.res)
         [] OTHER -> {"BAD-EVENT"})

\* a log that is none any more: nothing more can be said about it
States(ev) == {Obs(ev.post[i][2]) : i \in 1..Len(ev.post)}
              \cup (IF "new" \in DOMAIN ev THEN {Obs(ev.new)} ELSE {})
Broken(ev) == ev.out # "dead" /\ \E s \in States(ev) : ~Sound(s)

\* every other log, and everything the caller holds, is as it was
Frame(ev) ==
  IF ev.out = "dead" THEN {}
  ELSE If(ev.drift = <<>>, {"C03"})
       \cup If(\A i \in Changed(ev) : i = ev.l \/ i > Len(logs), {"C03", "C07", "C08"})
       \cup If(\A i \in Changed(ev) : Contiguous(PostOf(ev, i)), {"C01"})

Ghost(pre, post, c) ==
  [pre.g EXCEPT
     !.cmp = pre.g.cmp \/ (c \in {"compact", "history"} /\ pre.pat # post.pat),
     !.pat = [v \in {x \in DOMAIN post.pat : x > LastV(pre)} |-> post.pat[v]] @@ pre.g.pat]

NewGhostOf(ev, s) ==
  IF ev.c = "slice"
  THEN LET p == logs[ev.l] IN
       [cmp |-> p.g.cmp, kind |-> "slice",
        pat |-> [v \in {x \in DOMAIN p.g.pat : ev.vi <= x /\ x <= ev.vj} |-> p.g.pat[v]]]
  ELSE [cmp |-> FALSE, pat |-> s.pat, kind |-> IF ev.c = "tslice" THEN "tslice" ELSE "root"]

Step ==
  LET ev == Traces[sid].ev[l]
      bad  == stuck \/ TLCEval(Broken(ev))
      tags == IF stuck THEN {} ELSE IF bad THEN (IF ev.l \in 1..Len(logs) THEN OnSlice(logs[ev.l], CallTags(ev.c) \cup {"C01"}) ELSE CallTags(ev.c) \cup {"C01"}) \cup If(ev.c \in {"new", "store", "append", "bulk"}, {"C03"}) ELSE Check(ev) \cup Frame(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ stuck' = bad
     /\ logs' = IF bad THEN logs ELSE [i \in 1..Len(logs) |->
                   IF i \in Changed(ev)
                   THEN WithG(PostOf(ev, i), Ghost(logs[i], PostOf(ev, i), ev.c))
                   ELSE logs[i]]
                \o (IF "new" \in DOMAIN ev
                    THEN LET s == Obs(ev.new) IN <<WithG(s, NewGhostOf(ev, s))>> ELSE <<>>)
     /\ UNCHANGED <<sid, tk>>

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

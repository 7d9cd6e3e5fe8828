------------------------------- MODULE MCLog -------------------------------
(***************************************************************************)
(* Exhaustive model of the Logument: every history of a small vocabulary   *)
(* of calls.  Every state is asked every query; the answers must satisfy   *)
(* the relations of module Log (which are what the implementation is held  *)
(* to) and the theorems below.  With Gen = TRUE it also prints the call    *)
(* script of every transition it finds, for replay on the implementation.  *)
(***************************************************************************)
EXTENDS Log, Json

CONSTANTS Vocab,      \* which vocabulary (see below)
          MaxOps,     \* stored or set operations in a history
          MaxVer,     \* versions after version 0
          MaxCalls,   \* calls in a history
          Gen         \* print scripts

VARIABLES s, n, hist
vars == <<s, n, hist>>

L(v, t) == Leaf("N", v, t)
V(v) == [k |-> "N", v |-> v]

\* path text -> characters
Chars ==
  CASE Vocab = "flat"  -> ("/a" :> <<"/", "a">>) @@ ("/b" :> <<"/", "b">>)
    [] Vocab = "tree"  -> ("/a" :> <<"/", "a">>) @@ ("/a/b" :> <<"/", "a", "/", "b">>)
                          @@ ("/ab" :> <<"/", "a", "b">>)
    [] Vocab = "array" -> ("/l/0" :> <<"/", "l", "/", "0">>) @@ ("/l/1" :> <<"/", "l", "/", "1">>)
                          @@ ("/l" :> <<"/", "l">>)
T == [p \in DOMAIN Chars |-> Tokens(Chars[p])]

Doc0 ==
  CASE Vocab = "flat"  -> Obj([a |-> L("1", 0)])
    [] Vocab = "tree"  -> Obj([a |-> Obj([b |-> L("1", 0)]), ab |-> L("1", 0)])
    [] Vocab = "array" -> Obj([l |-> Arr(<<L("1", 0), L("2", 0)>>)])

Vals == {"1", "2"}
Times == {1, 2}
SetPaths == CASE Vocab = "array" -> {"/l/0", "/l/1"} [] OTHER -> DOMAIN Chars
Sets == {[op |-> o, path |-> p, val |-> V(v), ts |-> t] :
           o \in {"add"}, p \in SetPaths, v \in Vals, t \in Times}
Removes == {[op |-> "remove", path |-> p, val |-> Nul, ts |-> t] : p \in SetPaths, t \in Times}
Ops == Sets \cup Removes
TestSets == {[o EXCEPT !.op = "replace"] : o \in {x \in Sets : x.ts = 2}}
Targets == CASE Vocab = "flat" -> {<<>>, <<"/", "a">>}
             [] Vocab = "tree" -> {<<>>, <<"/", "a">>, <<"/", "a", "/", "b", "/">>}
             [] Vocab = "array" -> {<<>>, <<"/", "l", "/", "0">>}

Emit(call) == hist' = IF Gen THEN Append(hist, call) ELSE hist

Init == s = DoNew(Doc0, <<>>) /\ n = 0 /\ hist = <<>>

\* each step: the reference transition, which must satisfy its relation
Store == \E o \in Ops :
  /\ n < MaxOps /\ n' = n + 1
  /\ s' = DoStore(s, <<o>>)
  /\ Assert(ChkStore(s, <<o>>, s', "ok") = {}, <<"store", s, o>>)
  /\ Emit([c |-> "store", o |-> o])
Publish ==
  /\ Len(s.ver) <= MaxVer /\ ~s.pool.nil /\ n' = n
  /\ s' = DoAppend(s)
  /\ Assert(ChkAppend(s, s', "ok") = {}, <<"append", s>>)
  /\ Emit([c |-> "append"])
Snap == \E v \in Range(s.ver) :
  /\ v \notin DOMAIN s.snaps /\ n' = n
  /\ LET r == NearSnapshot(T, s, v) IN
     /\ s' = DoSnapshot(T, s, v)
     /\ Assert(ChkSnapshot(T, s, v, s', IF r.ok THEN "ok" ELSE "refused", r.d) = {}, <<"snapshot", s, v>>)
  /\ Emit([c |-> "snapshot", v |-> v])
SetOp == \E o \in {x \in Sets : x.ts = 1} :
  /\ n < MaxOps /\ n' = n + 1
  /\ s' = DoSet(T, s, o)
  /\ Assert(ChkSet(T, s, o, s', IF SetLegal(T, s, o) THEN "ok" ELSE "refused") = {}, <<"set", s, o>>)
  /\ Emit([c |-> "set", o |-> o])
TestSetOp == \E o \in TestSets :
  /\ n < MaxOps /\ n' = n + 1
  /\ s' = DoTestSet(T, s, o)
  /\ LET p  == TestSetPlan(T, s, o)
         ok == p.act = "none" \/ (p.act = "set" /\ SetLegal(T, s, p.op))
     IN Assert(ChkTestSet(T, s, o, s', IF ok THEN "ok" ELSE "refused") = {}, <<"testset", s, o>>)
  /\ Emit([c |-> "testset", o |-> o])
Comp == \E cs \in Targets :
  /\ ~s.g.cmp /\ n' = n
  /\ LET tg == TargetTokens(cs) IN
     /\ s' = DoCompact(T, s, tg)
     /\ Assert(ChkCompact(T, s, tg, s', "ok") = {}, <<"compact", s, cs>>)
  /\ Emit([c |-> "compact", path |-> Join(cs)])

Next == Store \/ Publish \/ Snap \/ SetOp \/ TestSetOp \/ Comp
Spec == Init /\ [][Next]_vars

Bounded == Len(hist) < MaxCalls
View == <<s, n>>

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
TypeOK == Contiguous(s) /\ DOMAIN s.pat \subseteq Range(s.ver) /\ 0 \in DOMAIN s.snaps

\* C02: the snapshot does not depend on what is cached
CacheIndependent ==
  \A v \in Range(s.ver) :
    LET a == SnapshotOf(T, s, s.pat, v) b == NearSnapshot(T, s, v) IN
    /\ a.ok => b.ok
    /\ a.ok /\ ~s.g.cmp => a.d = b.d
    /\ a.ok => ValEq(a.d, b.d)
\* C02: one version further is one patch further
OneByOne ==
  \A v \in Range(s.ver) \ {First(s)} :
    LET a == SnapshotOf(T, s, s.pat, v - 1) IN
    a.ok => SnapshotOf(T, s, s.pat, v) = ApplyAll(T, a.d, PatAt(s.pat, v))
\* C04: dropping redundant operations keeps every version's values
TrackOK ==
  \A vi, vj \in Range(s.ver) : vi <= vj =>
    ChkTrack(T, s, vi, vj, s, "ok", TrackRef(T, s, vi, vj)) = {}
\* C05
TTrackOK ==
  \A ti, tj \in 0..3 : ti <= tj =>
    ChkTTrack(T, s, ti, tj, s, "ok",
              LET r == Keep(T, TTrackItems(s, ti, tj)) IN
              [v \in {x \in DOMAIN r : r[x] # <<>>} |-> r[v]]) = {}
\* C06: with timestamps in recorded order, the state at the last time is the latest state
LatestIsNow ==
  LET r == SnapshotOf(T, s, s.pat, LastV(s)) q == IF r.ok THEN ApplyAll(T, r.d, s.pool.ops) ELSE r IN
  Nondecreasing(All(s)) => LET a == AsOf(T, s, 3) IN a.ok = q.ok /\ a.d = q.d
\* C07
SliceOK ==
  \A vi, vj \in Range(s.ver) :
    SliceLegal(T, s, vi, vj) =>
      LET sl == DoSlice(T, s, vi, vj) IN
      /\ ChkSlice(T, s, vi, vj, s, "ok", sl) = {}
      /\ \A v \in vi..vj : LET r == NearSnapshot(T, sl, v) IN r.ok /\ SnapAllowed(T, s, v, r.d)
      /\ ~s.g.cmp => \A v \in vi..vj : NearSnapshot(T, sl, v) = SnapshotOf(T, s, s.pat, v)
\* C08: for every instant of the range, and for ranges within the range
TSliceOK ==
  LET p == DoAppend(s) IN
  \A ti, tj \in 0..3 :
    TSliceLegal(T, p, ti, tj) =>
      LET sl == TSliceRef(T, p, ti, tj) IN
      /\ ChkTSlice(T, s, ti, tj, p, "ok", sl) = {}
      /\ \A t \in ti..tj : AsOf(T, sl, t) = AsOf(T, p, t)
\* C11: the history of everything, applied in time order, ends in the state of the last time
HistoryOK ==
  LET c == DoCompact(T, s, <<>>).pat IN
  Nondecreasing(Recorded(s)) =>
    \A p \in HistPaths(T, c, <<>>) :
      LET h == HistOps(c, p) r == SnapshotOf(T, s, s.pat, LastV(s)) IN
      r.ok /\ IsSet(h[Len(h)]) /\ (\A q \in HistPaths(T, c, <<>>) \ {p} :
                                     ~IsPrefixTok(T[q], T[p]) /\ ~IsPrefixTok(T[p], T[q])
                                     /\ (\A i \in 1..Len(HistOps(c, q)) :
                                            ~Related(T, HistOps(c, q)[i], p)))
      => LET x == Get(r.d, T[p]) IN x.ok /\ x.d.v = h[Len(h)].val.v

Script == IF Gen /\ hist' # hist
          THEN PrintT("SCRIPT " \o ToJson([vocab |-> Vocab, calls |-> hist'])) ELSE TRUE
=============================================================================

-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* The Logument: a versioned, time-stamped change log of a document.       *)
(*                                                                         *)
(* A log state is a record                                                 *)
(*   ver    sequence of version numbers                                    *)
(*   cur    the current document ("CurrentState")                          *)
(*   snaps  function version -> cached document                            *)
(*   pat    function version -> sequence of operations                     *)
(*   pool   [nil |-> BOOLEAN, ops |-> sequence of operations]              *)
(*   g      ghost: what was recorded before any compaction, and where the  *)
(*          log came from                                                  *)
(*            g.cmp  TRUE once a compaction has touched the log            *)
(*            g.pat  the operations per version as first recorded          *)
(*            g.kind "root", "slice" or "tslice"                           *)
(*                                                                         *)
(* Part 1 defines the meaning of the log (replay in version order, replay  *)
(* in time order, which operations of a range are redundant).              *)
(* Part 2 gives one reference transition per library call (Do...), used by *)
(* the exhaustive model MCLog and by the script generator.                 *)
(* Part 3 gives, per library call, the relation an observed step of the    *)
(* implementation must satisfy (Chk...): the set of violated property ids.   *)
(* MCLog checks that every reference transition satisfies its relation.    *)
(***************************************************************************)
EXTENDS Doc

Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
IsPrefixSeq(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(***************************************************************************)
(* Part 1: meaning.                                                        *)
(***************************************************************************)
First(s) == s.ver[1]
LastV(s) == s.ver[Len(s.ver)]
PatAt(pat, v) == IF v \in DOMAIN pat THEN pat[v] ELSE <<>>

RECURSIVE Flat(_, _, _)       \* operations of versions lo..hi in order
Flat(pat, lo, hi) == IF lo > hi THEN <<>> ELSE TLCEval(PatAt(pat, lo) \o Flat(pat, lo + 1, hi))

Contiguous(s) == /\ Len(s.ver) >= 1
                 /\ \A i \in 1..(Len(s.ver) - 1) : s.ver[i + 1] = s.ver[i] + 1

\* what every log is: a first snapshot, and versions one after the other
Sound(s) == /\ Contiguous(s)
            /\ First(s) \in DOMAIN s.snaps
            /\ DOMAIN s.pat \subseteq Range(s.ver)

\* C02: the document at version v is the replay of the whole history
SnapshotOf(T, s, pat, v) == ApplyAll(T, s.snaps[First(s)], Flat(pat, First(s) + 1, v))

\* a document that an observed snapshot of version v may be
SnapAllowed(T, s, v, d) ==
  IF ~s.g.cmp
  THEN LET r == SnapshotOf(T, s, s.pat, v) IN r.ok /\ r.d = d
  ELSE LET r == SnapshotOf(T, s, s.g.pat, v) IN
       /\ r.ok => ValEq(r.d, d)
       /\ \E b \in DOMAIN s.snaps :
            /\ b <= v /\ b >= First(s)
            /\ LET q == ApplyAll(T, s.snaps[b], Flat(s.pat, b + 1, v)) IN q.ok /\ q.d = d

SnapOk(T, s, v) == SnapshotOf(T, s, s.pat, v).ok

\* time order, recorded order among equal timestamps
TimeSort(ops) ==
  LET n   == Len(ops)
      idx == SortSeq([i \in 1..n |-> i],
                     LAMBDA a, b : ops[a].ts < ops[b].ts \/ (ops[a].ts = ops[b].ts /\ a < b))
  IN TLCEval([i \in 1..n |-> ops[idx[i]]])

Recorded(s) == Flat(s.pat, First(s) + 1, LastV(s))
All(s)      == Recorded(s) \o s.pool.ops

\* C06: the document at time t
AsOf(T, s, t) ==
  ApplyAll(T, s.snaps[First(s)], TimeSort(SelectSeq(All(s), LAMBDA o : o.ts <= t)))
Before(T, s, t) ==
  ApplyAll(T, s.snaps[First(s)], TimeSort(SelectSeq(All(s), LAMBDA o : o.ts < t)))

InRange(o, ti, tj) == ti <= o.ts /\ o.ts <= tj

(***************************************************************************)
(* Redundant operations.  items is a sequence of [v, op, inr]: the recorded *)
(* operations with inr = "is in the asked range".  The class of an item in  *)
(* the range is                                                            *)
(*   "K"  it must be kept: first on its location, or it changes the value, *)
(*        or the location vanished since                                   *)
(*   "D"  it must be dropped: it rewrites the value which the previous     *)
(*        operation on its path gave, and nothing touched the location or  *)
(*        anything above, below or beside it (in an array) in between      *)
(*   "P"  either way is fine as long as the replay gives the same values   *)
(***************************************************************************)
LastIsIndex(tk) == tk # <<>> /\ tk[Len(tk)].i >= 0
Scope(T, op) == LET tk == T[op.path] IN      \* what an operation may move or change
  IF IsRemove(op) /\ LastIsIndex(tk) THEN SubSeq(tk, 1, Len(tk) - 1) ELSE tk
Related(T, x, path) == \/ IsPrefixTok(Scope(T, x), T[path])
                       \/ IsPrefixTok(T[path], Scope(T, x))
Destroys(T, x, path) ==
  \/ IsRemove(x) /\ IsPrefixTok(T[x.path], T[path]) /\ ~LastIsIndex(T[x.path])
  \/ IsSet(x) /\ IsPrefixTok(T[x.path], T[path]) /\ Len(T[x.path]) < Len(T[path])

Class(T, items, i) ==
  LET op   == items[i].op
      prev == {j \in 1..(i - 1) : items[j].inr /\ items[j].op.path = op.path}
  IN IF prev = {} THEN "K"
     ELSE LET j   == MaxOf(prev)
              old == items[j].op
              mid == {x \in (j + 1)..(i - 1) : Related(T, items[x].op, op.path)}
          IN IF IsSet(old) /\ IsSet(op)
             THEN IF ~SameVal(old.val, op.val) THEN "K"
                  ELSE IF \E x \in mid : items[x].inr /\ Destroys(T, items[x].op, op.path) THEN "K"
                  ELSE IF mid = {} THEN "D" ELSE "P"
             ELSE IF IsRemove(old) /\ IsRemove(op) /\ ~LastIsIndex(T[op.path]) THEN "P"
             ELSE IF (IsSet(old) \/ IsRemove(old)) /\ (IsSet(op) \/ IsRemove(op)) THEN "K"
             ELSE "P"

Classes(T, items) == [i \in 1..Len(items) |-> IF items[i].inr THEN Class(T, items, i) ELSE "N"]

\* all operations of versions lo..hi; the range is everything, or the times rng[1]..rng[2]
RECURSIVE ItemsFrom(_, _, _, _)
ItemsFrom(pat, lo, hi, rng) ==
  IF lo > hi THEN <<>>
  ELSE [i \in 1..Len(PatAt(pat, lo)) |->
          [v |-> lo, op |-> pat[lo][i],
           inr |-> rng = <<>> \/ InRange(pat[lo][i], rng[1], rng[2])]]
       \o ItemsFrom(pat, lo + 1, hi, rng)

\* res is what remains of the items i..n of one version.  J: how far in res one
\* can be after the items before i
RECURSIVE MatchSet(_, _, _, _, _, _)
MatchSet(items, cls, i, n, res, J) ==
  IF i > n THEN (Len(res) + 1) \in J
  ELSE IF J = {} THEN FALSE
  ELSE IF cls[i] = "N" THEN MatchSet(items, cls, i + 1, n, res, J)
  ELSE LET kept == IF cls[i] = "D" THEN {}
                   ELSE {j + 1 : j \in {x \in J : x <= Len(res) /\ items[i].op = res[x]}}
           gone == IF cls[i] = "K" THEN {} ELSE J
       IN MatchSet(items, cls, i + 1, n, res, TLCEval(kept \cup gone))
Match(items, cls, i, n, res) == MatchSet(items, cls, i, n, res, {1})

\* res: version -> operations, is a permitted reduction of the items
Reduced(T, items, res) ==
  LET cls == TLCEval(Classes(T, items))
      vs  == {items[i].v : i \in 1..Len(items)}
  IN /\ \A v \in DOMAIN res : res[v] # <<>> => v \in vs
     /\ \A v \in vs :
          LET at == {i \in 1..Len(items) : items[i].v = v}
          IN Match(items, cls, MinOf(at), MaxOf(at), PatAt(res, v))

\* the reference reduction: keep everything that is not clearly redundant
Keep(T, items) ==
  LET cls == TLCEval(Classes(T, items))
      vs  == {items[i].v : i \in 1..Len(items)}
      at(v) == SelectSeq([i \in 1..Len(items) |-> i],
                         LAMBDA i : items[i].v = v /\ cls[i] \in {"K", "P"})
  IN [v \in vs |-> [x \in 1..Len(at(v)) |-> items[at(v)[x]].op]]

\* target: tokens of a compaction target, in whose text a trailing slash is ignored
TargetTokens(cs) == Tokens(IF cs # <<>> /\ cs[Len(cs)] = "/" THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs)
AtTarget(T, op, target) == IsPrefixTok(target, T[op.path])

(***************************************************************************)
(* Part 2: reference transitions.  Each returns the next log state; the    *)
(* enabling conditions are the ...Legal operators.                           *)
(***************************************************************************)
NewGhost(pat, kind) == [cmp |-> FALSE, pat |-> pat, kind |-> kind]
EmptyPool == [nil |-> TRUE, ops |-> <<>>]
NoPat == [v \in {} |-> <<>>]

DoNew(d, ops) == [ver |-> <<0>>, cur |-> d, snaps |-> (0 :> d), pat |-> NoPat,
                  pool |-> [nil |-> ops = <<>>, ops |-> ops], g |-> NewGhost(NoPat, "root")]

DoStore(s, ops) == [s EXCEPT !.pool = [nil |-> FALSE, ops |-> s.pool.ops \o ops]]

DoAppend(s) ==
  IF s.pool.nil THEN s
  ELSE LET v == LastV(s) + 1 IN
       [s EXCEPT !.ver = Append(s.ver, v), !.pat = (v :> s.pool.ops) @@ s.pat,
                 !.pool = EmptyPool, !.g.pat = (v :> s.pool.ops) @@ s.g.pat]

\* the nearest cached version at or below v, replayed
NearSnapshot(T, s, v) ==
  LET b == MaxOf({x \in DOMAIN s.snaps : x <= v})
  IN ApplyAll(T, s.snaps[b], Flat(s.pat, b + 1, v))
SnapshotLegal(s, v) == First(s) <= v /\ v <= LastV(s)
DoSnapshot(T, s, v) ==
  LET r == NearSnapshot(T, s, v) IN
  IF r.ok THEN [s EXCEPT !.snaps = (v :> r.d) @@ s.snaps] ELSE s

SetLegal(T, s, op) == IsSet(op) /\ Apply(T, s.cur, op).ok
DoSet(T, s, op) ==
  IF ~IsSet(op) \/ ~SetLegal(T, s, op) THEN s
  ELSE [s EXCEPT !.cur = Apply(T, s.cur, op).d,
                 !.pool = [nil |-> FALSE, ops |-> Append(s.pool.ops, op)]]

\* what a test-set does: [act |-> "none"|"set"|"fail", op]
TestSetPlan(T, s, op) ==
  IF op.op = "add" THEN [act |-> "set", op |-> op]
  ELSE IF op.op # "replace" THEN [act |-> "none", op |-> op]
  ELSE LET r == SnapshotOf(T, s, s.pat, LastV(s))
           q == IF r.ok THEN ApplyAll(T, r.d, s.pool.ops) ELSE r
           x == Get(q.d, T[op.path])
       IN IF ~q.ok THEN [act |-> "fail", op |-> op]
          ELSE IF ~x.ok THEN [act |-> "set", op |-> [op EXCEPT !.op = "add"]]
          ELSE IF IsLeaf(x.d) /\ HasLeaf(op) /\ x.d.k = ValKind(op.val) /\ x.d.v = op.val.v
               THEN [act |-> "none", op |-> op]
               ELSE [act |-> "set", op |-> op]
DoTestSet(T, s, op) ==
  LET p == TestSetPlan(T, s, op) IN IF p.act = "set" THEN DoSet(T, s, p.op) ELSE s

CompactItems(T, s, target) ==
  LET vs == DOMAIN s.pat IN
  IF vs = {} THEN <<>>
  ELSE ItemsFrom(s.pat, MinOf(vs), MaxOf(vs), <<>>)

\* operations outside the target are never dropped
CompactClasses(T, items, target) ==
  [i \in 1..Len(items) |->
     IF AtTarget(T, items[i].op, target) THEN Class(T, items, i) ELSE "K"]

CompactOk(T, s, target, pat) ==
  LET items == TLCEval(CompactItems(T, s, target))
      cls   == TLCEval(CompactClasses(T, items, target))
  IN /\ \A v \in DOMAIN pat : pat[v] # <<>> => v \in DOMAIN s.pat
     /\ \A v \in DOMAIN s.pat :
          LET at == {i \in 1..Len(items) : items[i].v = v}
          IN IF at = {} THEN PatAt(pat, v) = <<>>
             ELSE Match(items, cls, MinOf(at), MaxOf(at), PatAt(pat, v))

CompactRef(T, s, target) ==
  LET items == TLCEval(CompactItems(T, s, target))
      cls   == TLCEval(CompactClasses(T, items, target))
      at(v) == SelectSeq([i \in 1..Len(items) |-> i],
                         LAMBDA i : items[i].v = v /\ cls[i] # "D")
  IN [v \in DOMAIN s.pat |-> [x \in 1..Len(at(v)) |-> items[at(v)[x]].op]]

DoCompact(T, s, target) ==
  [s EXCEPT !.pat = CompactRef(T, s, target), !.g.cmp = TRUE]

SliceLegal(T, s, vi, vj) ==
  vi <= vj /\ First(s) <= vi /\ vj <= LastV(s) /\ SnapOk(T, s, vi) /\ SnapOk(T, s, vj)
DoSlice(T, s, vi, vj) ==
  LET base == NearSnapshot(T, s, vi).d IN
  [ver   |-> [i \in 1..(vj - vi + 1) |-> vi + i - 1],
   cur   |-> NearSnapshot(T, s, vj).d,
   snaps |-> (vi :> base) @@ [v \in {x \in DOMAIN s.snaps : vi <= x /\ x <= vj} |-> s.snaps[v]],
   pat   |-> [v \in {x \in DOMAIN s.pat : vi <= x /\ x <= vj} |-> s.pat[v]],
   pool  |-> EmptyPool,
   g     |-> [cmp |-> s.g.cmp, kind |-> "slice",
              pat |-> [v \in {x \in DOMAIN s.g.pat : vi <= x /\ x <= vj} |-> s.g.pat[v]]]]

\* versions of the operations in a time range, and of those before it
VersIn(s, ti, tj) == {v \in DOMAIN s.pat : v > First(s) /\
                        \E i \in 1..Len(s.pat[v]) : InRange(s.pat[v][i], ti, tj)}
TSlicePat(s, ti, tj) ==
  [v \in VersIn(s, ti, tj) |-> SelectSeq(s.pat[v], LAMBDA o : InRange(o, ti, tj))]
\* s: a log whose queue has been published
TSliceRef(T, s, ti, tj) ==
  LET vs   == VersIn(s, ti, tj)
      befo == {v \in DOMAIN s.pat : v > First(s) /\ \E i \in 1..Len(s.pat[v]) : s.pat[v][i].ts < ti}
      lo   == IF vs # {} THEN MinOf(vs) - 1 ELSE IF befo # {} THEN MaxOf(befo) ELSE First(s)
      hi   == IF vs # {} THEN MaxOf(vs) ELSE lo
  IN [ver   |-> [i \in 1..(hi - lo + 1) |-> lo + i - 1],
      cur   |-> AsOf(T, s, tj).d,
      snaps |-> (lo :> Before(T, s, ti).d),
      pat   |-> TSlicePat(s, ti, tj),
      pool  |-> EmptyPool,
      g     |-> NewGhost(TSlicePat(s, ti, tj), "tslice")]
TSliceLegal(T, s, ti, tj) == ti <= tj /\ Before(T, s, ti).ok /\ AsOf(T, s, tj).ok

TrackRef(T, s, vi, vj) == Keep(T, ItemsFrom(s.pat, vi, vj, <<>>))
TTrackItems(s, ti, tj) ==
  LET vs == DOMAIN s.pat IN
  IF vs = {} THEN <<>> ELSE ItemsFrom(s.pat, MinOf(vs), MaxOf(vs), <<ti, tj>>)

(***************************************************************************)
(* Part 3: relations.  pre and post are log states (post without ghost),   *)
(* out is "ok" or "refused".                                               *)
(***************************************************************************)
If(c, tags) == IF c THEN {} ELSE tags

RecSame(pre, post) == pre.ver = post.ver /\ pre.pat = post.pat
PoolSame(pre, post) == pre.pool.ops = post.pool.ops
SnapsSame(pre, post) == pre.snaps = post.snaps

\* cached snapshots are kept, and what is cached in addition is right
CacheTags(T, pre, post, own) ==
  If(\A v \in DOMAIN pre.snaps : v \in DOMAIN post.snaps /\ post.snaps[v] = pre.snaps[v],
     {"C03", own})
  \cup If(\A v \in DOMAIN post.snaps \ DOMAIN pre.snaps :
             First(pre) <= v /\ v <= LastV(pre) /\ SnapAllowed(T, pre, v, post.snaps[v]),
          {"C02", own})

\* a query that may only add cached snapshots
ReadOnlyTags(T, pre, post, own) ==
  If(RecSame(pre, post), {"C03", "C01", own})
  \cup If(PoolSame(pre, post), {"C03", "C01", own})
  \cup If(pre.cur = post.cur, {"C03", "C09", own})
  \cup CacheTags(T, pre, post, own)

\* nothing at all changes
UnchangedTags(pre, post, tags) ==
  If(RecSame(pre, post) /\ PoolSame(pre, post) /\ SnapsSame(pre, post) /\ pre.cur = post.cur, tags)

\* states after the queue has (perhaps) been published
Published(pre, post) ==
  \/ RecSame(pre, post) /\ PoolSame(pre, post)
  \/ /\ pre.pool.ops # <<>>
     /\ LET p == DoAppend([pre EXCEPT !.pool.nil = FALSE]) IN
        post.ver = p.ver /\ post.pat = p.pat /\ post.pool.ops = <<>>
  \/ /\ pre.pool.ops = <<>> /\ ~pre.pool.nil       \* an empty but existing queue
     /\ LET p == DoAppend(pre) IN
        post.ver = p.ver /\ post.pool.ops = <<>>
        /\ (post.pat = p.pat \/ post.pat = pre.pat)

PublishTags(T, pre, post, own) ==
  If(Published(pre, post), {"C03", "C01", own})
  \cup If(pre.cur = post.cur, {"C03", "C09", own})
  \cup CacheTags(T, pre, post, own)

OnSlice(pre, tags) ==        \* whatever fails on a slice also fails C07 or C08
  IF tags = {} THEN tags
  ELSE CASE pre.g.kind = "slice"  -> tags \cup {"C07"}
         [] pre.g.kind = "tslice" -> tags \cup {"C08"}
         [] OTHER -> tags

ChkNew(d, ops, post) ==
  If(post.ver = <<0>>, {"C01"})
  \cup If(post.pool.ops = ops, {"C01"})
  \cup If(DOMAIN post.pat = {}, {"C01"})
  \cup If(0 \in DOMAIN post.snaps /\ post.snaps[0] = d, {"C02"})
  \cup If(post.cur = d, {"C09"})

ChkStore(pre, ops, post, out) ==
  If(out = "ok", {"C01"})
  \cup If(post.pool.ops = pre.pool.ops \o ops, {"C01"})
  \cup If(RecSame(pre, post), {"C01", "C03"})
  \cup If(SnapsSame(pre, post) /\ pre.cur = post.cur, {"C03", "C01"})

ChkAppend(pre, post, out) ==
  If(out = "ok", {"C01"})
  \cup If(SnapsSame(pre, post) /\ pre.cur = post.cur, {"C03", "C01"})
  \cup (IF pre.pool.ops = <<>>
        THEN If(Published(pre, post), {"C01"})
        ELSE LET p == DoAppend([pre EXCEPT !.pool.nil = FALSE]) IN
             If(post.ver = p.ver, {"C01"})
             \cup If(post.pat = p.pat, {"C01"})
             \cup If(post.pool.ops = <<>>, {"C01"}))

\* a run of stores with an append after every k-th of them
RECURSIVE BulkFrom(_, _, _, _)
BulkFrom(s, batches, k, i) ==
  IF i > Len(batches) THEN s
  ELSE LET q == TLCEval(DoStore(s, batches[i])) IN
       BulkFrom(IF i % k = 0 THEN TLCEval(DoAppend(q)) ELSE q, batches, k, i + 1)

ChkBulk(pre, batches, k, post, out) ==
  LET p == BulkFrom(pre, batches, k, 1) IN
  If(out = "ok", {"C01"})
  \cup If(post.ver = p.ver /\ post.pat = p.pat /\ post.pool.ops = p.pool.ops, {"C01"})
  \cup If(SnapsSame(pre, post) /\ pre.cur = post.cur, {"C03", "C01"})

ChkSnapshot(T, pre, v, post, out, res) ==
  IF v > LastV(pre)
  THEN If(out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
  ELSE LET own == IF pre.g.cmp THEN {"C02", "C10"} ELSE {"C02"} IN
       ReadOnlyTags(T, pre, post, "C02")
       \cup (IF SnapOk(T, pre, v)
             THEN IF out # "ok" THEN own
                  ELSE If(SnapAllowed(T, pre, v, res), own)
                       \cup If(v \in DOMAIN post.snaps /\ post.snaps[v] = res, {"C02"})
             ELSE If(out = "refused", {"C02"}))

\* snapshots of the versions vs, one after the other
ChkSweep(T, pre, vs, post, out, res) ==
  LET own == IF pre.g.cmp THEN {"C02", "C10"} ELSE {"C02"}
      n   == Len(res)
  IN ReadOnlyTags(T, pre, post, "C02")
     \cup If(\A i \in 1..n : SnapOk(T, pre, vs[i]) /\ SnapAllowed(T, pre, vs[i], res[i]), own)
     \cup If(\A i \in 1..n : vs[i] \in DOMAIN post.snaps /\ post.snaps[vs[i]] = res[i], {"C02"})
     \cup (IF out = "ok" THEN If(n = Len(vs), {"C02"})
           ELSE If(out = "refused" /\ n < Len(vs) /\ ~SnapOk(T, pre, vs[n + 1]), own))

ChkTSnapshot(T, pre, t, post, out, res) ==
  PublishTags(T, pre, post, "C06")
  \cup (LET r == AsOf(T, pre, t) IN
        IF r.ok THEN (IF out = "ok" THEN If(res = r.d, {"C06"}) ELSE {"C06"})
        ELSE If(out = "refused", {"C06"}))

\* sl: the observed slice
ChkSlice(T, pre, vi, vj, post, out, sl) ==
  IF vi > vj \/ vj > LastV(pre)
  THEN If(out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
  ELSE ReadOnlyTags(T, pre, post, "C07")
       \cup (IF ~(SnapOk(T, pre, vi) /\ SnapOk(T, pre, vj)) THEN If(out = "refused", {"C07"})
             ELSE IF out # "ok" THEN {"C07"}
             ELSE If(sl.ver = [i \in 1..(vj - vi + 1) |-> vi + i - 1], {"C07", "C01"})
                  \cup If(/\ \A v \in DOMAIN sl.pat : sl.pat[v] # <<>> => v \in vi..vj
                          /\ \A v \in vi..vj : PatAt(sl.pat, v) = PatAt(pre.pat, v), {"C07"})
                  \cup If(/\ vi \in DOMAIN sl.snaps
                          /\ \A v \in DOMAIN sl.snaps :
                               v \in vi..vj /\ SnapAllowed(T, pre, v, sl.snaps[v]), {"C07"})
                  \cup If(sl.pool.ops = <<>>, {"C07"})
                  \cup If(SnapAllowed(T, pre, vj, sl.cur), {"C07"}))

ChkTSlice(T, pre, ti, tj, post, out, sl) ==
  IF ti > tj
  THEN If(out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
  ELSE LET p == IF pre.pool.ops = <<>> THEN pre ELSE DoAppend([pre EXCEPT !.pool.nil = FALSE]) IN
       PublishTags(T, pre, post, "C08")
       \cup (IF ~(Before(T, p, ti).ok /\ AsOf(T, p, tj).ok) THEN If(out = "refused", {"C08"})
             ELSE IF out # "ok" THEN {"C08"}
             ELSE LET times == {ti, tj} \cup {o.ts : o \in {x \in Range(All(p)) : InRange(x, ti, tj)}}
                      pat   == TSlicePat(p, ti, tj)
                  IN If(Contiguous(sl) /\ sl.pool.ops = <<>>, {"C08", "C01"})
                     \cup If(/\ \A v \in DOMAIN sl.pat :
                                  PatAt(pat, v) = sl.pat[v] /\ (sl.pat[v] # <<>> => v \in Range(sl.ver))
                             /\ \A v \in DOMAIN pat : PatAt(sl.pat, v) = pat[v], {"C08"})
                     \cup If(DOMAIN pat = {} => Len(sl.ver) = 1, {"C08"})
                     \cup (IF ~(Contiguous(sl) /\ First(sl) \in DOMAIN sl.snaps) THEN {"C08"}
                           ELSE If(\A t \in times :
                                     LET a == AsOf(T, p, t) b == AsOf(T, sl, t) IN a = b, {"C08"}))
                     \cup If(sl.cur = AsOf(T, p, tj).d, {"C08"}))

\* the replay of res on top of the state before vi gives the recorded values
TrackReplays(T, s, vi, vj, res) ==
  IF vi = First(s) /\ PatAt(s.pat, vi) # <<>> THEN TRUE   \* the state before is not known
  ELSE LET base == SnapshotOf(T, s, s.pat, IF vi = First(s) THEN vi ELSE vi - 1) IN
       base.ok =>
         \A u \in vi..vj :
           LET a == ApplyAll(T, base.d, Flat(s.pat, vi, u))
               b == ApplyAll(T, base.d, Flat(res, vi, u))
           IN a.ok => b.ok /\ ValEq(a.d, b.d)

ChkTrack(T, pre, vi, vj, post, out, res) ==
  IF vi > vj \/ vj > LastV(pre)
  THEN If(out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
  ELSE ReadOnlyTags(T, pre, post, "C04")
       \cup (IF out # "ok" THEN {"C04"}
             ELSE If(Reduced(T, ItemsFrom(pre.pat, vi, vj, <<>>), res), {"C04"})
                  \cup If(TrackReplays(T, pre, vi, vj, res), {"C04"}))

\* the replay of res gives the values which the operations of the range give
TTrackReplays(T, s, ti, tj, res) ==
  LET vs == DOMAIN s.pat
      in == [v \in vs |-> SelectSeq(s.pat[v], LAMBDA o : InRange(o, ti, tj))]
  IN \A u \in vs :
       LET a == ApplyAll(T, s.snaps[First(s)], Flat(in, MinOf(vs), u))
           b == ApplyAll(T, s.snaps[First(s)], Flat(res, MinOf(vs), u))
       IN a.ok => b.ok /\ ValEq(a.d, b.d)

ChkTTrack(T, pre, ti, tj, post, out, res) ==
  IF ti > tj
  THEN If(out = "refused", {"C12"}) \cup UnchangedTags(pre, post, {"C12"})
  ELSE ReadOnlyTags(T, pre, post, "C05")
       \cup (IF out # "ok" THEN {"C05"}
             ELSE If(\A v \in DOMAIN res : res[v] # <<>>, {"C05"})
                  \cup If(Reduced(T, TTrackItems(pre, ti, tj), res), {"C05"})
                  \cup If(TTrackReplays(T, pre, ti, tj, res), {"C05"}))

\* op is queued and applied (or refused without effect)
SetTags(T, pre, op, post, out) ==
  LET r == Apply(T, pre.cur, op) IN
  IF r.ok
  THEN If(out = "ok" /\ post.pool.ops = Append(pre.pool.ops, op), {"C09"})
       \cup If(post.cur = r.d, {"C09"})
  ELSE If(out = "refused" /\ PoolSame(pre, post) /\ pre.cur = post.cur, {"C09"})

ChkSet(T, pre, op, post, out) ==
  (IF IsSet(op) THEN SetTags(T, pre, op, post, out)
   ELSE If(PoolSame(pre, post) /\ pre.cur = post.cur, {"C09"}))
  \cup If(RecSame(pre, post), {"C09", "C01", "C03"})
  \cup CacheTags(T, pre, post, "C09")

ChkTestSet(T, pre, op, post, out) ==
  LET p == TestSetPlan(T, pre, op) IN
  (CASE p.act = "set"  -> SetTags(T, pre, p.op, post, out)
     [] p.act = "none" -> If(PoolSame(pre, post) /\ pre.cur = post.cur /\ out = "ok", {"C09"})
     [] OTHER          -> If(out = "refused" /\ PoolSame(pre, post) /\ pre.cur = post.cur, {"C09"}))
  \cup If(RecSame(pre, post), {"C09", "C01", "C03"})
  \cup CacheTags(T, pre, post, "C09")

Nondecreasing(ops) == \A i \in 1..(Len(ops) - 1) : ops[i].ts <= ops[i + 1].ts

\* the compaction part of a step from pre to post
CompactTags(T, pre, target, post, own) ==
  LET q == [pre EXCEPT !.pat = post.pat] IN
  If(pre.ver = post.ver, {own, "C01"})
  \cup If(PoolSame(pre, post) /\ pre.cur = post.cur, {own, "C03"})
  \cup CacheTags(T, pre, post, own)
  \cup If(CompactOk(T, pre, target, post.pat), {own})
  \cup If(\A v \in Range(pre.ver) :
            LET a == SnapshotOf(T, pre, pre.pat, v) b == SnapshotOf(T, pre, post.pat, v)
            IN a.ok => b.ok /\ ValEq(a.d, b.d), {own})
  \cup If(Nondecreasing(All(pre)) =>
            \A t \in {o.ts : o \in Range(All(pre))} :
              LET a == AsOf(T, pre, t) b == AsOf(T, q, t) IN a.ok => b.ok /\ ValEq(a.d, b.d), {own})

ChkCompact(T, pre, target, post, out) ==
  If(out = "ok", {"C10"}) \cup CompactTags(T, pre, target, post, "C10")

\* history of the (compacted) operations pat
HistPaths(T, pat, target) ==
  {o.path : o \in {x \in UNION {Range(pat[v]) : v \in DOMAIN pat} : AtTarget(T, x, target)}}
HistOps(pat, path) ==
  LET vs == DOMAIN pat IN
  IF vs = {} THEN <<>>
  ELSE TimeSort(SelectSeq(Flat(pat, MinOf(vs), MaxOf(vs)), LAMBDA o : o.path = path))

\* the entry for the value in the first document
InitialEntry(d, path, e) ==
  /\ e.path = path /\ e.op \in {"add", "replace"}
  /\ \/ e.val.k = "L" /\ e.val.n = d
     \/ IsLeaf(d) /\ ValKind(e.val) = d.k /\ e.val.v = d.v

HistoryOf(T, s, pat, target, res) ==
  /\ {p \in DOMAIN res : res[p] # <<>>} = HistPaths(T, pat, target)
  /\ \A p \in HistPaths(T, pat, target) :
       LET ops == HistOps(pat, p)
           x   == Get(s.snaps[First(s)], T[p])
       IN IF x.ok /\ x.d.k # "Z"
          THEN res[p] # <<>> /\ Tail(res[p]) = ops /\ InitialEntry(x.d, p, Head(res[p]))
          ELSE res[p] = ops

ChkHistory(T, pre, target, post, out, res) ==
  CompactTags(T, pre, target, [post EXCEPT !.pat = IF post.pat = pre.pat
                                                   THEN CompactRef(T, pre, target) ELSE post.pat], "C11")
  \cup (IF out # "ok" THEN {"C11"}
        ELSE If(HistoryOf(T, pre, IF post.pat = pre.pat THEN CompactRef(T, pre, target) ELSE post.pat,
                          target, res), {"C11"}))
=============================================================================

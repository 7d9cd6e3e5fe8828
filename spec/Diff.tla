-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* What a generated patch may be.                                          *)
(*                                                                         *)
(* Part 1: which changes leaf-valued operations must be able to express,   *)
(* what the patched document must be.  Part 2: a reference patch           *)
(* generator, for the model.  Part 3: the relations the implementation's   *)
(* patches are held to.                                                    *)
(***************************************************************************)
EXTENDS Doc

If(c, tags) == IF c THEN {} ELSE tags

(***************************************************************************)
(* Part 1.                                                                 *)
(***************************************************************************)
\* sub is what remains of whole after dropping some elements (those at Dropped)
RECURSIVE Dropped(_, _, _)
Dropped(whole, sub, i) ==
  IF i > Len(whole) THEN [ok |-> sub = <<>>, at |-> <<>>]
  ELSE IF sub # <<>> /\ (sub # <<>> => whole[i] = sub[1])
  THEN Dropped(whole, Tail(sub), i + 1)
  ELSE LET r == Dropped(whole, sub, i + 1) IN [ok |-> r.ok, at |-> <<i>> \o r.at]

OnlyDropped(whole, sub) == Len(sub) < Len(whole) /\ Dropped(whole, sub, 1).ok

\* b can be reached from a by operations that carry leaves: no container and
\* no null appears where there was none (what is left of an array after
\* removing elements was there)
RECURSIVE Expressible(_, _)
Expressible(a, b) ==
  CASE IsLeaf(b) -> TRUE
    [] b.k = "Z" -> a.k = "Z"
    [] b.k = "O" -> a.k = "O" /\ \A x \in DOMAIN b.m :
                       IF x \in DOMAIN a.m THEN Expressible(a.m[x], b.m[x]) ELSE IsLeaf(b.m[x])
    [] b.k = "A" -> a.k = "A" /\ (OnlyDropped(a.e, b.e) \/ \A i \in 1..Len(b.e) :
                       IF i <= Len(a.e) THEN Expressible(a.e[i], b.e[i]) ELSE IsLeaf(b.e[i]))

\* r is b by value; changed leaves are dated like b's, unchanged ones like a's
\* (loose: in an array of another length it is not defined which leaves are unchanged)
RECURSIVE Turned(_, _, _, _)
Turned(a, b, r, loose) ==
  IF r.k # b.k THEN FALSE
  ELSE IF IsLeaf(b)
  THEN /\ r.v = b.v
       /\ IF a.k = b.k /\ (a.k = b.k => a.v = b.v) THEN r.t = a.t \/ (loose /\ r.t = b.t)
          ELSE r.t = b.t
  ELSE IF b.k = "O"
  THEN /\ DOMAIN r.m = DOMAIN b.m
       /\ \A x \in DOMAIN b.m :
            Turned(IF a.k = "O" /\ x \in (IF a.k = "O" THEN DOMAIN a.m ELSE {}) THEN a.m[x] ELSE Nul, b.m[x], r.m[x], loose)
  ELSE IF b.k = "A"
  THEN /\ Len(r.e) = Len(b.e)
       /\ \A i \in 1..Len(b.e) :
            Turned(IF a.k = "A" /\ i <= (IF a.k = "A" THEN Len(a.e) ELSE 0) THEN a.e[i] ELSE Nul, b.e[i], r.e[i],
                   loose \/ a.k # "A" \/ (a.k = "A" /\ Len(a.e) # Len(b.e)))
  ELSE TRUE

\* the node at tk, unless an array of another length is on the way
RECURSIVE Settled(_, _, _)
Settled(a, b, tk) ==
  IF a.k = "A" /\ b.k = "A" /\ (a.k = "A" /\ b.k = "A" => Len(a.e) # Len(b.e)) THEN FALSE
  ELSE IF tk = <<>> THEN TRUE
  ELSE LET x == Get(a, <<tk[1]>>) y == Get(b, <<tk[1]>>)
       IN x.ok /\ y.ok /\ Settled(x.d, y.d, Tail(tk))

\* no operation on something that both have alike
NeedlessVal(a, b, tk) == LET x == Get(a, tk) y == Get(b, tk)
                         IN x.ok /\ y.ok /\ ValEq(x.d, y.d) /\ Settled(a, b, tk)
NeedlessTs(a, b, tk)  == LET x == Get(a, tk) y == Get(b, tk)
                         IN x.ok /\ y.ok /\ x.d = y.d /\ Settled(a, b, tk)

(***************************************************************************)
(* Part 2: the reference generator (operations with tokens as paths).      *)
(***************************************************************************)
SetOp(kind, tk, d) == [op |-> kind, path |-> tk, val |-> [k |-> d.k, v |-> d.v], ts |-> d.t]
RemOp(tk) == [op |-> "remove", path |-> tk, val |-> Nul, ts |-> 0]

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

KeyTok(x) == [s |-> x, i |-> -1]
IdxTok(j) == [s |-> ToString(j), i |-> j]

\* for Expressible(a, b)
RECURSIVE RefDiff(_, _, _, _)
RefDiff(a, b, at, withTs) ==
  IF IsLeaf(b)
  THEN IF (withTs /\ a = b) \/ (~withTs /\ ValEq(a, b)) THEN <<>> ELSE <<SetOp("replace", at, b)>>
  ELSE IF b.k = "Z" THEN <<>>
  ELSE IF b.k = "O"
  THEN Flat([j \in 1..Cardinality(DOMAIN b.m) |->
               LET x == SetToSeq2(DOMAIN b.m)[j] IN
               IF x \in DOMAIN a.m THEN RefDiff(a.m[x], b.m[x], Append(at, KeyTok(x)), withTs)
               ELSE <<SetOp("add", Append(at, KeyTok(x)), b.m[x])>>])
       \o [j \in 1..Cardinality(DOMAIN a.m \ DOMAIN b.m) |->
               RemOp(Append(at, KeyTok(SetToSeq2(DOMAIN a.m \ DOMAIN b.m)[j])))]
  ELSE IF OnlyDropped(a.e, b.e)
  THEN LET at0 == Dropped(a.e, b.e, 1).at n == Len(at0)
       IN [j \in 1..n |-> RemOp(Append(at, IdxTok(at0[n + 1 - j] - 1)))]
  ELSE Flat([j \in 1..Len(b.e) |->
               IF j <= Len(a.e) THEN RefDiff(a.e[j], b.e[j], Append(at, IdxTok(j - 1)), withTs)
               ELSE <<SetOp("add", Append(at, IdxTok(j - 1)), b.e[j])>>])
       \o [j \in 1..(IF Len(a.e) > Len(b.e) THEN Len(a.e) - Len(b.e) ELSE 0) |->
               RemOp(Append(at, IdxTok(Len(a.e) - j)))]

RECURSIVE ApplyToks(_, _)
ApplyToks(d, ops) == IF ops = <<>> THEN Ok(d)
                     ELSE LET r == ApplyTok(d, ops[1].path, ops[1])
                          IN IF r.ok THEN ApplyToks(TLCEval(r.d), Tail(ops)) ELSE Fail

\* every operation changes the document it is applied to (by value, or at all)
RECURSIVE EachMatters(_, _, _, _, _)
EachMatters(T, d, ops, i, withTs) ==
  IF i > Len(ops) THEN TRUE
  ELSE LET r == TLCEval(Apply(T, d, ops[i]))
       IN /\ r.ok
          /\ r.ok => /\ ~(IF withTs THEN r.d = d ELSE ValEq(r.d, d))
                     /\ EachMatters(T, r.d, ops, i + 1, withTs)

(***************************************************************************)
(* Part 3: relations.  T maps path texts to tokens; ops as observed.       *)
(***************************************************************************)
ChkDiff(T, a, b, out, ops) ==
  IF out = "error" THEN If(~Expressible(a, b), {"C15"})
  ELSE IF out # "ok" THEN {"C15"}
  ELSE LET r == ApplyAll(T, a, ops)
       IN If(r.ok /\ Turned(a, b, r.d, FALSE), {"C15"})
          \cup If(\A i \in 1..Len(ops) : ~NeedlessVal(a, b, T[ops[i].path]), {"C15"})
          \cup If(ValEq(a, b) => ops = <<>>, {"C15"})
          \cup If(EachMatters(T, a, ops, 1, FALSE), {"C15"})

ChkDiffTs(T, a, b, out, ops) ==
  IF out = "error" THEN If(~Expressible(a, b), {"C16"})
  ELSE IF out # "ok" THEN {"C16"}
  ELSE LET r == ApplyAll(T, a, ops)
       IN If(r.ok /\ r.d = b, {"C16"})
          \cup If(\A i \in 1..Len(ops) : ~NeedlessTs(a, b, T[ops[i].path]), {"C16"})
          \cup If(a = b => ops = <<>>, {"C16"})
          \cup If(EachMatters(T, a, ops, 1, TRUE), {"C16"})

\* one operation: the named location and nothing else
ChkApply1(T, d, op, out, res) ==
  LET r == Apply(T, d, op)
  IN IF r.ok THEN If(out = "ok", {"C13"} \cup If(out # "panic", {"C14"})) \cup If(out = "ok" => res = r.d, {"C13"})
     ELSE If(out = "error", {"C14"})

ChkApply(T, d, ops, out, res) ==
  LET r == ApplyAll(T, d, ops)
  IN IF r.ok THEN If(out = "ok" /\ (out = "ok" => res = r.d), {"C14"} \cup If(Len(ops) # 1, {"C13"}))
     ELSE If(out = "error", {"C14"})
=============================================================================

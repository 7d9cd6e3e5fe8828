------------------------------ MODULE MCPatch ------------------------------
(***************************************************************************)
(* Exhaustive model of patch application and patch generation over a       *)
(* universe of small documents: a document, then an operation on it or a   *)
(* second document to turn it into.  Checks the design (theorems below)    *)
(* and, with Gen = TRUE, prints every case as a script for the             *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Diff, Json

CONSTANTS Size,     \* "flat": one level, "deep": one container within another, "wide": more of both
          What,     \* "apply" or "diff"
          Gen

VARIABLES ph, a, b, op
vars == <<ph, a, b, op>>

Leaves == {Leaf("N", "1", 0), Leaf("N", "1", 1), Leaf("N", "2", 1), Leaf("S", "1", 0)}
Keys == {"a", "b"}
Atoms == IF Size = "flat" THEN Leaves \cup {Nul} ELSE {Leaf("N", "1", 0), Leaf("N", "2", 1)}

Objs(S) == UNION {{Obj(m) : m \in [K -> S]} : K \in SUBSET Keys}
Arrs(S, n) == UNION {{Arr(e) : e \in [1..k -> S]} : k \in 0..n}
Level1 == Atoms \cup Objs(Atoms) \cup Arrs(Atoms, 2)
Inner == {Leaf("N", "1", 0), Leaf("N", "2", 1), Nul} \cup Objs({Leaf("N", "1", 0), Leaf("N", "2", 1)}) \cup Arrs({Leaf("N", "1", 0), Leaf("N", "2", 1)}, 2)
Level2 == {Obj(m) : m \in [{"a"} -> Inner]} \cup {Arr(<<x, y>>) : x \in Inner, y \in {Leaf("N", "1", 0), Obj(<<>>)}}
          \cup {Obj([a |-> x, b |-> Leaf("N", "1", 0)]) : x \in Inner} \cup {Arr(<<x>>) : x \in Inner}
Inner2 == Inner \cup {Leaf("N", "1", 1)} \cup {Obj([a |-> x]) : x \in {Obj([b |-> Leaf("N", "1", 0)]), Arr(<<Leaf("N", "1", 0)>>), Arr(<<>>)}}
                \cup {Arr(<<x>>) : x \in {Obj([b |-> Leaf("N", "1", 0)]), Arr(<<Leaf("N", "2", 1)>>)}} \cup Arrs({Leaf("N", "1", 0), Leaf("N", "2", 1), Nul}, 3)
Level3 == {Obj(m) : m \in UNION {[K -> Inner2] : K \in {{"a"}}}} \cup {Arr(<<x, y>>) : x \in Inner2, y \in {Leaf("N", "1", 0), Nul, Obj(<<>>)}}
          \cup {Obj([a |-> x, b |-> y]) : x \in Inner2, y \in {Leaf("N", "1", 0), Arr(<<Leaf("N", "1", 0)>>)}} \cup {Arr(<<x>>) : x \in Inner2}
Docs == CASE Size = "flat" -> Level1 [] Size = "deep" -> Level2 [] Size = "wide" -> Level3

Toks == {[s |-> "a", i |-> -1], [s |-> "b", i |-> -1], [s |-> "0", i |-> 0], [s |-> "1", i |-> 1], [s |-> "2", i |-> 2], [s |-> "-", i |-> -1]}
TkSeqs == {<<>>} \cup {<<x>> : x \in Toks} \cup {<<x, y>> : x \in Toks, y \in Toks}
Ops == {[op |-> o, tk |-> t, val |-> [k |-> "N", v |-> "3"], ts |-> 2] : o \in {"add", "replace"}, t \in TkSeqs}
       \cup {[op |-> "remove", tk |-> t, val |-> Nul, ts |-> 2] : t \in TkSeqs}
       \cup {[op |-> "test", tk |-> <<x>>, val |-> [k |-> "N", v |-> "1"], ts |-> 2] : x \in Toks}
       \cup {[op |-> "add", tk |-> <<x>>, val |-> Nul, ts |-> 2] : x \in Toks}

NoOp == [op |-> "none"]

Init == ph = 0 /\ a = Nul /\ b = Nul /\ op = NoOp
PickA == ph = 0 /\ ph' = 1 /\ a' \in Docs /\ UNCHANGED <<b, op>>
PickB == What = "diff" /\ ph = 1 /\ ph' = 2 /\ b' \in Docs /\ UNCHANGED <<a, op>>
         /\ (IF Gen THEN PrintT("CASE " \o ToJson([a |-> a, b |-> b'])) ELSE TRUE)
PickOp == What = "apply" /\ ph = 1 /\ ph' = 2 /\ op' \in Ops /\ UNCHANGED <<a, b>>
         /\ (IF Gen THEN PrintT("CASE " \o ToJson([a |-> a, op |-> op'])) ELSE TRUE)
Next == PickA \/ PickB \/ PickOp

(***************************************************************************)
(* What applying an operation means, said without following the path       *)
(* downwards: which locations there are and what is at them.               *)
(***************************************************************************)
RECURSIVE Locs(_)
Locs(d) == {<<>>} \cup
  (CASE d.k = "O" -> UNION {{<<KeyTok(x)>> \o t : t \in Locs(d.m[x])} : x \in DOMAIN d.m}
     [] d.k = "A" -> UNION {{<<IdxTok(j - 1)>> \o t : t \in Locs(d.e[j])} : j \in 1..Len(d.e)}
     [] OTHER -> {})

\* where location t of the old document is found in the new one
Moved(t, tk) ==
  LET n == Len(tk) parent == SubSeq(tk, 1, n - 1)
  IN IF op.op = "remove" /\ Get(a, parent).ok /\ Get(a, parent).d.k = "A"
        /\ Len(t) >= n /\ IsPrefixTok(parent, t) /\ t[n].i > tk[n].i
     THEN parent \o <<IdxTok(t[n].i - 1)>> \o SubSeq(t, n + 1, Len(t)) ELSE t

ApplyTheorem ==
  (ph = 2 /\ What = "apply") =>
  LET tk == op.tk
      o == [op |-> op.op, path |-> "", val |-> op.val, ts |-> op.ts]
      r == ApplyTok(a, tk, o)
  IN r.ok =>
     /\ IsSet(op) => Get(r.d, tk) = Ok(LeafOf(op))                \* the location holds the value
     /\ \A t \in Locs(a) :                                          \* the others keep theirs
          (~IsPrefixTok(tk, t) /\ ~IsPrefixTok(t, tk)) => Get(r.d, Moved(t, tk)) = Get(a, t)
     /\ \A t \in Locs(a) : (IsPrefixTok(t, tk) /\ Len(t) < Len(tk) /\ Get(a, t).d.k # "Z") => Get(r.d, t).d.k = Get(a, t).d.k
     /\ op.op = "remove" => Cardinality(Locs(r.d)) = Cardinality(Locs(a)) - Cardinality({t \in Locs(a) : IsPrefixTok(tk, t)})
     /\ IsSet(op) => \A t \in Locs(r.d) :                           \* what is new is the way there, or fills an array up
          \/ Get(a, t).ok \/ IsPrefixTok(t, tk) \/ Get(r.d, t).d.k = "Z"

\* refusals
RefusalTheorem ==
  (ph = 2 /\ What = "apply") =>
  LET o == [op |-> op.op, path |-> "", val |-> op.val, ts |-> op.ts] r == ApplyTok(a, op.tk, o)
  IN /\ (op.op = "test" \/ (IsSet(op) /\ op.val.k = "Z")) => ~r.ok
     /\ (\E n \in 0..Len(op.tk)-1 : Get(a, SubSeq(op.tk, 1, n)).ok /\ IsLeaf(Get(a, SubSeq(op.tk, 1, n)).d)) => ~r.ok
     /\ (\E n \in 0..Len(op.tk)-1 : Get(a, SubSeq(op.tk, 1, n)).ok /\ Get(a, SubSeq(op.tk, 1, n)).d.k = "A" /\ op.tk[n+1].i < 0) => ~r.ok

\* the reference generator keeps all promises where the change can be expressed
DiffTheorem ==
  (ph = 2 /\ What = "diff" /\ Expressible(a, b)) =>
  LET p == RefDiff(a, b, <<>>, FALSE) r == ApplyToks(a, p)
      q == RefDiff(a, b, <<>>, TRUE) s == ApplyToks(a, q)
  IN /\ r.ok /\ Turned(a, b, r.d, FALSE) /\ ValEq(r.d, b)
     /\ \A i \in 1..Len(p) : ~NeedlessVal(a, b, p[i].path)
     /\ ValEq(a, b) <=> p = <<>>
     /\ s.ok /\ s.d = b
     /\ \A i \in 1..Len(q) : ~NeedlessTs(a, b, q[i].path)
     /\ (a = b) <=> q = <<>>

\* applying is a function on values and Turned determines them
TurnedTheorem == (ph = 2 /\ What = "diff") => (Turned(a, b, b, FALSE) \/ ~ValEq(a, b) \/ a # b)
=============================================================================

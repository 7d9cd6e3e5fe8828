------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* Generated vehicle datasets.                                             *)
(*                                                                         *)
(* A schema maps the dotted name of every signal to                        *)
(*   [dt |-> data type, percent |-> BOOLEAN, allowed |-> sequence of text] *)
(* (allowed is empty if the signal does not restrict its values).          *)
(* A dataset of a car is a chain: a first document, then documents each    *)
(* with a patch from the one before.  The options say which share of the   *)
(* signals is there (size), and of those there which share changes or is   *)
(* only confirmed (change, maintain); a share is "zero", "one" or "mid".   *)
(***************************************************************************)
EXTENDS Diff

\* the leaves, nulls and arrays of a document are its signals
RECURSIVE Sigs(_, _)                 \* name -> node
Sigs(d, at) ==
  IF d.k = "O"
  THEN LET parts == {Sigs(d.m[x], IF at = "" THEN x ELSE at \o "." \o x) : x \in DOMAIN d.m}
       IN TLCEval([n \in UNION {DOMAIN p : p \in parts} |-> LET p == CHOOSE q \in parts : n \in DOMAIN q IN p[n]])
  ELSE [n \in {at} |-> d]

Integers8 == {"int8", "uint8"}
Floats == {"float", "double"}
Ints == {"int8", "int16", "int32", "uint8", "uint16", "uint32"}

\* numbers are shown as texts: whole numbers within the bounds of their type, percentages within 0 and 100
CharsOf(x) == [i \in 1..Len(x) |-> SubSeq(x, i, i)]
Whole(x, neg) ==
  LET cs == CharsOf(x)
      ds == IF cs # <<>> /\ cs[1] = "-" THEN Tail(cs) ELSE cs
  IN (neg \/ ds = cs) /\ ds # <<>> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
Within(x, lo, hi) ==
  LET neg == SubSeq(x, 1, 1) = "-"
      cs == CharsOf(IF neg THEN SubSeq(x, 2, Len(x)) ELSE x)
      n == DecVal(cs, 0)
  IN Whole(x, lo < 0) /\ Len(cs) <= 7 /\ (IF neg THEN -n >= lo ELSE n <= hi)
FitsInt(dt, x) ==
  CASE dt = "int8" -> Within(x, -128, 127)
    [] dt = "uint8" -> Within(x, 0, 255)
    [] dt = "int16" -> Within(x, -32768, 32767)
    [] dt = "uint16" -> Within(x, 0, 65535)
    [] dt = "int32" -> Whole(x, TRUE)
    [] dt = "uint32" -> Whole(x, FALSE)
    [] OTHER -> TRUE
Percentage(x) ==
  LET cs == CharsOf(x)
      stops == {i \in 1..Len(cs) : cs[i] \in {".", "e"}}
      end == IF stops = {} THEN Len(cs) ELSE (CHOOSE i \in stops : \A j \in stops : i <= j) - 1
      whole == SubSeq(cs, 1, end)
  IN /\ \A i \in 1..Len(whole) : IsDigit(whole[i])
     /\ \A i \in 1..(Len(cs) - 1) : ~(cs[i] = "e" /\ cs[i + 1] # "-")
     /\ Len(whole) <= 3 /\ DecVal(whole, 0) <= 100

\* the node of a signal has the declared type
Elems(node, kind) == node.k = "A" /\ Len(node.e) \in 1..5 /\ \A i \in 1..Len(node.e) : node.e[i].k = kind
Conforms(sig, node) ==
  CASE sig.dt = "boolean" -> node.k = "B"
    [] sig.dt \in Integers8 -> node.k = "N" /\ FitsInt(sig.dt, node.v)
    [] sig.dt = "float" /\ sig.percent -> node.k = "N" /\ Percentage(node.v)
    [] sig.allowed # <<>> -> node.k = "S" /\ node.v \in Range(sig.allowed)
    [] sig.dt \in Floats \cup Ints -> node.k = "N" /\ FitsInt(sig.dt, node.v)
    [] sig.dt = "string" -> node.k = "S"
    [] sig.dt = "float[]" -> Elems(node, "N")
    [] sig.dt = "uint8[]" -> Elems(node, "N") /\ \A i \in 1..Len(node.e) : FitsInt("uint8", node.e[i].v)
    [] sig.dt = "string[]" -> Elems(node, "S")
    [] OTHER -> node.k = "Z"           \* types the generator does not know

\* the first document
First(schema, size, d) ==
  LET s == Sigs(d, "")
      empty == d = Obj([x \in {} |-> Nul])
      names == IF empty THEN {} ELSE DOMAIN s
  IN /\ d.k = "O"
     /\ names \subseteq DOMAIN schema
     /\ (size = "one") => names = DOMAIN schema
     /\ (size = "zero") => empty
     /\ \A n \in names : Conforms(schema[n], s[n])

\* every leaf of a document has the same, sensible, time
RECURSIVE Times(_)
Times(d) == CASE IsLeaf(d) -> {d.t}
              [] d.k = "O" -> UNION {Times(d.m[x]) : x \in DOMAIN d.m}
              [] d.k = "A" -> UNION {Times(d.e[i]) : i \in 1..Len(d.e)}
              [] OTHER -> {}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

\* a document and its successor, leaf by leaf
RECURSIVE SameShape(_, _)
SameShape(a, b) ==
  /\ a.k = b.k
  /\ a.k = "O" => DOMAIN a.m = DOMAIN b.m /\ \A x \in DOMAIN a.m : SameShape(a.m[x], b.m[x])
  /\ a.k = "A" => Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : SameShape(a.e[i], b.e[i])

\* newest: the latest time of the document before
RECURSIVE Succ(_, _, _, _, _, _)
Succ(a, b, newest, change, maintain, scalar) ==
  IF IsLeaf(a)
  THEN \/ a = b
          /\ ~(scalar /\ (change = "one" \/ maintain = "one"))
       \/ /\ b.t >= newest /\ b.t > a.t
          /\ ~(scalar /\ change = "zero" /\ maintain = "zero")
          /\ (scalar /\ change = "zero") => b.v = a.v
          /\ (scalar /\ change = "one" /\ a.k = "B") => b.v # a.v
  ELSE IF a.k = "O" THEN \A x \in DOMAIN a.m : Succ(a.m[x], b.m[x], newest, change, maintain, TRUE)
  ELSE IF a.k = "A" THEN \A i \in 1..Len(a.e) : Succ(a.e[i], b.e[i], newest, change, maintain, FALSE)
  ELSE a = b

NextOk(a, b, change, maintain) ==
  SameShape(a, b) /\ Succ(a, b, MaxOf(Times(a)), change, maintain, TRUE)

(***************************************************************************)
(* Rates.  Each signal is there, each scalar leaf updated or changed, by   *)
(* chance and independently of the others, so the counts stay near the     *)
(* given percentage of the number of trials: |100 x - n p| <= 400 sqrt(n)  *)
(* fails with probability below 1e-13 (Hoeffding).                         *)
(***************************************************************************)
RECURSIVE Root(_, _)                      \* the least i with i * i >= n
Root(n, i) == IF i * i >= n THEN i ELSE Root(n, i + 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, n, p, slack) == Abs(100 * x - n * p) <= 400 * Root(n, 0) + slack
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* what happened to the scalar leaves: how many, how many with a new time, how many with a new value
NoTally == [n |-> 0, upd |-> 0, chg |-> 0, bools |-> 0, flips |-> 0]
Plus(x, y) == [f \in DOMAIN x |-> x[f] + y[f]]
RECURSIVE Tally(_, _)
RECURSIVE TallyAll(_, _, _)
TallyAll(a, b, names) ==
  IF names = {} THEN NoTally
  ELSE LET x == CHOOSE y \in names : TRUE IN Plus(Tally(a.m[x], b.m[x]), TallyAll(a, b, names \ {x}))
Tally(a, b) ==
  TLCEval(
  IF IsLeaf(a)
  THEN [n |-> 1, upd |-> IF b.t # a.t THEN 1 ELSE 0, chg |-> IF b.v # a.v THEN 1 ELSE 0,
        bools |-> IF a.k = "B" THEN 1 ELSE 0, flips |-> IF a.k = "B" /\ b.v # a.v THEN 1 ELSE 0]
  ELSE IF a.k = "O" THEN TallyAll(a, b, DOMAIN a.m)
  ELSE NoTally)

\* another random value may be the value that is there
ChkRates(t, change, maintain) ==
  If(Near(t.upd, t.n, Min2(100, change + maintain), 0) /\ Near(t.chg, t.n, change, t.n) /\ Near(t.flips, t.bools, change, 0), {"C22"})
ChkSize(present, declared, size) == If(Near(present, declared, Min2(100, Max2(0, size)), 0), {"C27"})

(***************************************************************************)
(* Relations for what was observed.                                        *)
(***************************************************************************)
ChkFirst(schema, size, out, doc, copy) ==
  IF out # "ok" THEN {"C22", "C27"}
  ELSE If(doc = copy, {"C22"}) \cup If(First(schema, size, doc), {"C27"})

ChkNext(T, prev, change, maintain, out, ops, doc) ==
  IF out # "ok" THEN {"C22"}
  ELSE LET r == ApplyAll(T, prev, ops)
       IN If(r.ok /\ r.d = doc, {"C22"})
          \cup If(NextOk(prev, doc, change, maintain), {"C22"})

\* the list of the leaves of a document, and the document built from it
ChkLeaves(doc, out, leaves, rebuilt, asmap) ==
  IF out # "ok" THEN {"C27"}
  ELSE LET empty == doc = Obj([x \in {} |-> Nul])
           s == Sigs(doc, "")
       IN If(IF empty THEN leaves = <<>>
             ELSE /\ Len(leaves) = Cardinality(DOMAIN s)
                  /\ {leaves[i].path : i \in 1..Len(leaves)} = DOMAIN s
                  /\ \A i \in 1..Len(leaves) : leaves[i].path \in DOMAIN s => leaves[i].node = s[leaves[i].path], {"C27"})
          \cup If(rebuilt = doc /\ asmap = doc, {"C27"})
(* The options of the generator, as the command line gives them: those given are taken, *)
(* the others have their default (values as text).                                   *)
Defaults == [dataset |-> "\"the usual one\"", change_rate |-> "0.2", size |-> "1"]

Options(given) == [o \in DOMAIN Defaults \cup DOMAIN given |-> IF o \in DOMAIN given THEN given[o] ELSE Defaults[o]]

ChkOptions(out, given, have) ==
  If(out = "ok" /\ DOMAIN have = DOMAIN Options(given)
     /\ \A o \in DOMAIN have : have[o] = Options(given)[o], {"C27"})
=============================================================================

------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Exhaustive models of TSON text.                                         *)
(* What = "texts": every sequence of lexemes that could still become TSON, *)
(*   and every such sequence with one lexeme too many; with Gen they are   *)
(*   printed, to be given to the implementation.                           *)
(* What = "docs": every small document, written in every documented way,   *)
(*   reads back as the document.                                           *)
(* What = "pairs": every pair of small documents, the second possibly with *)
(*   other timestamps: equality with and without timestamps, lookups.      *)
(* What = "patch": every patch of at most two small operations.            *)
(***************************************************************************)
EXTENDS Text, Json

CONSTANTS What, MaxLex, Gen

VARIABLES cs, n, d, b
vars == <<cs, n, d, b>>

Lexemes == { <<"{">>, <<"}">>, <<"[">>, <<"]">>, <<",">>, <<":">>, <<"\"", "a", "\"">>, <<"\"", "\"">>, <<"1">>,
             <<"t", "r", "u", "e">>, <<"n", "u", "l", "l">>, <<"<", "2", ">">>, <<"<", ">">> }
             \cup (IF MaxLex < 6 THEN {<<"<">>, <<" ">>, <<"\"">>, <<"-">>} ELSE {})

RECURSIVE Ones(_)
Ones(k) == IF k = 0 THEN "" ELSE "1" \o Ones(k - 1)
Nums == LET up == {Ones(k) : k \in 1..MaxLex} IN [x \in up \cup {"-" \o y : y \in up} |-> x]

\* text can follow that makes it TSON
Viable(s) == LET p == Parse(s, Nums) IN p.st # "bad" \/ p.i > Len(s)

Leaves == {Leaf("N", "1", <<1, 2>>), Leaf("N", "1", NoTs), Leaf("B", "true", <<1, 0>>), Leaf("S", "a", <<1, 2>>), Leaf("S", "", NoTs), Nul}
Few == {Leaf("N", "1", <<1, 2>>), Leaf("S", "a", NoTs), Nul}
Keys == {"a", "b"}
Objs(S) == UNION {{Obj(m) : m \in [K -> S]} : K \in SUBSET Keys}
Arrs(S, k) == UNION {{Arr(e) : e \in [1..j -> S]} : j \in 0..k}
Level1 == Leaves \cup Objs(Leaves) \cup Arrs(Leaves, 2)
Level2 == Level1 \cup Objs(Few \cup Objs(Few) \cup Arrs(Few, 1)) \cup Arrs(Few \cup Objs(Few) \cup Arrs(Few, 1), 2)

(***************************************************************************)
(* The writer: where a timestamp may be put is up to style.                *)
(***************************************************************************)
Chars(s) == CASE s = "" -> <<>> [] s = "a" -> <<"a">> [] s = "b" -> <<"b">> [] s = "1" -> <<"1">> [] s = "true" -> TrueW
Quoted(s) == <<"\"">> \o Chars(s) \o <<"\"">>
Prim(x) == IF x.k = "S" THEN Quoted(x.v) ELSE Chars(x.v)
RECURSIVE Names(_)
Names(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Names(S \ {x})
Sp(style) == IF style = "after" THEN <<" ">> ELSE <<>>

RECURSIVE WriteVal(_, _, _)
RECURSIVE WriteMembers(_, _, _)
RECURSIVE WriteElements(_, _)
WriteVal(x, style, bare) ==        \* bare: the timestamp is written elsewhere
  CASE IsLeaf(x) -> Prim(x) \o Sp(style) \o (IF bare \/ (style = "none" /\ IsNegTs(x.t)) THEN <<>> ELSE TsChars(x.t))
    [] x.k = "Z" -> NullW
    [] x.k = "O" -> <<"{">> \o WriteMembers(x.m, Names(DOMAIN x.m), style) \o <<"}">>
    [] x.k = "A" -> <<"[">> \o WriteElements(x.e, style) \o <<"]">>
WriteMembers(m, ks, style) ==
  IF ks = <<>> THEN <<>>
  ELSE LET x == m[ks[1]] IN
       Quoted(ks[1]) \o (IF IsLeaf(x) /\ style = "before" THEN TsChars(x.t) ELSE <<>>) \o Sp(style) \o <<":">> \o Sp(style)
       \o WriteVal(x, style, style = "before")
       \o (IF Len(ks) > 1 THEN <<",">> ELSE <<>>) \o WriteMembers(m, Tail(ks), style)
WriteElements(e, style) ==
  IF e = <<>> THEN <<>>
  ELSE (IF IsLeaf(e[1]) /\ style = "before" THEN TsChars(e[1].t) ELSE <<>>) \o WriteVal(e[1], style, style = "before")
       \o (IF Len(e) > 1 THEN <<",">> \o Sp(style) ELSE <<>>) \o WriteElements(Tail(e), style)
Write(x, style) == WriteVal(x, style, style = "before" /\ ~IsLeaf(x))

Show(x) == IF Gen THEN PrintT("CASE " \o ToJson(x)) ELSE TRUE

PairLeaves == {Leaf("N", "1", <<1, 2>>), Leaf("N", "1", NoTs), Leaf("S", "1", <<1, 2>>), Leaf("B", "true", <<1, 2>>), Leaf("N", "2", <<1, 3>>), Nul}
PairLess == {Leaf("N", "1", <<1, 2>>), Leaf("N", "1", <<1, 0>>), Leaf("S", "1", <<1, 2>>)}
PairDocs == PairLeaves \cup Objs(PairLess \cup {Obj([x \in {} |-> Nul]), Nul}) \cup Arrs(PairLess \cup {Arr(<<>>), Nul}, 2)
            \cup {Obj(("a" :> x)) : x \in Objs(PairLess)} \cup {Arr(<<x>>) : x \in Arrs(PairLess, 1)}

OpVals == {Nul, [k |-> "S", v |-> ""], [k |-> "S", v |-> "a"], [k |-> "N", v |-> "2.5"], [k |-> "B", v |-> "false"]}
OpTimes == {NoTs, <<1, 0>>, <<1, 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>, <<-1, 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>}
Ops == [op : {"add", "replace", "remove"}, path : {"", "/a/0"}, val : OpVals, ts : OpTimes]

Init == cs = <<>> /\ n = 0 /\ d = Nul /\ b = Nul
Extend == /\ What = "texts" /\ n < MaxLex /\ Viable(cs)
          /\ \E x \in Lexemes : cs' = cs \o x
          /\ n' = n + 1 /\ UNCHANGED <<d, b>>
          /\ Show(cs')
Pick == /\ What = "docs" /\ n = 0 /\ n' = 1 /\ d' \in Level2 /\ UNCHANGED <<cs, b>> /\ Show(d')
PickA == /\ What = "pairs" /\ n = 0 /\ n' = 1 /\ d' \in PairDocs /\ UNCHANGED <<cs, b>>
PickB == /\ What = "pairs" /\ n = 1 /\ n' = 2 /\ b' \in PairDocs /\ UNCHANGED <<cs, d>> /\ Show([a |-> d, b |-> b'])
AddOp == /\ What = "patch" /\ n < 2 /\ n' = n + 1 /\ \E o \in Ops : (n = 1 => o.path = "") /\ cs' = Append(cs, o)
         /\ UNCHANGED <<d, b>> /\ Show(cs')
Next == Extend \/ Pick \/ PickA \/ PickB \/ AddOp

\* the text of a document denotes it
RoundTrip == (What = "docs" /\ n = 1) =>
  \A style \in {"before", "after", "none"} :
     LET p == Parse(Write(d, style), Nums) IN p.st = "ok" /\ p.d = Written(d)
\* a document cannot go on after it is complete, and no proper beginning of its text is one, unless a timestamp is all that follows
Complete == (What = "docs" /\ n = 1) =>
  LET s == Write(d, "before") IN
  /\ Parse(s \o <<"1">>, Nums).st = "bad" \/ (IsLeaf(d) /\ d.k = "N")
  /\ Parse(s \o <<"]">>, Nums).st = "bad"
  /\ ~IsLeaf(d) => \A k \in 0..(Len(s) - 1) : Parse(SubSeq(s, 1, k), Nums).st = "bad"
  /\ ~IsLeaf(d) => \A k \in 0..(Len(s) - 1) : Viable(SubSeq(s, 1, k))
\* what is not viable stays wrong however it goes on
Hopeless == (What = "texts" /\ ~Viable(cs)) => \A x \in Lexemes : Parse(cs \o x, Nums).st = "bad"

\* conversions: what is lost is timestamps, and once lost they stay lost
Conversions == (What = "docs" /\ n = 1) =>
  /\ ValEq(Plain(d), d) /\ ValEq(Written(d), d) /\ Plain(Plain(d)) = Plain(d) /\ Written(Written(d)) = Written(d)
  /\ JsonOf(Plain(d)) = JsonOf(d)
  /\ LeafTimes(Plain(d)) \subseteq {NoTs}
\* the two equalities, lookups and latest times of a pair of documents
Equalities == (What = "pairs" /\ n = 2) =>
  /\ (d = b) => ValEq(d, b)
  /\ ValEq(d, b) <=> JsonOf(d) = JsonOf(b)
  /\ ValEq(d, b) <=> Plain(d) = Plain(b)
  /\ (ValEq(d, b) /\ LeafTimes(d) = LeafTimes(b) /\ Cardinality(LeafTimes(d)) <= 1) => d = b
  /\ ~TsLess(LatestTs(Obj(("a" :> d) @@ ("b" :> b))), LatestTs(Obj(("a" :> d))))
\* a patch is read back once and for all
ReadOnce == (What = "patch") => ReadBack(ReadBack(cs)) = ReadBack(cs) /\ Len(ReadBack(cs)) = Len(cs)
=============================================================================

-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* TSON text.  The documented grammar                                      *)
(*   tson ::= value                                                        *)
(*   object ::= "{" pairs? "}"     pairs ::= pair | pair "," pairs         *)
(*   pair   ::= string ts? ":" value                                       *)
(*   array  ::= "[" elements? "]"  elements ::= element | element "," elements *)
(*   element ::= ts? value                                                 *)
(*   value  ::= primitive ts? | object | array | "null"                    *)
(*   ts ::= "<" digits? ">"                                                *)
(* as a recursive-descent parser on sequences of characters, a reference   *)
(* writer, and the JSON forms of documents.                                *)
(*                                                                         *)
(* A character is itself, or a backslash name like \u000a (control         *)
(* characters, the backslash, everything beyond ASCII) or \xff (a byte     *)
(* that is no UTF-8).  A timestamp is a sequence: sign (1 or -1), digits.  *)
(*                                                                         *)
(* Results are [st, i, d, u]: st is "ok" (d the value, i the next          *)
(* position) or "bad" (not TSON; i is where it went wrong, Len + 1 if text *)
(* is missing); u says that the grammar does not settle what came so far   *)
(* (whether it is TSON, or what it denotes), only what follows.            *)
(***************************************************************************)
EXTENDS Doc

NoTs == <<-1, 1>>                \* the default timestamp, -1
NoMembers == [x \in {} |-> Nul]

If(c, tags) == IF c THEN {} ELSE tags

Ascii == <<   \* codes 32 to 126
  " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\u005c", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

BSL == "\\u005c"
Spaces == {" ", "\\u0009", "\\u000a", "\\u000d"}
Controls == {"\\u000" \o h : h \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}}
            \cup {"\\u001" \o h : h \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}}
            \cup {"\\u007f"}
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NumChars == DigitSet \cup {"+", "-", ".", "e", "E"}

At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE "EOF"

POk(i, d)  == [st |-> "ok", i |-> i, d |-> d, own |-> FALSE, u |-> FALSE]
PBad(i)    == [st |-> "bad", i |-> i, d |-> Nul, own |-> FALSE, u |-> FALSE]
Mark(r, u) == IF u THEN [r EXCEPT !.u = TRUE] ELSE r

RECURSIVE Skip(_, _)
Skip(cs, i) == IF At(cs, i) \in Spaces THEN Skip(cs, i + 1) ELSE i

(***************************************************************************)
(* Strings.                                                                *)
(***************************************************************************)
HexVal(c) ==
  IF c \in DigitSet THEN DigitVal(c)
  ELSE CASE c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
         [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15 [] OTHER -> -1
HexLow == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>

\* name of the character \uXXXX with hex digits h
CodeName(h) ==
  LET code == ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4] IN
  IF code >= 32 /\ code <= 126 /\ code # 92 THEN Ascii[code - 31]
  ELSE "\\u" \o HexLow[h[1] + 1] \o HexLow[h[2] + 1] \o HexLow[h[3] + 1] \o HexLow[h[4] + 1]

RECURSIVE StrFrom(_, _, _, _)         \* after the opening quote
StrFrom(cs, i, acc, u) ==
  LET c == At(cs, i) IN
  IF c = "EOF" THEN PBad(i)
  ELSE IF c = "\"" THEN Mark(POk(i + 1, acc), u)
  ELSE IF c \in Controls THEN StrFrom(cs, i + 1, acc, TRUE)
  ELSE IF c # BSL THEN StrFrom(cs, i + 1, acc \o c, u)
  ELSE LET e == At(cs, i + 1) IN
       CASE e = "EOF" -> PBad(i + 1)
         [] e = "\"" -> StrFrom(cs, i + 2, acc \o "\"", u)
         [] e = BSL -> StrFrom(cs, i + 2, acc \o BSL, u)
         [] e = "/" -> StrFrom(cs, i + 2, acc \o "/", u)
         [] e = "b" -> StrFrom(cs, i + 2, acc \o "\\u0008", u)
         [] e = "f" -> StrFrom(cs, i + 2, acc \o "\\u000c", u)
         [] e = "n" -> StrFrom(cs, i + 2, acc \o "\\u000a", u)
         [] e = "r" -> StrFrom(cs, i + 2, acc \o "\\u000d", u)
         [] e = "t" -> StrFrom(cs, i + 2, acc \o "\\u0009", u)
         [] e = "u" ->
              LET h == [j \in 1..4 |-> HexVal(At(cs, i + 1 + j))]
                  wrong == {j \in 1..4 : h[j] < 0}
              IN IF wrong # {} THEN PBad(i + 1 + (CHOOSE j \in wrong : \A k \in wrong : j <= k))
                 ELSE IF h[1] = 13 /\ h[2] >= 8 THEN StrFrom(cs, i + 6, acc, TRUE)       \* halves of surrogate pairs
                 ELSE StrFrom(cs, i + 6, acc \o CodeName(h), u)
         [] e \in {"'", "a", "v", "x", "U"} -> StrFrom(cs, i + 2, acc, TRUE)  \* no JSON
         [] OTHER -> PBad(i + 1)

(***************************************************************************)
(* Numbers.  nums maps the number texts that occur to their values.        *)
(***************************************************************************)
RECURSIVE NumEnd(_, _)
NumEnd(cs, i) == IF At(cs, i) \in NumChars THEN NumEnd(cs, i + 1) ELSE i
RECURSIVE DigEnd(_, _, _)
DigEnd(cs, i, j) == IF i < j /\ cs[i] \in DigitSet THEN DigEnd(cs, i + 1, j) ELSE i

\* "json": a JSON number; "near": a number in other notations (01, 1.); "no"
NumClass(cs, i, j) ==
  LET s == IF cs[i] = "-" THEN i + 1 ELSE i
      a == DigEnd(cs, s, j)
      dot == a < j /\ cs[a] = "."
      b == IF dot THEN DigEnd(cs, a + 1, j) ELSE a
      exp == b < j /\ cs[b] \in {"e", "E"}
      e1 == IF exp /\ b + 1 < j /\ cs[b + 1] \in {"+", "-"} THEN b + 2 ELSE b + 1
      c == IF exp THEN DigEnd(cs, e1, j) ELSE b
      expOk == exp => c > e1
  IN IF c # j \/ ~expOk THEN "no"
     ELSE IF a > s /\ (cs[s] # "0" \/ a = s + 1) /\ (dot => b > a + 1) THEN "json"
     ELSE IF a > s \/ (dot /\ b > a + 1) THEN "near" ELSE "no"

ParseNum(cs, i, nums) ==
  LET j == NumEnd(cs, i)
      lex == Join(SubSeq(cs, i, j - 1))
      class == NumClass(cs, i, j)
  IN IF class = "no" THEN PBad(j)
     ELSE IF class = "near" \/ nums[lex] = "range" THEN Mark(POk(j, Leaf("N", "0", NoTs)), TRUE)
     ELSE POk(j, Leaf("N", nums[lex], NoTs))

(***************************************************************************)
(* Timestamps.                                                             *)
(***************************************************************************)
MaxTs == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>

RECURSIVE DigitsLess(_, _)         \* of the same length
DigitsLess(x, y) == IF x = <<>> THEN FALSE
                    ELSE x[1] < y[1] \/ (x[1] = y[1] /\ DigitsLess(Tail(x), Tail(y)))
MagLess(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ DigitsLess(x, y))
TsLess(x, y) ==
  IF x[1] # y[1] THEN x[1] < y[1]
  ELSE IF x[1] > 0 THEN MagLess(Tail(x), Tail(y)) ELSE MagLess(Tail(y), Tail(x))
IsNegTs(x) == x[1] < 0

ParseTs(cs, i) ==                  \* at the "<"; white space within is not settled
  LET i1 == Skip(cs, i + 1)
      j == DigEnd(cs, i1, Len(cs) + 1)
      ds == [k \in 1..(j - i1) |-> DigitVal(cs[i1 + k - 1])]
      k2 == Skip(cs, j)
      spaced == i1 # i + 1 \/ k2 # j
  IN IF At(cs, k2) # ">" THEN PBad(k2)
     ELSE IF ds = <<>> THEN Mark(POk(k2 + 1, NoTs), spaced)
     ELSE IF Len(ds) > 1 /\ ds[1] = 0 THEN Mark(POk(k2 + 1, NoTs), TRUE)
     ELSE IF MagLess(MaxTs, ds) THEN PBad(i)
     ELSE Mark(POk(k2 + 1, <<1>> \o ds), spaced)

(***************************************************************************)
(* Values.                                                                 *)
(***************************************************************************)
IsWord(cs, i, w) == i + Len(w) - 1 <= Len(cs) /\ \A k \in 1..Len(w) : cs[i + k - 1] = w[k]
\* where a word that is not there goes wrong
WordEnd(cs, i, w) == LET wrong == {k \in 1..Len(w) : At(cs, i + k - 1) # w[k]}
                     IN i + (CHOOSE k \in wrong : \A n \in wrong : k <= n) - 1
TrueW == <<"t", "r", "u", "e">>
FalseW == <<"f", "a", "l", "s", "e">>
NullW == <<"n", "u", "l", "l">>

\* a primitive and the timestamp that may follow it
Suffix(cs, r) ==
  IF r.st # "ok" THEN r
  ELSE LET i == Skip(cs, r.i) IN
       IF At(cs, i) # "<" THEN r
       ELSE LET t == ParseTs(cs, i) IN
            IF t.st # "ok" THEN t
            ELSE [st |-> "ok", i |-> t.i, d |-> [r.d EXCEPT !.t = t.d], own |-> TRUE, u |-> r.u \/ t.u]

RECURSIVE ParseVal(_, _, _)
RECURSIVE Members(_, _, _, _, _)
RECURSIVE Elements(_, _, _, _, _)

ParseVal(cs, i0, nums) ==
  LET i == Skip(cs, i0) c == At(cs, i) IN
  CASE c = "<" -> LET t == ParseTs(cs, i) IN
                  IF t.st # "ok" THEN t ELSE Mark(ParseVal(cs, t.i, nums), TRUE)
    [] c = "{" -> LET j == Skip(cs, i + 1) IN
                  IF At(cs, j) = "}" THEN POk(j + 1, Obj(NoMembers)) ELSE Members(cs, j, nums, NoMembers, FALSE)
    [] c = "[" -> LET j == Skip(cs, i + 1) IN
                  IF At(cs, j) = "]" THEN POk(j + 1, Arr(<<>>)) ELSE Elements(cs, j, nums, <<>>, FALSE)
    [] c = "\"" -> LET s == StrFrom(cs, i + 1, "", FALSE) IN
                   Suffix(cs, IF s.st = "ok" THEN Mark(POk(s.i, Leaf("S", s.d, NoTs)), s.u) ELSE s)
    [] c \in DigitSet \cup {"-"} -> Suffix(cs, ParseNum(cs, i, nums))
    [] c = "t" -> IF IsWord(cs, i, TrueW) THEN Suffix(cs, POk(i + 4, Leaf("B", "true", NoTs))) ELSE PBad(WordEnd(cs, i, TrueW))
    [] c = "f" -> IF IsWord(cs, i, FalseW) THEN Suffix(cs, POk(i + 5, Leaf("B", "false", NoTs))) ELSE PBad(WordEnd(cs, i, FalseW))
    [] c = "n" -> IF IsWord(cs, i, NullW) THEN POk(i + 4, Nul) ELSE PBad(WordEnd(cs, i, NullW))
    [] OTHER -> PBad(i)

Members(cs, i0, nums, m, u) ==
  LET i == Skip(cs, i0) IN
  IF At(cs, i) # "\"" THEN PBad(i)
  ELSE LET k == StrFrom(cs, i + 1, "", FALSE) IN
  IF k.st # "ok" THEN k
  ELSE LET a == Skip(cs, k.i)
           hasTs == At(cs, a) = "<"
           t == IF hasTs THEN ParseTs(cs, a) ELSE POk(a, NoTs)
       IN
  IF t.st # "ok" THEN t
  ELSE LET b == Skip(cs, t.i) IN
  IF At(cs, b) # ":" THEN PBad(b)
  ELSE LET v == ParseVal(cs, b + 1, nums) IN
  IF v.st # "ok" THEN v
  ELSE LET d == IF hasTs /\ IsLeaf(v.d) THEN [v.d EXCEPT !.t = t.d] ELSE v.d
           e == Skip(cs, v.i)
           m2 == TLCEval([x \in DOMAIN m \cup {k.d} |-> IF x = k.d THEN d ELSE m[x]])
           u2 == u \/ k.u \/ t.u \/ v.u \/ k.d \in DOMAIN m      \* the same key twice
                 \/ (hasTs /\ v.own)                               \* two timestamps
       IN CASE At(cs, e) = "," -> Members(cs, e + 1, nums, m2, u2)
            [] At(cs, e) = "}" -> Mark(POk(e + 1, Obj(m2)), u2)
            [] OTHER -> PBad(e)

Elements(cs, i0, nums, es, u) ==
  LET i == Skip(cs, i0)
      hasTs == At(cs, i) = "<"
      t == IF hasTs THEN ParseTs(cs, i) ELSE POk(i, NoTs)
  IN
  IF t.st # "ok" THEN t
  ELSE LET v == ParseVal(cs, t.i, nums) IN
  IF v.st # "ok" THEN v
  ELSE LET d == IF hasTs /\ IsLeaf(v.d) THEN [v.d EXCEPT !.t = t.d] ELSE v.d
           e == Skip(cs, v.i)
           es2 == Append(es, TLCEval(d))
           u2 == u \/ t.u \/ v.u \/ (hasTs /\ (v.own \/ ~IsLeaf(v.d)))
       IN CASE At(cs, e) = "," -> Elements(cs, e + 1, nums, es2, u2)
            [] At(cs, e) = "]" -> Mark(POk(e + 1, Arr(es2)), u2)
            [] OTHER -> PBad(e)

\* "ok", "bad", or "any": the grammar does not settle it
Parse(cs, nums) ==
  LET v == ParseVal(cs, 1, nums) IN
  IF v.st # "ok" THEN v
  ELSE LET e == Skip(cs, v.i) IN
       IF e # Len(cs) + 1 THEN PBad(e) ELSE IF v.u THEN [v EXCEPT !.st = "any"] ELSE v

(***************************************************************************)
(* What writing and reading, and conversions, make of a document.          *)
(***************************************************************************)
RECURSIVE MapTs(_, _)              \* how: "written" or "plain"
MapTs(d, how) ==
  CASE IsLeaf(d) -> IF how = "plain" \/ IsNegTs(d.t) THEN [d EXCEPT !.t = NoTs] ELSE d
    [] d.k = "O" -> Obj([x \in DOMAIN d.m |-> MapTs(d.m[x], how)])
    [] d.k = "A" -> Arr([x \in 1..Len(d.e) |-> MapTs(d.e[x], how)])
    [] OTHER -> d
Written(d) == MapTs(d, "written")  \* read back from TSON text
Plain(d)   == MapTs(d, "plain")    \* read back from plain JSON

\* the plain JSON of a document: like the document, without timestamps
RECURSIVE JsonOf(_)
JsonOf(d) ==
  CASE IsLeaf(d) -> [k |-> d.k, v |-> d.v]
    [] d.k = "O" -> Obj([x \in DOMAIN d.m |-> JsonOf(d.m[x])])
    [] d.k = "A" -> Arr([x \in 1..Len(d.e) |-> JsonOf(d.e[x])])
    [] OTHER -> d

RECURSIVE LeafTimes(_)
LeafTimes(d) ==
  CASE IsLeaf(d) -> {d.t}
    [] d.k = "O" -> UNION {LeafTimes(d.m[x]) : x \in DOMAIN d.m}
    [] d.k = "A" -> UNION {LeafTimes(d.e[x]) : x \in 1..Len(d.e)}
    [] OTHER -> {}
Zero == <<1, 0>>
LatestTs(d) ==
  IF IsLeaf(d) THEN d.t
  ELSE IF d.k = "Z" THEN NoTs
  ELSE LET s == LeafTimes(d) \cup {Zero} IN CHOOSE x \in s : \A y \in s : ~TsLess(x, y)

(***************************************************************************)
(* Reference writer (strings of plain characters only), for the model.     *)
(***************************************************************************)
DigitName(x) == Digits[x + 1]
TsChars(t) == IF IsNegTs(t) THEN <<"<", ">">> ELSE <<"<">> \o [k \in 1..(Len(t) - 1) |-> DigitName(t[k + 1])] \o <<">">>

(***************************************************************************)
(* The relations observed calls are held to.                               *)
(***************************************************************************)
ChkParse(cs, nums, out, res) ==
  IF out \notin {"ok", "error"} THEN {"C19"}
  ELSE LET p == Parse(cs, nums) IN
       CASE p.st = "ok" -> If(out = "ok" /\ (out = "ok" => res = p.d), {"C19"})
         [] p.st = "bad" -> If(out = "error", {"C19"})
         [] OTHER -> {}

\* text written for doc, and what was read back from it
ChkRound(doc, cs, nums, out, res) ==
  If(out = "ok" /\ (out = "ok" => res = Written(doc)), {"C18"})
  \cup (IF out # "ok" THEN {} ELSE
        LET p == Parse(cs, nums) IN
        CASE p.st = "ok" -> If(p.d = Written(doc), {"C18"})
          [] p.st = "bad" -> {"C18"}
          [] OTHER -> {})

NormVal(val) == IF val.k = "I" THEN [val EXCEPT !.k = "N"] ELSE val
ReadBack(ops) == [i \in 1..Len(ops) |-> [ops[i] EXCEPT !.val = NormVal(ops[i].val)]]
ChkPatchText(ops, out, res) == If(out = "ok" /\ (out = "ok" => res = ReadBack(ops)), {"C17"})

ChkStamped(doc, out, res) == If(out = "ok" /\ (out = "ok" => res = doc), {"C20"})
ChkPlain(doc, out, json, res) ==
  If(out = "ok" /\ (out = "ok" => res = Plain(doc) /\ json = JsonOf(doc)), {"C20"})

ChkList(doc, out, json) ==         \* the values of an array of leaves
  IF doc.k = "A" /\ \A i \in 1..Len(doc.e) : IsLeaf(doc.e[i])
  THEN If(out = "ok" /\ (out = "ok" => json = JsonOf(doc)), {"C20"})
  ELSE If(out = "error", {"C20"})

ChkGet(doc, tks, out, res) ==
  LET g == Get(doc, tks) IN
  IF g.ok THEN If(out = "ok" /\ (out = "ok" => res = g.d), {"C21"}) ELSE If(out = "error", {"C21"})
ChkEq(x, y, out, eq, eqv) ==
  If(out = "ok" /\ (out = "ok" => (eq <=> x = y) /\ (eqv <=> ValEq(x, y))), {"C21"})
ChkLatest(doc, out, t) == If(out = "ok" /\ (out = "ok" => t = LatestTs(doc)), {"C21"})
=============================================================================

-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* TSON documents and patch operations.                                    *)
(*                                                                         *)
(* A document (node) is one of                                             *)
(*   [k |-> "S"|"N"|"B", v |-> STRING, t |-> timestamp]   a leaf           *)
(*       (string, number, boolean; numbers and booleans are held as their  *)
(*        canonical text, so that equality is all we ever need)            *)
(*   [k |-> "O", m |-> function from STRING to nodes]     an object        *)
(*   [k |-> "A", e |-> sequence of nodes]                 an array         *)
(*   [k |-> "Z"]                                          null             *)
(*                                                                         *)
(* An operation is [op, path, val, ts]; val is one of                      *)
(*   [k |-> "S"|"N"|"I"|"B", v |-> STRING]   ("I": a Go int)               *)
(*   [k |-> "Z"]           no value                                        *)
(*   [k |-> "L", n |-> node]  a TSON node used as a value                  *)
(*   [k |-> "X", ...]      any other value (containers and the like)       *)
(*                                                                         *)
(* Path texts are turned into tokens by Tokens(chars); the operators that  *)
(* apply operations take a table T with T[path] the token sequence.        *)
(* A token is [s |-> text, i |-> array index or -1].                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nul    == [k |-> "Z"]
Obj(m) == [k |-> "O", m |-> TLCEval(m)]     \* TLCEval: no nested lazy functions
Arr(e) == [k |-> "A", e |-> TLCEval(e)]
Leaf(k, v, t) == [k |-> k, v |-> v, t |-> t]

LeafKinds == {"S", "N", "B"}
IsLeaf(d) == d.k \in LeafKinds

Range(f) == {f[x] : x \in DOMAIN f}

(***************************************************************************)
(* Path texts.                                                             *)
(***************************************************************************)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

RECURSIVE Join(_)          \* sequence of characters to a string
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))

RECURSIVE DecVal(_, _)     \* digits to a number
DecVal(cs, acc) == IF cs = <<>> THEN acc
                   ELSE DecVal(Tail(cs), acc * 10 + DigitVal(Head(cs)))

\* array index of a token (long numbers are no index we would ever generate)
IndexOf(cs) == IF cs # <<>> /\ Len(cs) <= 6 /\ \A i \in 1..Len(cs) : IsDigit(cs[i])
               THEN DecVal(cs, 0) ELSE -1

\* RFC 6901: ~1 is a slash and ~0 a tilde; a decoded character is not decoded again
RECURSIVE Decode(_)
Decode(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE IF Len(cs) >= 2 /\ cs[1] = "~" /\ cs[2] \in {"0", "1"}
       THEN <<IF cs[2] = "0" THEN "~" ELSE "/">> \o Decode(SubSeq(cs, 3, Len(cs)))
       ELSE <<cs[1]>> \o Decode(Tail(cs))

RECURSIVE SplitAt(_, _, _) \* split at any separator of seps
SplitAt(cs, seps, cur) ==
  IF cs = <<>> THEN <<cur>>
  ELSE IF Head(cs) \in seps THEN <<cur>> \o SplitAt(Tail(cs), seps, <<>>)
       ELSE SplitAt(Tail(cs), seps, Append(cur, Head(cs)))

Token(cs) == LET d == Decode(cs) IN [s |-> Join(d), i |-> IndexOf(d)]

\* "" is the whole document; "/..." is a JSON pointer; other text is dotted
Tokens(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET parts == IF cs[1] = "/" THEN SplitAt(Tail(cs), {"/"}, <<>>)
                    ELSE SplitAt(cs, {".", "/"}, <<>>)
       IN [j \in 1..Len(parts) |-> Token(parts[j])]

IsPrefixTok(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j].s = b[j].s

(***************************************************************************)
(* Reading.                                                                *)
(***************************************************************************)
RECURSIVE Get(_, _)        \* [ok, d]: the node at the tokens
Get(d, tk) ==
  IF tk = <<>> THEN [ok |-> TRUE, d |-> d]
  ELSE IF d.k = "O" /\ tk[1].s \in DOMAIN d.m THEN Get(d.m[tk[1].s], Tail(tk))
  ELSE IF d.k = "A" /\ tk[1].i >= 0 /\ tk[1].i < Len(d.e) THEN Get(d.e[tk[1].i + 1], Tail(tk))
  ELSE [ok |-> FALSE, d |-> Nul]

(***************************************************************************)
(* Comparing.                                                              *)
(***************************************************************************)
RECURSIVE ValEq(_, _)      \* equality without timestamps
ValEq(a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE IF a.k \in LeafKinds THEN a.v = b.v
  ELSE IF a.k = "O" THEN /\ DOMAIN a.m = DOMAIN b.m
                         /\ \A x \in DOMAIN a.m : ValEq(a.m[x], b.m[x])
  ELSE IF a.k = "A" THEN /\ Len(a.e) = Len(b.e)
                         /\ \A x \in 1..Len(a.e) : ValEq(a.e[x], b.e[x])
  ELSE a = b

(***************************************************************************)
(* Applying operations.                                                    *)
(***************************************************************************)
Fail   == [ok |-> FALSE, d |-> Nul]
Ok(d)  == [ok |-> TRUE, d |-> d]

IsSet(op)    == op.op \in {"add", "replace"}
IsRemove(op) == op.op = "remove"
ValKind(val) == IF val.k = "I" THEN "N" ELSE val.k
HasLeaf(op)  == op.val.k \in {"S", "N", "I", "B"}
LeafOf(op)   == Leaf(ValKind(op.val), op.val.v, op.ts)

SetKey(m, key, d) == [x \in DOMAIN m \cup {key} |-> IF x = key THEN d ELSE m[x]]
DelKey(m, key)    == [x \in DOMAIN m \ {key} |-> m[x]]
GrowTo(e, n)      == TLCEval([j \in 1..(IF Len(e) > n THEN Len(e) ELSE n) |->
                        IF j <= Len(e) THEN e[j] ELSE Nul])
DelIdx(e, j)      == SubSeq(e, 1, j - 1) \o SubSeq(e, j + 1, Len(e))

RECURSIVE Update(_, _, _)
Update(d, tk, op) ==
  LET last == Len(tk) = 1 IN
  IF d.k = "O" THEN
    LET key == tk[1].s
        has == key \in DOMAIN d.m
        child == IF has THEN d.m[key] ELSE Nul
    IN IF last
       THEN IF IsSet(op) THEN Ok(Obj(SetKey(d.m, key, LeafOf(op))))
            ELSE Ok(Obj(DelKey(d.m, key)))
       ELSE LET start == IF child.k # "Z" THEN child
                         ELSE IF tk[2].i >= 0 THEN Arr(<<>>) ELSE Obj(<<>>)
                r == IF child.k = "Z" /\ ~IsSet(op) THEN Fail
                     ELSE Update(start, Tail(tk), op)
            IN IF r.ok THEN Ok(Obj(SetKey(d.m, key, r.d))) ELSE Fail
  ELSE IF d.k = "A" THEN
    LET j == tk[1].i + 1 IN
    IF j = 0 THEN Fail
    ELSE IF j > Len(d.e) /\ ~IsSet(op) THEN Fail
    ELSE IF last
         THEN IF IsSet(op) THEN Ok(Arr([GrowTo(d.e, j) EXCEPT ![j] = LeafOf(op)]))
              ELSE Ok(Arr(DelIdx(d.e, j)))
         ELSE LET e == GrowTo(d.e, j)
                  r == Update(e[j], Tail(tk), op)
              IN IF r.ok THEN Ok(Arr([e EXCEPT ![j] = r.d])) ELSE Fail
  ELSE Fail                \* leaves and null have no members

ApplyTok(d, tk, op) ==
  IF ~IsSet(op) /\ ~IsRemove(op) THEN Fail
  ELSE IF IsSet(op) /\ ~HasLeaf(op) THEN Fail
  ELSE IF tk = <<>> THEN IF IsSet(op) THEN Ok(LeafOf(op)) ELSE Fail
  ELSE Update(d, tk, op)

Apply(T, d, op) == ApplyTok(d, T[op.path], op)

RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(T, d, ops, i) ==
  IF i > Len(ops) THEN Ok(d)
  ELSE LET r == Apply(T, d, ops[i]) IN IF r.ok THEN ApplyFrom(T, TLCEval(r.d), ops, i + 1) ELSE Fail

ApplyAll(T, d, ops) == ApplyFrom(T, d, ops, 1)

\* Two operation values write the same leaf value
SameVal(a, b) == ValKind(a) = ValKind(b) /\ (ValKind(a) \in LeafKinds => a.v = b.v)
                                          /\ (ValKind(a) \notin LeafKinds => a = b)
=============================================================================

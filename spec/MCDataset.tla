----------------------------- MODULE MCDataset -----------------------------
(***************************************************************************)
(* Exhaustive models of generated datasets.                                *)
(* What = "chain": every chain of at most MaxFiles small documents that    *)
(*   the generator may write, with the patches between them.               *)
(* What = "cases": every schema of at most two signals with every setting  *)
(*   of the shares; printed, to be given to the generator.                 *)
(***************************************************************************)
EXTENDS Dataset, Json

CONSTANTS What, MaxFiles

VARIABLES ph, files, patches, opt
vars == <<ph, files, patches, opt>>

Shares == {"zero", "mid", "one"}
Opts == {o \in [size : Shares, change : Shares, maintain : Shares \cup {"absent"}] : o.change = "one" => o.maintain # "one"}
Share(x) == IF x = "absent" THEN "zero" ELSE x

(***************************************************************************)
(* Chains.                                                                 *)
(***************************************************************************)
Schema == ("A.B" :> [dt |-> "boolean", percent |-> FALSE, allowed |-> <<>>])
          @@ ("A.C.N" :> [dt |-> "uint8", percent |-> FALSE, allowed |-> <<>>])
          @@ ("L" :> [dt |-> "float[]", percent |-> FALSE, allowed |-> <<>>])
Nodes(dt, T) == CASE dt = "boolean" -> {Leaf("B", v, T) : v \in {"true", "false"}}
                  [] dt = "uint8" -> {Leaf("N", v, T) : v \in {"1", "2"}}
                  [] dt = "float[]" -> {Arr([i \in 1..n |-> Leaf("N", "1", T)]) : n \in 1..2}

\* the document of a choice of signals
Build(sig) ==
  LET has(n) == n \in DOMAIN sig
      ac == IF has("A.C.N") THEN ("C" :> Obj(("N" :> sig["A.C.N"]))) ELSE [x \in {} |-> Nul]
      ab == IF has("A.B") THEN ("B" :> sig["A.B"]) ELSE [x \in {} |-> Nul]
      l == IF has("L") THEN ("L" :> sig["L"]) ELSE [x \in {} |-> Nul]
      a == IF has("A.B") \/ has("A.C.N") THEN ("A" :> Obj(ab @@ ac)) ELSE [x \in {} |-> Nul]
  IN Obj(a @@ l)

Subsets(size) == CASE size = "one" -> {DOMAIN Schema} [] size = "zero" -> {{}} [] OTHER -> SUBSET DOMAIN Schema
RECURSIVE Choices(_, _)
Choices(names, T) ==
  IF names = {} THEN {[x \in {} |-> Nul]}
  ELSE LET n == CHOOSE x \in names : TRUE
       IN {(n :> v) @@ r : v \in Nodes(Schema[n].dt, T), r \in Choices(names \ {n}, T)}

\* what may become of a signal
Successors(dt, v, T, o) ==
  IF dt = "float[]" THEN {Arr([i \in 1..Len(v.e) |-> [v.e[i] EXCEPT !.t = T]])}
  ELSE (IF "one" \notin {o.change, o.maintain} THEN {v} ELSE {})
       \cup (IF o.change # "zero" THEN {w \in Nodes(dt, T) : dt = "boolean" => w.v # v.v} ELSE {})
       \cup (IF o.change # "one" /\ o.maintain \in {"mid", "one"} THEN {[v EXCEPT !.t = T]} ELSE {})

SigsOf(d) == IF d = Obj([x \in {} |-> Nul]) THEN [x \in {} |-> Nul] ELSE Sigs(d, "")
RECURSIVE NextSigs(_, _, _, _)
NextSigs(s, names, T, o) ==
  IF names = {} THEN {[x \in {} |-> Nul]}
  ELSE LET n == CHOOSE x \in names : TRUE
       IN {(n :> v) @@ r : v \in Successors(Schema[n].dt, s[n], T, o), r \in NextSigs(s, names \ {n}, T, o)}

Start == /\ What = "chain" /\ ph = 0 /\ ph' = 1
         /\ opt' \in Opts
         /\ \E names \in Subsets(opt'.size) : \E s \in Choices(names, 1) : files' = <<Build(s)>>
         /\ patches' = <<<<>>>>
Step == /\ What = "chain" /\ ph = 1 /\ Len(files) < MaxFiles
        /\ LET prev == files[Len(files)] s == SigsOf(prev) IN
           \E t \in NextSigs(s, DOMAIN s, Len(files) + 1, opt) :
              /\ files' = Append(files, Build(t))
              /\ patches' = Append(patches, RefDiff(prev, Build(t), <<>>, TRUE))
        /\ UNCHANGED <<ph, opt>>

(***************************************************************************)
(* Cases.                                                                  *)
(***************************************************************************)
Types == {"boolean", "int8", "int16", "int32", "uint8", "uint16", "uint32", "float", "double", "string", "string[]", "float[]", "uint8[]",
          "percent", "allowed", "allowed[]", "int64", "string[2]"}
Case == /\ What = "cases" /\ ph = 0 /\ ph' = 1
        /\ \E n \in 1..2 : \E ty \in [1..n -> Types] : \E o \in Opts :
             /\ (n = 2 => o.size = "one" /\ o.maintain # "absent")
             /\ PrintT("CASE " \o ToJson([types |-> ty, opt |-> o]))
        /\ UNCHANGED <<files, patches, opt>>

Init == ph = 0 /\ files = <<>> /\ patches = <<>> /\ opt = [size |-> "one"]
Next == Start \/ Step \/ Case

(***************************************************************************)
(* What holds of every chain.                                              *)
(***************************************************************************)
Chained == ph = 1 /\ What = "chain"
FirstConforms == (Chained /\ files # <<>>) => First(Schema, opt.size, files[1])
StepsConform == Chained => \A k \in 2..Len(files) : NextOk(files[k - 1], files[k], Share(opt.change), Share(opt.maintain))
PatchesLead == Chained => \A k \in 2..Len(files) : ApplyToks(files[k - 1], patches[k]) = Ok(files[k])
\* what the web demo shows: all patches up to k on the first document
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
ViewIsFile == Chained => \A k \in 1..Len(files) : ApplyToks(files[1], Concat(SubSeq(patches, 1, k))) = Ok(files[k])
SameSignals == Chained => \A k \in 1..Len(files) : DOMAIN SigsOf(files[k]) = DOMAIN SigsOf(files[1])
TimesGrow == Chained => \A k \in 2..Len(files) : MaxOf(Times(files[k])) >= MaxOf(Times(files[k - 1]))
Quiet == (Chained /\ opt.change = "zero" /\ opt.maintain \in {"zero", "absent"}) =>
           \A k \in 2..Len(files) : \A i \in 1..Len(patches[k]) : patches[k][i].path[1].s = "L"
=============================================================================

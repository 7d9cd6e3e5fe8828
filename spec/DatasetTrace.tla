--------------------------- MODULE DatasetTrace ---------------------------
(***************************************************************************)
(* Trace validation for generated datasets and the web demo that serves    *)
(* them.  A trace has the schema, the options, and one event per file read *)
(* back or request made:                                                   *)
(*   first, next   the files of a car, in order (C22, C27)                 *)
(*   rates         the rates the documents were made with (C22, C27)       *)
(*   leaves        the leaf list of a generated document (C27)             *)
(*   meta          the recorded options (C27)                              *)
(*   args          the options read from a command line (C27)              *)
(*   view, raw     responses of the web demo (C23)                         *)
(*   stored        whether the requests left the files alone (C23)         *)
(***************************************************************************)
EXTENDS Dataset, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

\* files: car -> sequence of the documents read so far
\* tally: what happened to the scalar leaves; there: signals of the first documents
VARIABLES sid, l, files, tk, tally, there
vars == <<sid, l, files, tk, tally, there>>

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ files = [c \in {} |-> <<>>]
        /\ tally = NoTally /\ there = <<0, 0>>
        /\ tk = [p \in DOMAIN Traces[sid].paths |-> Tokens(Traces[sid].paths[p])]

Check(ev) ==
  LET o == Traces[sid].opts IN
  CASE ev.out = "dead" -> CASE ev.c \in {"view", "raw"} -> {"C23"} [] ev.c \in {"leaves", "args"} -> {"C27"} [] OTHER -> {"C22", "C27"}
    [] ev.c = "first" -> ChkFirst(Traces[sid].schema, o.size, ev.out, ev.res, ev.copy)
    [] ev.c = "next" -> IF files[ev.car] = <<>> THEN {"C22"}
                        ELSE ChkNext(tk, files[ev.car][Len(files[ev.car])], o.change, o.maintain, ev.out, ev.p, ev.res)
    [] ev.c = "count" -> If(ev.want = ev.have, {"C22"})
    [] ev.c = "leaves" -> ChkLeaves(ev.doc, ev.out, ev.leaves, ev.rebuilt, ev.asmap)
    [] ev.c = "rates" -> ChkRates(tally, ev.change, ev.maintain) \cup ChkSize(there[1], there[2], ev.size)
    [] ev.c = "meta" -> If(ev.out = "ok" /\ ev.want = ev.have, {"C27"})
    [] ev.c = "args" -> ChkOptions(ev.out, ev.given, ev.have)
    [] ev.c = "view" -> If(ev.out = "ok" /\ ev.k \in 1..Len(files[ev.car]) /\ (ev.out = "ok" => ev.res = files[ev.car][ev.k]), {"C23"})
    [] ev.c = "raw" -> If(ev.out = "ok" /\ ev.want = ev.have, {"C23"})
    [] ev.c = "stored" -> If(ev.want = ev.have, {"C23"})
    [] OTHER -> {"BAD-EVENT"}

Grow(ev) ==
  IF ev.out = "dead" THEN files
  ELSE IF ev.c = "first" THEN [c \in DOMAIN files \cup {ev.car} |-> IF c = ev.car THEN (IF ev.out = "ok" THEN <<ev.res>> ELSE <<>>) ELSE files[c]]
  ELSE IF ev.c = "next" /\ ev.out = "ok" THEN [files EXCEPT ![ev.car] = Append(@, ev.res)]
  ELSE files

Count(ev) ==
  IF ev.c = "next" /\ ev.out = "ok" /\ files[ev.car] # <<>> /\ SameShape(files[ev.car][Len(files[ev.car])], ev.res)
  THEN Plus(tally, Tally(files[ev.car][Len(files[ev.car])], ev.res)) ELSE tally
There(ev) ==
  IF ev.c = "first" /\ ev.out = "ok" /\ ev.res.k = "O"
  THEN <<there[1] + (IF DOMAIN ev.res.m = {} THEN 0 ELSE Cardinality(DOMAIN Sigs(ev.res, ""))), there[2] + Cardinality(DOMAIN Traces[sid].schema)>> ELSE there

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ files' = TLCEval(Grow(ev))
     /\ tally' = TLCEval(Count(ev))
     /\ there' = There(ev)
     /\ UNCHANGED <<sid, tk>>

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

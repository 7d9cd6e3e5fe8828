----------------------------- MODULE PatchTrace -----------------------------
(***************************************************************************)
(* Trace validation for patches: a growing list of documents, to which     *)
(* operations and patches are applied and between which patches are        *)
(* generated.  Documents, operations and patches once made never change    *)
(* (drift lists those that did).                                           *)
(***************************************************************************)
EXTENDS Diff, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, docs, tk
vars == <<sid, l, docs, tk>>

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ docs = <<>>
        /\ tk = [p \in DOMAIN Traces[sid].paths |-> Tokens(Traces[sid].paths[p])]

Check(ev) ==
  CASE ev.out = "dead" -> CASE ev.c \in {"apply1", "apply"} -> {"C14"} [] ev.c = "diff" -> {"C15"} [] OTHER -> {"C16"}
    [] ev.c = "doc" -> {}
    [] ev.c = "apply1" -> ChkApply1(tk, docs[ev.i], ev.o, ev.out, ev.res)
    [] ev.c = "apply" -> ChkApply(tk, docs[ev.i], ev.p, ev.out, ev.res)
    [] ev.c = "diff" -> ChkDiff(tk, docs[ev.i], docs[ev.j], ev.out, ev.p)
    [] ev.c = "difft" -> ChkDiffTs(tk, docs[ev.i], docs[ev.j], ev.out, ev.p)
    [] OTHER -> {"BAD-EVENT"}

Drift(ev) ==
  IF ev.out = "dead" \/ ev.drift = <<>> THEN {}
  ELSE CASE ev.c = "diff" -> {"C14", "C15"} [] ev.c = "difft" -> {"C14", "C16"} [] OTHER -> {"C14"}

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev) \cup Drift(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ docs' = IF ev.out = "ok" /\ "res" \in DOMAIN ev THEN Append(docs, ev.res) ELSE docs
     /\ UNCHANGED <<sid, tk>>

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

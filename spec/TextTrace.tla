----------------------------- MODULE TextTrace -----------------------------
(***************************************************************************)
(* Trace validation for TSON text, JSON conversions, patch texts and       *)
(* lookups: every event is one call on the real code, with its arguments   *)
(* and result; drift lists arguments that are not as before.               *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l
vars == <<sid, l>>

Init == sid \in 1..Len(Traces) /\ l = 1

Tag(c) ==
  CASE c = "parse" -> {"C19"} [] c = "round" -> {"C18"} [] c = "ptext" -> {"C17"}
    [] c \in {"stamped", "plain", "list"} -> {"C20"} [] c \in {"get", "eq", "latest"} -> {"C21"} [] OTHER -> {"BAD-EVENT"}

Check(ev) ==
  IF ev.out = "dead" THEN Tag(ev.c)
  ELSE (CASE ev.c = "parse" -> ChkParse(ev.cs, ev.nums, ev.out, ev.res)
          [] ev.c = "round" -> ChkRound(ev.doc, ev.cs, ev.nums, ev.out, ev.res)
          [] ev.c = "ptext" -> ChkPatchText(ev.p, ev.out, ev.res)
          [] ev.c = "stamped" -> ChkStamped(ev.doc, ev.out, ev.res)
          [] ev.c = "plain" -> ChkPlain(ev.doc, ev.out, ev.json, ev.res)
          [] ev.c = "list" -> ChkList(ev.doc, ev.out, ev.json)
          [] ev.c = "get" -> ChkGet(ev.doc, Tokens(Traces[sid].paths[ev.path]), ev.out, ev.res)
          [] ev.c = "eq" -> ChkEq(ev.a, ev.b, ev.out, ev.eq, ev.eqv)
          [] ev.c = "latest" -> ChkLatest(ev.doc, ev.out, ev.t)
          [] OTHER -> {"BAD-EVENT"})
       \cup If(ev.drift = <<>>, Tag(ev.c))

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ UNCHANGED sid

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

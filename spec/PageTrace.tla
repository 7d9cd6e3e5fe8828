----------------------------- MODULE PageTrace -----------------------------
(***************************************************************************)
(* Trace validation for the page of the web demo (C31, C32): one event per *)
(* user action or answer of the server, with what the page shows then.     *)
(***************************************************************************)
EXTENDS Page, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, s
vars == <<sid, l, s>>

Dead(t) == "dead" \in DOMAIN Traces[t]
Cars(t) == {Traces[t].cars[i] : i \in 1..Len(Traces[t].cars)}
Patches(t) == {Traces[t].patches[i] : i \in 1..Len(Traces[t].patches)}

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ s = IF Dead(sid) THEN Blank("1", "2") ELSE Blank("1", "2")

Check(ev) ==
  IF ev.out # "ok" THEN {"C31", "C32"}
  ELSE If(Display(s, ev, ev.o), {"C31"}) \cup If(Snapshots(s, ev, ev.o, Cars(sid), Patches(sid)), {"C32"})

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ s' = IF ev.out = "ok" THEN After(s, ev, ev.o) ELSE s
     /\ UNCHANGED sid

Next == Step
=============================================================================

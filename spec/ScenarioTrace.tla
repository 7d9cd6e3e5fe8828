--------------------------- MODULE ScenarioTrace ---------------------------
(***************************************************************************)
(* Trace validation for the scenario switch (C24): one event per step.     *)
(*   told    what the step returned                                        *)
(*   cur, prev   the scenario the vehicle is in, and the one before        *)
(*   fits    the scenarios whose change patterns the signals have          *)
(*   same    the signals are as they were before the step                  *)
(*   slope   the direction of the battery                                  *)
(***************************************************************************)
EXTENDS Scenario, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, s
vars == <<sid, l, s>>

If(c, tags) == IF c THEN {} ELSE tags
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

Init == /\ sid \in 1..Len(Traces)
        /\ l = 1
        /\ s = IF "dead" \in DOMAIN Traces[sid] THEN Start(Urban, 0) ELSE Start(Traces[sid].init.scn, Traces[sid].init.level)

Check(ev) ==
  IF ev.out # "ok" THEN {"C24"}
  ELSE LET n == After(s, ev.r, ev.t)
           sw == Switches(s, ev.r, ev.t)
       IN If(ev.cur = n.cur, {"C24"})
          \cup If(ev.prev = n.prev, {"C24"})
          \cup If(ev.told = sw, {"C24"})
          \cup If(ev.level = n.level, {"C24"})
          \cup (IF ev.full THEN If(IF sw THEN Has(ev.fits, n.cur) ELSE ev.same, {"C24"})
                                \cup If(sw => ev.slope = (IF n.cur = Charging THEN "up" ELSE "down"), {"C24"})
                ELSE {})

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ s' = IF ev.out = "ok" THEN After(s, ev.r, ev.t) ELSE s
     /\ UNCHANGED sid

Next == Step
=============================================================================

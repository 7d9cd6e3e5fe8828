---------------------------- MODULE VehicleTrace ----------------------------
(***************************************************************************)
(* Trace validation for vehicles which enter scenarios (C30).  Events:     *)
(*   init    a new vehicle in a scenario                                   *)
(*   shake   the values have changed in the meantime                       *)
(*   step    a step of the scenario switch, from a scenario to another     *)
(* Each has the whole vehicle; apart: another vehicle and the definitions  *)
(* are as they were.                                                       *)
(***************************************************************************)
EXTENDS Vehicle, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, l, veh
vars == <<sid, l, veh>>

If(c, tags) == IF c THEN {} ELSE tags
Set(s) == {s[i] : i \in 1..Len(s)}
Paths(list) == {list[i].p : i \in 1..Len(list)}
At(list, p) == CHOOSE e \in Set(list) : e.p = p
Norm(e) == [cat |-> e.cat, type |-> e.type, interval |-> e.interval, pat |-> e.pat, params |-> Set(e.params), v |-> e.v]
Veh(list) == [p \in Paths(list) |-> Norm(At(list, p))]
Table(list) == [p \in Paths(list) |-> LET e == At(list, p) IN
                  [cat |-> e.cat, type |-> e.type, interval |-> e.interval, def |-> e.def, min |-> e.min, max |-> e.max, pats |-> Set(e.pats)]]
None == [p \in {} |-> 0]

Init == sid \in 1..Len(Traces) /\ l = 1 /\ veh = None

Check(ev) ==
  IF ev.out # "ok" THEN {"C30"}
  ELSE LET T == TLCEval(Table(Traces[sid].table))
           n == TLCEval(Veh(ev.veh))
       IN If(ev.apart, {"C30"})
          \cup (IF ev.c = "init"
                THEN If(DOMAIN n = DOMAIN T /\ Len(ev.veh) = Cardinality(DOMAIN T), {"C30"})
                     \cup If(\A p \in DOMAIN T : Sound(T[p]), {"C30"})
                     \cup If(\A p \in DOMAIN n \cap DOMAIN T : MayEnter(p, ev.scn, T[p], Blank(T[p]), n[p], TRUE), {"C30"})
                ELSE IF ev.c = "step" /\ ev.from # ev.to
                THEN If(DOMAIN n = DOMAIN veh /\ Len(ev.veh) = Cardinality(DOMAIN veh), {"C30"})
                     \cup If(\A p \in DOMAIN n \cap DOMAIN veh \cap DOMAIN T : MayEnter(p, ev.to, T[p], veh[p], n[p], FALSE), {"C30"})
                ELSE {})

Step ==
  LET ev == Traces[sid].ev[l]
      tags == Check(ev)
  IN /\ l <= Len(Traces[sid].ev)
     /\ IF tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([sid |-> Traces[sid].sid, ev |-> l, tags |-> tags]))
     /\ l' = l + 1
     /\ veh' = IF ev.out = "ok" THEN TLCEval(Veh(ev.veh)) ELSE veh
     /\ UNCHANGED sid

Next == Step
=============================================================================

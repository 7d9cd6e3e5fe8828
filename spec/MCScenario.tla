---------------------------- MODULE MCScenario ----------------------------
(***************************************************************************)
(* Exhaustive model of the scenario switch: every sequence of at most      *)
(* MaxSteps readings around the thresholds at times around the cooldown.   *)
(* The properties are stated over the whole history, independently of the  *)
(* state that Scenario keeps.                                              *)
(***************************************************************************)
EXTENDS Scenario, Json, SequencesExt

CONSTANTS MaxSteps, Gen, Scns

Readings == {NoReading, 100000, 100001, 999499, 999500}
Steps == {1, 30000, 59999, 60000}
Inits == {[scn |-> c, level |-> l] : c \in Scns, l \in {500000}}

VARIABLES init, s, t, hist
vars == <<init, s, t, hist>>

Init == /\ init \in Inits
        /\ s = Start(init.scn, init.level)
        /\ t = 0
        /\ hist = <<>>

Next == \E r \in Readings, d \in Steps :
          /\ Len(hist) < MaxSteps
          /\ t' = t + d
          /\ s' = After(s, r, t')
          /\ hist' = Append(hist, [r |-> r, t |-> t', was |-> s.cur, now |-> s'.cur, sw |-> Switches(s, r, t')])
          /\ UNCHANGED init

\* the level that the k-th step works with
RECURSIVE Known(_)
Known(k) == IF k = 0 THEN init.level ELSE IF hist[k].r # NoReading THEN hist[k].r ELSE Known(k - 1)
RECURSIVE LastSwitch(_)
LastSwitch(k) == IF k = 0 THEN 0 ELSE IF hist[k].sw THEN hist[k].t ELSE LastSwitch(k - 1)
\* what the vehicle did before it began to charge
RECURSIVE Left(_)
Left(k) == IF k = 0 THEN init.scn ELSE IF hist[k].sw /\ hist[k].now = Charging THEN hist[k].was ELSE Left(k - 1)

Told == \A k \in 1..Len(hist) : hist[k].sw = (hist[k].was # hist[k].now)
Apart == \A k \in 1..Len(hist) : hist[k].sw => hist[k].t - LastSwitch(k - 1) >= 60000
Reason == \A k \in 1..Len(hist) : hist[k].sw =>
            \/ hist[k].was = Urban /\ hist[k].now = Charging /\ Known(k) <= 100000
            \/ hist[k].was = Charging /\ hist[k].now = Left(k - 1) /\ Known(k) >= 999500
\* the first step that may switch and has reason to does
Prompt == \A k \in 1..Len(hist) :
            hist[k].t - LastSwitch(k - 1) >= 60000 =>
              /\ hist[k].was = Urban /\ Known(k) <= 100000 => hist[k].sw
              /\ hist[k].was = Charging /\ Known(k) >= 999500 /\ Left(k - 1) # Charging => hist[k].sw
Chained == \A k \in 2..Len(hist) : hist[k].was = hist[k - 1].now

Script == IF Gen /\ Len(hist') = MaxSteps
          THEN PrintT("CASE " \o ToJson([init |-> init, steps |-> [k \in 1..Len(hist') |-> [r |-> hist'[k].r, t |-> hist'[k].t]]]))
          ELSE TRUE
=============================================================================

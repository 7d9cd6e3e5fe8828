----------------------------- MODULE Scenario -----------------------------
(***************************************************************************)
(* The mixed scenario: a vehicle drives in urban traffic until its battery *)
(* is low, charges until it is full, and goes back to what it did before.  *)
(* Battery levels are in ten-thousandths of a percent, times in ms.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Urban == "urban_traffic"
Highway == "highway_cruising"
Charging == "battery_charging"
Scenarios == {Urban, Highway, Charging}

Low == 100000        \* 10 percent
Full == 999500       \* 99.95 percent
Cooldown == 60000

NoReading == -1

Start(scn, level) == [cur |-> scn, prev |-> scn, level |-> level, last |-> 0]

Level(s, reading) == IF reading = NoReading THEN s.level ELSE reading

\* where the vehicle goes at time t, given the battery's level
Wanted(s, level) ==
  CASE s.cur = Urban /\ level <= Low -> Charging
    [] s.cur = Charging /\ level >= Full -> s.prev
    [] OTHER -> s.cur

Switches(s, reading, t) == t - s.last >= Cooldown /\ Wanted(s, Level(s, reading)) # s.cur

After(s, reading, t) ==
  LET n == Level(s, reading)
      w == Wanted(s, n)
  IN IF Switches(s, reading, t)
     THEN [cur |-> w, prev |-> IF s.cur = Urban THEN s.cur ELSE s.prev, level |-> n, last |-> t]
     ELSE [s EXCEPT !.level = n]
=============================================================================

------------------------------ MODULE Vehicle ------------------------------
(***************************************************************************)
(* How a scenario sets a vehicle up.  A definition table maps each signal  *)
(* to [type, cat, interval, def, min, max, pats]; a vehicle maps it to     *)
(* [cat, type, interval, pat, params, v].  Numbers are in thousandths;     *)
(* a value is [k, x, m] (kind, text of what is no number, number); pats    *)
(* and params are sets of pairs.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Urban == "urban_traffic"
Highway == "highway_cruising"
Charging == "battery_charging"
Mixed == "mixed_scenario"       \* begins like Urban

Speed == "Vehicle.Speed"
Accel == "Vehicle.Acceleration.Longitudinal"
Steering == "Vehicle.Chassis.SteeringWheel.Angle"
Brake == "Vehicle.Chassis.Brake.PedalPosition"
Pedal == "Vehicle.Chassis.Accelerator.PedalPosition"
Lat == "Vehicle.CurrentLocation.Latitude"
Lon == "Vehicle.CurrentLocation.Longitude"
Soc == "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"
Temp == "Vehicle.Powertrain.TractionBattery.Temperature"
IsCharging == "Vehicle.Powertrain.TractionBattery.Charging.IsCharging"
Rate == "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate"
TimeLeft == "Vehicle.Powertrain.TractionBattery.Charging.TimeRemaining"
Left == "Vehicle.Body.Lights.TurnSignal.Left.IsActive"
Right == "Vehicle.Body.Lights.TurnSignal.Right.IsActive"
\* signals of the battery, whose charge drains while driving
OfBattery == {Soc, Temp, IsCharging, Rate, TimeLeft}

InForce(s) == IF s = Mixed THEN Urban ELSE s

Lookup(pairs, x, none) == IF \E q \in pairs : q[1] = x THEN (CHOOSE q \in pairs : q[1] = x)[2] ELSE none
\* some parameters replaced
With(pairs, new) == {q \in pairs : \A n \in new : n[1] # q[1]} \cup new

(***************************************************************************)
(* Parameters: those of the pattern follow from the signal's limits; some  *)
(* signals have their own in a scenario.                                   *)
(***************************************************************************)
Slope(p, s) ==
  CASE p \in OfBattery /\ s = Urban -> -100
    [] p \in OfBattery /\ s = Highway -> -200
    [] p = Soc /\ s = Charging -> 100
    [] p = TimeLeft /\ s = Charging -> -500
    [] OTHER -> -40

OfPattern(p, s, d, pat, v) ==
  CASE pat = "random_walk" -> {<<"step_size", (d.max - d.min) \div 100>>, <<"min", d.min>>, <<"max", d.max>>}
    [] pat = "linear" -> {<<"slope", Slope(p, s)>>, <<"min", d.min>>, <<"max", d.max>>}
    [] pat = "sinusoidal" -> {<<"amplitude", (d.max - d.min) \div 10>>, <<"period", 5000000>>, <<"baseline", (d.max + d.min) \div 2>>}
    [] pat = "constant_with_noise" -> {<<"baseline", IF v.k = "n" THEN v.m ELSE d.def.m>>, <<"noise", (d.max - d.min) \div 100>>}
    [] pat = "toggle" -> {<<"toggle_probability", 50>>}
    [] OTHER -> {}

Own(p, s, pat) ==
  CASE s = Urban /\ pat = "random_walk" ->
         (CASE p = Speed -> {<<"step_size", 2000>>, <<"min", 0>>, <<"max", 70000>>}
            [] p \in {Lat, Lon} -> {<<"step_size", 1000>>}
            [] p = Accel -> {<<"step_size", 500>>, <<"min", -3000>>, <<"max", 2000>>}
            [] p = Brake -> {<<"step_size", 5000>>}
            [] p = Pedal -> {<<"step_size", 3000>>}
            [] OTHER -> {})
    [] s = Urban /\ pat = "sinusoidal" -> IF p = Steering THEN {<<"amplitude", 15000>>, <<"period", 10000000>>, <<"baseline", 0>>} ELSE {}
    [] s = Urban /\ pat = "toggle" -> IF p \in {Left, Right} THEN {<<"toggle_probability", 20>>} ELSE {}
    [] s = Highway /\ pat = "constant_with_noise" ->
         (CASE p = Speed -> {<<"baseline", 100000>>, <<"noise", 500>>}
            [] p = Steering -> {<<"baseline", 0>>, <<"noise", 200>>}
            [] p = Accel -> {<<"baseline", 0>>, <<"noise", 100>>}
            [] p = Pedal -> {<<"baseline", 25000>>, <<"noise", 500>>}
            [] OTHER -> {})
    [] s = Highway /\ pat = "linear" -> IF p \in {Lat, Lon} THEN {<<"slope", 100>>} ELSE {}
    [] s = Highway /\ pat = "toggle" -> IF p = Brake THEN {<<"toggle_probability", 10>>}
                                        ELSE IF p \in {Left, Right} THEN {<<"toggle_probability", 5>>} ELSE {}
    [] s = Charging /\ pat = "linear" ->
         (CASE p = Soc -> {<<"slope", 200>>} [] p = Temp -> {<<"slope", 1>>} [] p = TimeLeft -> {<<"slope", -50>>} [] OTHER -> {})
    [] s = Charging /\ pat = "sinusoidal" -> IF p = Rate THEN {<<"amplitude", 1000>>, <<"period", 15000000>>, <<"baseline", 11500>>} ELSE {}
    [] OTHER -> {}

(***************************************************************************)
(* Values.  Keep: as before; else the range (of thousandths) it is put in. *)
(***************************************************************************)
Keep == <<>>
Value(p, s, v, first) ==
  CASE s = Urban -> IF p = Speed THEN <<40000, 60000>> ELSE Keep
    [] s = Highway -> (CASE p = Speed -> <<90000, 110000>> [] p \in {Accel, Brake} -> <<0, 0>> [] p = Pedal -> <<25000, 25000>> [] OTHER -> Keep)
    [] s = Charging ->
         (CASE p \in {Speed, Steering, Accel, Brake, Pedal} -> <<0, 0>>
            [] p = Rate -> <<11000, 13000>>
            [] p = TimeLeft /\ (v.k # "n" \/ v.m <= 0) -> <<120000, 180000>>
            [] p = Soc /\ first -> <<20000, 40000>>
            [] OTHER -> Keep)
    [] OTHER -> Keep

True == [k |-> "b", x |-> "true", m |-> 0]

\* a signal as it is before any scenario is applied
Blank(d) == [cat |-> d.cat, type |-> d.type, interval |-> d.interval, pat |-> "constant", params |-> {}, v |-> d.def]

\* what entering s makes of the pattern and the parameters
Pattern(s, d, o) == Lookup(d.pats, InForce(s), o.pat)
Params(p, s, d, o) ==
  LET u == InForce(s) pat == Pattern(s, d, o)
  IN IF \E q \in d.pats : q[1] = u THEN With(OfPattern(p, u, d, pat, o.v), Own(p, u, pat)) ELSE With(o.params, Own(p, u, pat))
\* n is what o may be after entering s
MayEnter(p, s, d, o, n, first) ==
  LET u == InForce(s) r == Value(p, u, o.v, first)
  IN /\ n.cat = o.cat /\ n.type = o.type /\ n.interval = o.interval
     /\ n.pat = Pattern(s, d, o)
     /\ n.params = Params(p, s, d, o)
     /\ IF u = Charging /\ p = IsCharging THEN n.v = True
        ELSE IF r = Keep THEN n.v = o.v
        ELSE n.v.k = "n" /\ n.v.m >= r[1] /\ n.v.m <= r[2]

\* a definition that makes sense: the default is in range, and every pattern suits the kind of value
SoundPattern(d, pat) == pat \in {"random_walk", "linear", "sinusoidal", "constant_with_noise"} => d.def.k = "n"
Sound(d) == (d.def.k = "n" => d.min <= d.def.m /\ d.def.m <= d.max) /\ \A q \in d.pats : SoundPattern(d, q[2])
=============================================================================

----------------------------- MODULE MCVehicle -----------------------------
(***************************************************************************)
(* Model of vehicles with some of the signals, which enter scenarios in    *)
(* any order while their values move.  The properties say what a user of a *)
(* scenario relies on, without the rules that Vehicle is made of.          *)
(***************************************************************************)
EXTENDS Vehicle

CONSTANTS MaxMoves

Sig(cat, type, def, lo, hi, u, h, c) ==
  [cat |-> cat, type |-> type, interval |-> 100, def |-> def, min |-> lo, max |-> hi, pats |-> {<<Urban, u>>, <<Highway, h>>, <<Charging, c>>}]
N(m) == [k |-> "n", x |-> "", m |-> m]
B(x) == [k |-> "b", x |-> x, m |-> 0]
T == (Speed :> Sig("high", "number", N(0), 0, 220000, "random_walk", "constant_with_noise", "constant"))
  @@ (Brake :> Sig("act", "number", N(0), 0, 100000, "random_walk", "toggle", "constant"))
  @@ (Soc :> Sig("med", "number", N(80000), 0, 100000, "linear", "linear", "linear"))
  @@ (TimeLeft :> Sig("med", "number", N(120000), 0, 500000, "constant", "constant", "linear"))
  @@ (IsCharging :> Sig("med", "boolean", B("false"), 0, 0, "constant", "constant", "constant"))
  @@ (Temp :> Sig("med", "number", N(25000), -20000, 80000, "constant_with_noise", "constant_with_noise", "linear"))
Scns == {Urban, Highway, Charging}

VARIABLES veh, scn, moves, fresh, first
vars == <<veh, scn, moves, fresh, first>>

Vals(p, s, v, f) == IF s = Charging /\ p = IsCharging THEN {True}
                    ELSE LET r == Value(p, s, v, f) IN IF r = Keep THEN {v} ELSE {N(r[1]), N(r[2])}
Enter(s, old, f) ==
  {[p \in DOMAIN T |-> [cat |-> old[p].cat, type |-> old[p].type, interval |-> old[p].interval,
                        pat |-> Pattern(s, T[p], old[p]), params |-> Params(p, s, T[p], old[p]), v |-> w[p]]] :
     w \in {w \in [DOMAIN T -> UNION {Vals(p, s, old[p].v, f) : p \in DOMAIN T}] : \A p \in DOMAIN T : w[p] \in Vals(p, s, old[p].v, f)}}

Blanks == [p \in DOMAIN T |-> Blank(T[p])]

Init == /\ scn \in Scns \cup {Mixed}
        /\ veh \in Enter(IF scn = Mixed THEN Urban ELSE scn, Blanks, TRUE)
        /\ moves = 0 /\ fresh = TRUE /\ first = TRUE

Move == /\ moves < MaxMoves /\ fresh
        /\ \E p \in {Temp, TimeLeft, Soc} : \E m \in {T[p].min, T[p].max} : veh' = [veh EXCEPT ![p].v = N(m)]
        /\ moves' = moves + 1 /\ fresh' = FALSE /\ UNCHANGED <<scn, first>>
Switch == /\ moves < MaxMoves
          /\ \E s \in Scns \ {InForce(scn)} : scn' = s /\ veh' \in Enter(s, veh, FALSE)
          /\ moves' = moves + 1 /\ fresh' = TRUE /\ first' = FALSE
Next == Move \/ Switch

Par(p, x) == Lookup(veh[p].params, x, -1)

Entered == fresh => \A p \in DOMAIN T : first => MayEnter(p, scn, T[p], Blanks[p], veh[p], TRUE)
Still == fresh /\ scn = Charging => veh[Speed].v = N(0) /\ veh[Brake].v = N(0) /\ veh[IsCharging].v = True
Drains == IF scn = Charging THEN Par(Soc, "slope") > 0 /\ Par(TimeLeft, "slope") < 0 ELSE Par(Soc, "slope") < 0
Driving == fresh /\ scn # Charging => veh[Speed].v.m >= 40000 /\ (InForce(scn) = Highway <=> veh[Speed].v.m >= 90000)
InLimits == \A p \in DOMAIN T : /\ veh[p].v.k = "n" => veh[p].v.m >= T[p].min /\ veh[p].v.m <= T[p].max
                                /\ veh[p].pat \in {"random_walk", "linear"} => Par(p, "min") >= T[p].min /\ Par(p, "max") <= T[p].max
\* what a scenario sets does not depend on the scenarios before, but for the level a noisy signal stays at
Memoryless == \A p \in DOMAIN T :
  LET b == Params(p, scn, T[p], Blanks[p]) IN
  veh[p].pat = Pattern(scn, T[p], Blanks[p]) /\ {q \in veh[p].params : q[1] # "baseline"} = {q \in b : q[1] # "baseline"}
Shape == \A p \in DOMAIN T : veh[p].cat = T[p].cat /\ veh[p].type = T[p].type /\ veh[p].interval = T[p].interval /\ Sound(T[p])
=============================================================================

---------------------------- MODULE Experiment ----------------------------
(***************************************************************************)
(* The patch experiment: sensors are read on a grid of simulated time, each*)
(* at the multiples of its interval; what is read is recorded in a plain   *)
(* JSON document (two patches: the time always, the value if it changed)   *)
(* and in a timestamp-structured one (one patch, if the value changed).    *)
(*                                                                         *)
(* A value is [k, x, m, r]: kind, text, for numbers thousandths (rounded   *)
(* down) and the text with four digits.  A document maps sensors to [v, t]; t is text.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, tags) == IF c THEN {} ELSE tags
Abs(n) == IF n < 0 THEN -n ELSE n
Elems(s) == {s[i] : i \in 1..Len(s)}

\* a change of a number by less than 0.005 is none
Changed(old, new) == old.k # new.k \/ (IF old.k = "n" THEN old.x # new.x /\ Abs(old.m - new.m) >= 4 ELSE old.x # new.x)
Unchanged(old, new) == old.k = new.k /\ (IF old.k = "n" THEN Abs(old.m - new.m) <= 5 ELSE old.x = new.x)

Due(interval, t) == t % interval = 0

\* the state of a run
Begin(tson, json) == [tson |-> tson, json |-> json, n |-> 0, changes |-> 0]

\* ups: what was read at t, [p, ch, v]; v matters only where ch
After(st, t, ups) ==
  LET at(p) == CHOOSE u \in Elems(ups) : u.p = p
      read == {u.p : u \in Elems(ups)}
      new == {u.p : u \in {w \in Elems(ups) : w.ch}}
      ts == ToString(t)
  IN [tson |-> [p \in DOMAIN st.tson |-> IF p \in new THEN [v |-> at(p).v, t |-> ts] ELSE st.tson[p]],
      json |-> [p \in DOMAIN st.json |-> IF p \in new THEN [v |-> at(p).v, t |-> ts]
                                         ELSE IF p \in read THEN [st.json[p] EXCEPT !.t = ts] ELSE st.json[p]],
      n |-> st.n + Len(ups),
      changes |-> st.changes + Len(SelectSeq(ups, LAMBDA u : u.ch))]

\* the patches of a step, in any order
JsonPatches(t, ups) ==
  {[p |-> u.p, what |-> "timestamp", v |-> [k |-> "n", x |-> ToString(t), m |-> 0, r |-> ""]] : u \in Elems(ups)}
  \cup {[p |-> u.p, what |-> "value", v |-> u.v] : u \in {w \in Elems(ups) : w.ch}}
TsonPatches(t, ups) == {[p |-> u.p, v |-> u.v, t |-> t] : u \in {w \in Elems(ups) : w.ch}}

JsonCount(st) == st.n + st.changes
TsonCount(st) == st.changes

(***************************************************************************)
(* How a sensor's value moves.  g: [kind, lo, hi, from, to, step, base,    *)
(* amp, period, phase, declared range in rlo, rhi]; lengths in thousandths.*)
(***************************************************************************)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* amp * sin(2 pi t / period), by Bhaskara's approximation, within a sixtieth of amp
Sine(amp, t, period) ==
  LET h == period \div 2
      u == t % period
      neg == u >= h
      w == ((IF neg THEN u - h ELSE u) * 250) \div h
      q == w * (250 - w)
      s == (amp * ((16000 * q) \div (312500 - 4 * q))) \div 1000
  IN IF neg THEN -s ELSE s
Wave(g, t) == IF g.period < 2 \/ Abs(g.amp) > 2000000 THEN g.base ELSE g.base + Sine(g.amp, (t % g.period) + g.phase, g.period)

\* what reading v at t may be, after old
MayRead(g, t, old, v) ==
  CASE v.k # old.k -> FALSE
    [] v.k # "n" -> g.kind \in {"toggle", "triggered", "random_selection"}
    [] g.kind = "linear" -> Abs(v.m - Clamp(old.m + g.step, g.lo, g.hi)) <= 2
    [] g.kind = "random_walk" -> Abs(v.m - old.m) <= g.step + 2 /\ v.m >= g.lo - 1 /\ v.m <= g.hi + 1
    [] g.kind = "constant_with_noise" -> Abs(v.m - g.base) <= g.step + 2
    [] g.kind = "sinusoidal" -> Abs(v.m - Wave(g, t)) <= g.amp \div 60 + 3
    [] g.kind = "constant" -> FALSE
    [] OTHER -> FALSE
\* reading nothing new at t, after old
MayRest(g, t, old) ==
  CASE old.k # "n" -> TRUE
    [] g.kind = "linear" -> Abs(old.m - Clamp(old.m + g.step, g.lo, g.hi)) <= 7
    [] g.kind = "constant_with_noise" -> Abs(old.m - g.base) <= g.step + 7
    [] g.kind = "sinusoidal" -> Abs(old.m - Wave(g, t)) <= g.amp \div 60 + 8
    [] OTHER -> TRUE
\* chance: of the readings (n) that may go either way, how many went up, down
\* (a walk not near its limits; noise above or below its baseline); of a
\* toggle's, how many flipped (up)
Fair == [n |-> 0, up |-> 0, down |-> 0]
Tally(g, c, old, ch, v) ==
  LET free == CASE g.kind = "random_walk" -> old.m - g.step > g.lo /\ old.m + g.step < g.hi - 1
                [] g.kind \in {"constant_with_noise", "toggle"} -> TRUE
                [] OTHER -> FALSE
      up == ch /\ (CASE g.kind = "random_walk" -> v.m > old.m [] g.kind = "constant_with_noise" -> v.m >= g.base [] OTHER -> TRUE)
  IN IF ~free THEN c
     ELSE [n |-> c.n + 1, up |-> c.up + (IF up THEN 1 ELSE 0), down |-> c.down + (IF ch /\ ~up THEN 1 ELSE 0)]
\* seven standard deviations
Balanced(c) == (c.up - c.down) * (c.up - c.down) <= 49 * (c.up + c.down + 2)
Expected(n, hits, thousandths) ==
  LET e == (n * thousandths) \div 1000
      d == Abs(hits - e)
  IN d <= 1 \/ (d - 1) * (d - 1) <= 49 * (e + 3)

InRange(g, v) == v.k = g.k /\ (v.k = "n" => v.m >= g.rlo - 1 /\ v.m <= g.rhi + 1)
=============================================================================

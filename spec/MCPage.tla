------------------------------ MODULE MCPage ------------------------------
(***************************************************************************)
(* The design of the page, explored exhaustively: every selection, press,  *)
(* and order of answers and failures, up to MaxSteps of them. The design   *)
(*  - ignores answers for another selection than the present one,          *)
(*  - takes Append back when the selection changes, and                    *)
(*  - offers Snapshot only when the result is there;                       *)
(* with Careful = FALSE it does not, and the invariants fail.              *)
(* Every step of it is one that Page allows, and what it saves and shows   *)
(* is stated independently of Page's bookkeeping.                          *)
(***************************************************************************)
EXTENDS Page, Json, SequencesExt

CONSTANTS MaxSteps, MaxOpen, Careful, Gen, Fails

Cars == {"1", "2"}
Patches == {"2", "3"}

VARIABLES d, s, n, ok, hist
vars == <<d, s, n, ok, hist>>

\* what the page knows: the selection, its boxes, the saved snapshots (name and text), requests without an answer
Page0 == [car |-> "1", patch |-> "2", view |-> None, pbox |-> None, result |-> None, appended |-> FALSE, snaps |-> <<>>, shown |-> None, open |-> <<"doc:1", "patch:1:2">>]

RECURSIVE Text(_, _)
Text(snaps, name) == IF snaps = <<>> THEN None ELSE IF Head(snaps).name = name THEN Head(snaps).text ELSE Text(Tail(snaps), name)

See(p) == [car |-> p.car, patch |-> p.patch, view |-> p.view, pbox |-> p.pbox, result |-> p.result, label |-> IF p.appended THEN "Snapshot" ELSE "Append",
           names |-> [i \in 1..Len(p.snaps) |-> p.snaps[i].name], texts |-> [i \in 1..Len(p.snaps) |-> p.snaps[i].name],
           shown |-> p.shown, snap |-> Text(p.snaps, p.shown), pend |-> p.open]

Pick(p, e) == [p EXCEPT !.car = SelCar(p, e), !.patch = SelPatch(p, e), !.appended = IF Careful THEN FALSE ELSE @,
                        !.open = Append(@, IF e.c = "car" THEN Doc(e.v) ELSE Patch(p.car, e.v))]

Save(snaps, name, text) ==
  IF \E i \in 1..Len(snaps) : snaps[i].name = name
  THEN [i \in 1..Len(snaps) |-> IF snaps[i].name = name THEN [name |-> name, text |-> text] ELSE snaps[i]]
  ELSE Append(snaps, [name |-> name, text |-> text])

Press(p) ==
  IF ~p.appended THEN [p EXCEPT !.open = Append(@, Applied(p.car, p.patch)), !.appended = ~Careful]
  ELSE LET name == Name(p.car, p.patch) IN [p EXCEPT !.snaps = Save(@, name, p.result), !.shown = name, !.appended = FALSE]

Answer(p, i) ==
  LET key == p.open[i]
      q == [p EXCEPT !.open = RemoveAt(@, i)]
  IN CASE Kind(key) = "doc" -> IF Careful /\ key # Doc(p.car) THEN q ELSE [q EXCEPT !.view = key, !.open = Append(@, Patch(p.car, p.patch))]
       [] Kind(key) = "patch" -> IF Careful /\ key # Patch(p.car, p.patch) THEN q ELSE [q EXCEPT !.pbox = key]
       [] OTHER -> IF Careful /\ key # Applied(p.car, p.patch) THEN q ELSE [q EXCEPT !.result = key, !.appended = IF Careful THEN TRUE ELSE @]

Events == {[c |-> "car", v |-> c] : c \in Cars \ {d.car}} \cup {[c |-> "patch", v |-> p] : p \in Patches \ {d.patch}} \cup {[c |-> "press"]}
          \cup {[c |-> "show", v |-> d.snaps[i].name] : i \in {j \in 1..Len(d.snaps) : d.snaps[j].name # d.shown}}
          \cup {[c |-> "answer", key |-> d.open[i], i |-> i] : i \in 1..Len(d.open)}
          \cup (IF Fails THEN {[c |-> "fail", key |-> d.open[i], i |-> i] : i \in 1..Len(d.open)} ELSE {})

Do(p, e) == CASE e.c \in {"car", "patch"} -> Pick(p, e)
              [] e.c = "press" -> Press(p)
              [] e.c = "show" -> [p EXCEPT !.shown = e.v]
              [] e.c = "answer" -> Answer(p, e.i)
              [] OTHER -> [p EXCEPT !.open = RemoveAt(@, e.i)]

Init == /\ d = Page0
        /\ s = After(Blank("1", "2"), [c |-> "load"], See(Page0))
        /\ n = 0
        /\ ok = TRUE
        /\ hist = <<>>

Next == \E e \in Events :
          /\ n < MaxSteps
          /\ Len(d.open) < MaxOpen \/ e.c \in {"answer", "fail", "show"}
          /\ d' = Do(d, e)
          /\ s' = After(s, e, See(d'))
          /\ ok' = (Display(s, e, See(d')) /\ Snapshots(s, e, See(d'), Cars, Patches))
          /\ n' = n + 1
          /\ hist' = IF Gen THEN Append(hist, e) ELSE hist

\* every step is allowed by Page
Allowed == ok
\* every snapshot holds what its name says
Honest == \A i \in 1..Len(d.snaps) : \E c \in Cars, p \in Patches : d.snaps[i] = [name |-> Name(c, p), text |-> Applied(c, p)]
\* each is listed once
Once == \A i, j \in 1..Len(d.snaps) : d.snaps[i].name = d.snaps[j].name => i = j
\* Snapshot is offered for what is shown and selected
Ready == d.appended => d.result = Applied(d.car, d.patch)
\* once everything is answered, the page shows the selection
Settled == d.open = <<>> /\ ~s.fd /\ ~s.fp => d.view = Doc(d.car) /\ d.pbox = Patch(d.car, d.patch)

View == <<d, s, ok, n>>

Script == IF Gen /\ Len(hist') = MaxSteps THEN PrintT("CASE " \o ToJson([ev |-> hist'])) ELSE TRUE
=============================================================================

------------------------------- MODULE Page -------------------------------
(***************************************************************************)
(* The page of the web demo: a car and a patch are selected, the page asks *)
(* the server for the car's first document, for the patch, and (Append)    *)
(* for the document with the patches applied, which may then be saved as a *)
(* snapshot (Snapshot). Requests are answered in any order, or fail.       *)
(*                                                                         *)
(* A state of the page s:                                                  *)
(*   car, patch            what is selected                                *)
(*   view, pbox, result    the texts shown (named after what they are)     *)
(*   label                 of the button: Append or Snapshot               *)
(*   names, shown          the saved snapshots, and which one is shown     *)
(*   want                  what an Append pressed for this selection asks  *)
(*                         for, until it is saved; "" otherwise            *)
(*   last, asked           what the last Append asked for, and all of them *)
(*   fd, fp, fa            a request for document, patch or result failed  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

None == ""
Doc(c) == "doc:" \o c
Patch(c, p) == "patch:" \o c \o ":" \o p
Applied(c, p) == "applied:" \o c \o ":" \o p
\* patches are numbered from one, the first document being their ground
Number == [p \in {ToString(i) : i \in 1..200} |-> CHOOSE i \in 1..200 : ToString(i) = p]
Name(c, p) == "car_" \o c \o "_patch_" \o ToString(Number[p] - 1) \o " Snapshot"

Kind(key) == IF Len(key) >= 4 /\ SubSeq(key, 1, 4) = "doc:" THEN "doc"
             ELSE IF Len(key) >= 6 /\ SubSeq(key, 1, 6) = "patch:" THEN "patch" ELSE "applied"

Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
If(c, tags) == IF c THEN {} ELSE tags

Blank(c, p) == [car |-> c, patch |-> p, view |-> None, pbox |-> None, result |-> None, label |-> "Append", names |-> <<>>, shown |-> None,
                want |-> None, last |-> None, asked |-> {}, fd |-> FALSE, fp |-> FALSE, fa |-> FALSE]

---------------------------------------------------------------------------
(* What an event e does to the page, as far as it is determined. Events:   *)
(*   load | car v | patch v | press | show v | answer key | fail key | settle *)
SelCar(s, e) == IF e.c = "car" THEN e.v ELSE s.car
SelPatch(s, e) == IF e.c = "patch" THEN e.v ELSE s.patch
Changed(s, e) == SelCar(s, e) # s.car \/ SelPatch(s, e) # s.patch
Appends(s, e) == e.c = "press" /\ s.label = "Append"
Saves(s, e) == e.c = "press" /\ s.label = "Snapshot" /\ s.result = Applied(s.car, s.patch)
Failed(e, kinds) == e.c = "fail" /\ e.key # None /\ Kind(e.key) \in kinds

Names(s, e) == IF Saves(s, e) /\ ~Has(s.names, Name(s.car, s.patch)) THEN Append(s.names, Name(s.car, s.patch)) ELSE s.names
Shown(s, e) == IF Saves(s, e) THEN Name(s.car, s.patch) ELSE IF e.c = "show" /\ s.names # <<>> THEN e.v ELSE s.shown
Want(s, e) == IF Changed(s, e) \/ Saves(s, e) THEN None ELSE IF Appends(s, e) THEN Applied(s.car, s.patch) ELSE s.want
Asked(s, e) == IF Appends(s, e) THEN Applied(s.car, s.patch) ELSE s.last

(* The state after e, o being what the page shows then *)
After(s, e, o) ==
  [car |-> SelCar(s, e), patch |-> SelPatch(s, e), view |-> o.view, pbox |-> o.pbox, result |-> o.result, label |-> o.label,
   names |-> Names(s, e), shown |-> Shown(s, e), want |-> Want(s, e), last |-> Asked(s, e),
   asked |-> IF Appends(s, e) THEN s.asked \cup {Asked(s, e)} ELSE s.asked,
   fd |-> Failed(e, {"doc"}) \/ (s.fd /\ SelCar(s, e) = s.car),
   fp |-> Failed(e, {"doc", "patch"}) \/ (s.fp /\ ~Changed(s, e)),
   fa |-> Failed(e, {"applied"}) \/ (s.fa /\ ~Appends(s, e))]

(* What a snapshot holds is in its name *)
Holds(cars, patches, name, key) ==
  IF name = None THEN key = None
  ELSE \E c \in cars, p \in patches : Name(c, p) = name /\ key = Applied(c, p)

(* The page shows what belongs to the selection, or still what it showed before; once everything is answered, the former. *)
Display(s, e, o) ==
  LET n == After(s, e, o)
      quiet == o.pend = <<>> /\ e.c # "none"
  IN /\ o.car = n.car
     /\ o.patch = n.patch
     /\ o.view \in {s.view, None, Doc(n.car)}
     /\ o.pbox \in {s.pbox, None, Patch(n.car, n.patch)}
     /\ o.result \in {s.result, None, n.last} \cup ({Applied(n.car, n.patch)} \cap n.asked)
     /\ quiet /\ ~n.fd => o.view = Doc(n.car)
     /\ quiet /\ ~n.fp => o.pbox = Patch(n.car, n.patch)
     /\ quiet /\ ~n.fa /\ n.want # None => o.result = n.want

(* Snapshots are saved when asked for, and hold what their names say. *)
Snapshots(s, e, o, cars, patches) ==
  LET n == After(s, e, o)
  IN /\ o.label \in {"Append", "Snapshot"}
     /\ o.label = "Snapshot" => n.want # None \/ o.result = Applied(n.car, n.patch)
     /\ Changed(s, e) \/ Saves(s, e) => o.label = "Append"
     /\ o.pend = <<>> /\ ~n.fa /\ n.want # None => o.label = "Snapshot"
     /\ s.label = "Snapshot" /\ o.label = "Append" => Changed(s, e) \/ e.c = "press"
     /\ o.names = n.names
     /\ o.texts = n.names
     /\ o.shown = n.shown
     /\ Holds(cars, patches, o.shown, o.snap)
=============================================================================

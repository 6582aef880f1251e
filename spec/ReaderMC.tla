------------------------------- MODULE ReaderMC --------------------------------
(***************************************************************************)
(* Design model of the reference-data readers (XFoil dumps and Stanford      *)
(* cases), explored exhaustively.  abs is what the user is promised: the     *)
(* name and the records of the last successful load, or nothing.  imp is how *)
(* an implementation gets there: it clears, reads one part after the other   *)
(* (any of which can fail) and sets the name.  As in SolverMC, the variable  *)
(* defect selects a wrong way of doing that; for each one TLC has to find a  *)
(* state that breaks the promise.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Objs == {"a", "b"}
\* file names and what may be found under them; x has no wake
Names == {"none", "f", "g", "gone"}
Kinds == {"x", "y", "broken_first", "broken_wake"}
Defects == <<"none", "name_first", "name_not_set", "partial_kept", "old_kept", "info_kept", "wake_kept", "appended", "shared",
             "stagnation_shared", "silent", "reload_skipped", "cleared_late", "defaults_shared">>
VARIABLES disk, abs, imp, last, defect
vars == <<disk, abs, imp, last, defect>>
D(n) == defect = n
Empty == [name |-> "", up |-> "-", lo |-> "-", wake |-> "-", info |-> "default"]
Of(name, k) == [name |-> name, up |-> k, lo |-> k, wake |-> IF k = "x" THEN "-" ELSE k, info |-> "default"]
Init == /\ disk \in [{"f", "g"} -> Kinds] /\ abs = [o \in Objs |-> Empty] /\ imp = [o \in Objs |-> Empty]
        /\ last = [ask |-> "ok", got |-> "ok"] /\ defect \in {Defects[i] : i \in 1..Len(Defects)}

Content(n) == IF n = "gone" THEN "missing" ELSE IF n = "none" THEN "nothing" ELSE disk[n]
ReadBy(o, n) ==
    LET c == Content(n)
        old == imp[o]
        cleared == [Empty EXCEPT !.info = IF D("info_kept") THEN old.info ELSE "default",
                                 !.wake = IF D("wake_kept") THEN old.wake ELSE "-"]
        named == [cleared EXCEPT !.name = IF D("name_first") THEN n ELSE ""]
        failed(part) == CASE D("old_kept") -> [old EXCEPT !.name = ""]
                          [] D("cleared_late") /\ c = "missing" -> old
                          [] D("partial_kept") -> [named EXCEPT !.up = part, !.lo = part]
                          [] OTHER -> named
        full == Of(n, c)
    IN CASE D("reload_skipped") /\ n = old.name /\ n # "" -> old
         [] c = "nothing" -> cleared
         [] c \in {"missing", "broken_first"} -> failed("-")
         [] c = "broken_wake" -> failed("y")
         [] OTHER -> [full EXCEPT !.name = IF D("name_not_set") THEN "" ELSE @, !.info = cleared.info,
                                  !.up = IF D("appended") /\ old.up # "-" THEN old.up \o @ ELSE @,
                                  !.wake = IF @ = "-" THEN cleared.wake ELSE @]
Load(o) == \E n \in Names :
    LET c == Content(n)
        ok == c \in {"x", "y", "nothing"}
        v == ReadBy(o, n)
    IN /\ abs' = [abs EXCEPT ![o] = IF c \in {"x", "y"} THEN Of(n, c) ELSE Empty]
       /\ imp' = IF D("shared") THEN [p \in Objs |-> IF p = o THEN v ELSE [imp[p] EXCEPT !.up = v.up, !.lo = v.lo]]
                 ELSE IF D("defaults_shared") THEN [p \in Objs |-> IF p = o THEN v ELSE [imp[p] EXCEPT !.info = v.info]]
                 ELSE [imp EXCEPT ![o] = v]
       /\ last' = [ask |-> IF ok THEN "ok" ELSE "error", got |-> IF ok \/ (D("silent") /\ c # "missing") THEN "ok" ELSE "error"]
       /\ UNCHANGED <<disk, defect>>
\* the file under a name changes
Rewrite == \E n \in {"f", "g"}, k \in Kinds : disk' = [disk EXCEPT ![n] = k] /\ UNCHANGED <<abs, imp, last, defect>>
\* the user edits the first record of a side
Touch(o) == /\ abs[o].up # "-" /\ imp[o].up # "-"
            /\ \E s \in {"up", "lo"} :
                 /\ abs' = [abs EXCEPT ![o][s] = "edited"]
                 /\ imp' = [imp EXCEPT ![o][s] = "edited", ![o].lo = IF s = "lo" \/ D("stagnation_shared") THEN "edited" ELSE @]
            /\ last' = [ask |-> "ok", got |-> "ok"] /\ UNCHANGED <<disk, defect>>
SetInfo(o) == /\ abs' = [abs EXCEPT ![o].info = "set"]
              /\ imp' = IF D("defaults_shared") THEN [p \in Objs |-> [imp[p] EXCEPT !.info = "set"]] ELSE [imp EXCEPT ![o].info = "set"]
              /\ last' = [ask |-> "ok", got |-> "ok"] /\ UNCHANGED <<disk, defect>>
Next == Rewrite \/ \E o \in Objs : Load(o) \/ Touch(o) \/ SetInfo(o)
Spec == Init /\ [][Next]_vars

\* C20, C22
Good == imp = abs /\ last.got = last.ask
Correct == defect = "none" => Good
DefectNo == CHOOSE i \in 1..Len(Defects) : Defects[i] = defect
Record == IF Good THEN TRUE ELSE TLCSet(100 + DefectNo, TRUE) /\ FALSE
Reached == \A i \in 2..Len(Defects) : 100 + i \in DOMAIN TLCGet("all") /\ TLCGet(100 + i)
=============================================================================

-------------------------------- MODULE SimMC ---------------------------------
(***************************************************************************)
(* Design model of the similarity-solution objects, explored exhaustively.   *)
(* abs is what the user is promised (a configuration, see Similarity.tla),   *)
(* imp how an implementation keeps it: wedge parameter, edge coordinate,     *)
(* integrated solution, thicknesses and references are separate fields, set  *)
(* one after the other, and setting them can fail at several points.  As in  *)
(* SolverMC, the variable defect selects a wrong way of doing that; for each *)
(* one TLC has to find a state that breaks the promise.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Objs == {"a", "b"}
Betas == {"b0", "b1", "bad"}
Pars == {"free", "given", "bad"}
Refs == {1, 2}
\* where setting a configuration can fail
Fails == {"no", "search", "integration", "shear"}
Defects == <<"none", "beta_stays", "edge_stays", "solution_stays", "thickness_stale", "thickness_partial", "checked_late",
             "shared", "reference_cached", "free_uses_last", "error_uncaught">>
VARIABLES abs, imp, last, defect
vars == <<abs, imp, last, defect>>
D(n) == defect = n

\* what an object built with configuration c looks like
Fresh(c) == [beta |-> c.beta, edge |-> <<c.beta, c.par>>, sol |-> <<c.beta, c.par>>, th |-> <<c.beta, c.par>>,
             ref |-> c.ref, g |-> c.ref]
Start == [beta |-> "b0", par |-> "free", ref |-> 1]
Init == /\ abs = [o \in Objs |-> Start] /\ imp = [o \in Objs |-> Fresh(Start)]
        /\ last = [ask |-> "ok", got |-> "ok"] /\ defect \in {Defects[i] : i \in 1..Len(Defects)}

Shared(o, v) == [p \in Objs |-> IF p = o THEN v ELSE [imp[p] EXCEPT !.sol = v.sol]]
Set(o, v) == IF D("shared") THEN Shared(o, v) ELSE [imp EXCEPT ![o] = v]

\* reset the wedge parameter and the solution parameters (set_par keeps the wedge parameter)
Reset(o) == \E b \in Betas \cup {"same"}, p \in Pars, fail \in Fails :
    LET beta == IF b = "same" THEN imp[o].beta ELSE b
        invalid == b = "bad" \/ p = "bad"
        new == <<beta, IF D("free_uses_last") /\ p = "free" THEN imp[o].edge[2] ELSE p>>
        full == [imp[o] EXCEPT !.beta = beta, !.edge = new, !.sol = new, !.th = IF D("thickness_stale") /\ b = "same" THEN @ ELSE new]
        left == CASE invalid -> IF D("checked_late") /\ b # "bad" THEN [imp[o] EXCEPT !.beta = beta] ELSE imp[o]
                  [] fail = "search" -> IF D("beta_stays") THEN [imp[o] EXCEPT !.beta = beta] ELSE imp[o]
                  [] fail = "integration" -> IF D("edge_stays") THEN [imp[o] EXCEPT !.edge = new] ELSE imp[o]
                  [] fail = "shear" -> IF D("solution_stays") THEN [imp[o] EXCEPT !.sol = new, !.edge = new]
                                       ELSE IF D("thickness_partial") THEN [imp[o] EXCEPT !.th = new] ELSE imp[o]
                  [] OTHER -> full
        bad == invalid \/ fail # "no"
    IN /\ imp' = Set(o, left)
       /\ abs' = IF bad THEN abs ELSE [abs EXCEPT ![o].beta = IF b = "same" THEN @ ELSE b, ![o].par = p]
       /\ last' = [ask |-> IF bad THEN "ValueError" ELSE "ok",
                   got |-> IF ~bad THEN "ok" ELSE IF D("error_uncaught") /\ b = "bad" THEN "other" ELSE "ValueError"]
       /\ UNCHANGED defect
SetRef(o) == \E r \in Refs :
    /\ abs' = [abs EXCEPT ![o].ref = r]
    /\ imp' = [imp EXCEPT ![o].ref = r, ![o].g = IF D("reference_cached") THEN @ ELSE r]
    /\ last' = [ask |-> "ok", got |-> "ok"] /\ UNCHANGED defect
Next == \E o \in Objs : Reset(o) \/ SetRef(o)
Spec == Init /\ [][Next]_vars

\* C17, C18
Good == /\ \A o \in Objs : imp[o] = Fresh(abs[o])
        /\ last.got = last.ask
Correct == defect = "none" => Good
DefectNo == CHOOSE i \in 1..Len(Defects) : Defects[i] = defect
Record == IF Good THEN TRUE ELSE TLCSet(100 + DefectNo, TRUE) /\ FALSE
Reached == \A i \in 2..Len(Defects) : 100 + i \in DOMAIN TLCGet("all") /\ TLCGet(100 + i)
=============================================================================

------------------------------ MODULE SolverMC -------------------------------
(***************************************************************************)
(* Design model of the boundary-layer objects, explored exhaustively.        *)
(*                                                                           *)
(* Two views of the same objects are run side by side: what the user is      *)
(* promised (variable abs: configuration and existence of results, see       *)
(* Solver.tla) and how an implementation keeps it (variable imp: separate    *)
(* velocity slots, a list of termination events, an initial condition held   *)
(* by reference, a solution pointer, caller-owned lists and arrays).  The    *)
(* invariants tie the two together.  The variable defect selects one of a    *)
(* set of wrong ways to keep the promise: for "none" the invariants hold,    *)
(* and for each of the others TLC has to reach a state that breaks one       *)
(* (checked by the post-condition), so that no invariant is vacuous.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

Objs  == {"a", "b"}
Nus   == {1, 2}
Vels  == {"v1", "v2"}            \* v2 is given as sampled points (array "p")
Fits  == {"f1", "f2"}
Evs   == {"e"}
Defects == <<"none", "events_leak", "list_grows", "stale_after_raise", "stale_after_fail",
             "partial_velocity", "points_aliased", "ic_not_refreshed", "criterion_added",
             "criterion_kept", "criterion_drops_running", "nu_checked_late", "shared_default",
             "query_changes", "fit_kept_on_error">>

VARIABLES abs, imp, lists, pts, defect
vars == <<abs, imp, lists, pts, defect>>

NoSol == [has |-> FALSE]
AbsNew == [nu |-> 1, vel |-> <<"none", 0>>, fit |-> "f1", ic |-> "own", sol |-> NoSol]
ImpNew == [nu |-> 1, u |-> <<"none", 0>>, du |-> <<"none", 0>>, fit |-> "f1", ic |-> "own",
           icnu |-> 1, kills |-> <<"sep-f1">>, sol |-> NoSol, cache |-> 0]

Init == /\ abs = [o \in Objs |-> AbsNew]
        /\ imp = [o \in Objs |-> ImpNew]
        /\ lists = <<"e">>            \* a list of events owned by the caller
        /\ pts = 0                    \* version of the caller's point array
        /\ defect \in {Defects[i] : i \in 1..Len(Defects)}

D(n) == defect = n
Both(o) == IF D("shared_default") THEN Objs ELSE {o}

\* velocity content: sampled points carry the version of the array they were made from
VelVal(v) == IF v = "v2" THEN <<v, pts>> ELSE <<v, 0>>
Eff(v) == IF D("points_aliased") /\ v[1] = "v2" THEN <<"v2", pts>> ELSE v

SetNu(o) == \E v \in Nus :
    /\ abs' = [abs EXCEPT ![o].nu = v]
    /\ imp' = [imp EXCEPT ![o].nu = v]
    /\ UNCHANGED <<lists, pts, defect>>
BadNu(o) == \* refused
    /\ imp' = IF D("nu_checked_late") THEN [imp EXCEPT ![o].nu = 0] ELSE imp
    /\ UNCHANGED <<abs, lists, pts, defect>>
SetVel(o) == \E v \in Vels :
    /\ abs' = [abs EXCEPT ![o].vel = VelVal(v)]
    /\ imp' = [imp EXCEPT ![o].u = VelVal(v), ![o].du = VelVal(v)]
    /\ UNCHANGED <<lists, pts, defect>>
BadVel(o) == \* good u, bad derivative: refused
    /\ imp' = IF D("partial_velocity") THEN [imp EXCEPT ![o].u = <<"v1", 0>>] ELSE imp
    /\ UNCHANGED <<abs, lists, pts, defect>>
SetFit(o) == \E f \in Fits :
    /\ abs' = [abs EXCEPT ![o].fit = f]
    /\ imp' = [p \in Objs |->
          IF p \in Both(o)
          THEN [imp[p] EXCEPT !.fit = f,
                  !.kills = CASE D("criterion_added") -> Append(@, "sep-" \o f)
                              [] D("criterion_kept")  -> @
                              [] OTHER -> <<"sep-" \o f>>]
          ELSE imp[p]]
    /\ UNCHANGED <<lists, pts, defect>>
BadFit(o) ==
    /\ imp' = IF D("fit_kept_on_error") THEN [imp EXCEPT ![o].fit = "bad"] ELSE imp
    /\ UNCHANGED <<abs, lists, pts, defect>>
SetIc(o) == \* an initial condition shared by the objects, made with viscosity 1
    /\ abs' = [abs EXCEPT ![o].ic = "shared"]
    /\ imp' = [imp EXCEPT ![o].ic = "shared"]
    /\ UNCHANGED <<lists, pts, defect>>

\* what a solve works with
Seen(o, evs) ==
    [has |-> TRUE, nu |-> imp[o].nu, u |-> Eff(imp[o].u), du |-> Eff(imp[o].du), fit |-> imp[o].fit,
     icnu |-> IF D("ic_not_refreshed") THEN imp[o].icnu ELSE imp[o].nu,
     evs |-> IF D("criterion_drops_running") /\ evs # <<>> THEN evs ELSE imp[o].kills \o evs]
Promised(o, evs) ==
    [has |-> TRUE, nu |-> abs[o].nu, u |-> abs[o].vel, du |-> abs[o].vel, fit |-> abs[o].fit,
     icnu |-> abs[o].nu, evs |-> <<"sep-" \o abs[o].fit>> \o evs]

Solve(o) == \E mode \in {"none", "single", "list"}, how \in {"ok", "fail", "raise"} :
    LET evs == IF mode = "none" THEN <<>> ELSE IF mode = "single" THEN <<"e">> ELSE lists
        can == abs[o].vel # <<"none", 0>>
        h   == IF can THEN how ELSE "raise"
    IN /\ abs' = [abs EXCEPT ![o].sol = IF h = "ok" THEN Promised(o, evs) ELSE NoSol]
       /\ imp' = [imp EXCEPT
            ![o].sol = CASE h = "ok" -> Seen(o, evs)
                         [] h = "fail"  -> IF D("stale_after_fail") THEN @ ELSE NoSol
                         [] h = "raise" -> IF D("stale_after_raise") THEN @ ELSE NoSol,
            ![o].kills = IF D("events_leak") THEN @ \o evs ELSE @]
       /\ lists' = IF D("list_grows") /\ mode = "list" THEN lists \o imp[o].kills ELSE lists
       /\ UNCHANGED <<pts, defect>>

Query(o) == /\ imp' = IF D("query_changes") /\ imp[o].sol.has
                      THEN [imp EXCEPT ![o].sol.nu = 3 - @] ELSE imp
            /\ UNCHANGED <<abs, lists, pts, defect>>
\* the caller edits the array of points it handed in
Mutate == /\ pts = 0 /\ pts' = 1 /\ UNCHANGED <<abs, imp, lists, defect>>

\* object "b" is a bystander with fewer operations
Next == Mutate \/ SetVel("a") \/ BadVel("a") \/ SetNu("a") \/ BadNu("a") \/ BadFit("a")
        \/ SetIc("a") \/ Query("a") \/ SetFit("a") \/ Solve("a")
        \/ SetFit("b") \/ SetVel("b")
Spec == Init /\ [][Next]_vars

\* DEPTH bounds the exploration; 99 explores everything
Depth == atoi(IOEnv.DEPTH)
Bound == TLCGet("level") < Depth /\ Len(lists) <= 3 /\ \A o \in Objs : Len(imp[o].kills) <= 3

----------------------------------------------------------------------------
\* C02, C06 (objects apart): the configuration held is the configuration promised
ConfigKept == \A o \in Objs :
    /\ imp[o].nu = abs[o].nu
    /\ Eff(imp[o].u) = abs[o].vel /\ Eff(imp[o].du) = abs[o].vel       \* C01, C07
    /\ imp[o].fit = abs[o].fit
\* C03: results exist exactly when promised
ResultsExact == \A o \in Objs : imp[o].sol.has = abs[o].sol.has
\* C05, C06, C15: the results are those of the promised configuration and events
ResultsRight == \A o \in Objs : abs[o].sol.has => imp[o].sol = abs[o].sol
\* C05: the model's own criterion, once
Criterion == \A o \in Objs : imp[o].kills = <<"sep-" \o abs[o].fit>>
\* C05, C07: what the caller owns stays as it was
CallerKept == lists = <<"e">>
Good == ConfigKept /\ ResultsExact /\ ResultsRight /\ Criterion /\ CallerKept

Correct == defect = "none" => Good
DefectNo == CHOOSE i \in 1..Len(Defects) : Defects[i] = defect
\* stop behind a broken state, remembering which defect broke it
Record == IF Good THEN Bound ELSE TLCSet(100 + DefectNo, TRUE) /\ FALSE
Reached == \A i \in 2..Len(Defects) :
    /\ 100 + i \in DOMAIN TLCGet("all")
    /\ TLCGet(100 + i)
=============================================================================

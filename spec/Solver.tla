------------------------------- MODULE Solver --------------------------------
(***************************************************************************)
(* The boundary-layer models (Thwaites linear "TL" and nonlinear "TN", Head  *)
(* "HD") as a state machine.  A world is a set of named objects; the state   *)
(* of an object is its configuration and whether it holds a solution.        *)
(*                                                                           *)
(* An operation is a record; the operators here say, for every operation,    *)
(*    Accepts(w, op)   whether it must be accepted (otherwise ValueError and *)
(*                     nothing changes),                                     *)
(*    After(w, op)     the world after it was accepted.                      *)
(* The same operators are used to explore the design exhaustively            *)
(* (SolverMC), to generate scripts for the code (GenLife, GenSolver) and to  *)
(* judge recorded runs of the code (TraceSolver).                            *)
(***************************************************************************)
EXTENDS Fits

None == [form |-> "none"]
Own  == [t |-> "own"]        \* the initial condition the model owns
Kinds == {"TL", "TN", "HD"}
Laminar(cfg) == cfg.kind \in {"TL", "TN"}

\* configuration of a newly built object
NewCfg(op) ==
    [kind |-> op.kind, nu |-> op.nu, vel |-> op.vel,
     fit  |-> IF op.fit.t = "default" THEN [t |-> "Spline"] ELSE op.fit,
     crit |-> IF op.crit = "default" THEN "2.4" ELSE op.crit,
     dm   |-> "inf", h |-> "inf", ic |-> Own]

----------------------------------------------------------------------------
(* Which values are acceptable                                              *)
Positive(v) == "0" \prec v
FitNames == {"Spline", "White", "Cebeci-Bradshaw", "Drela"}
FitOk(f) == f.t \in FitNames \cup {"custom", "default"}
VelForms == {"pts", "dpts", "fun"}

Setters == {"set_nu", "set_dm", "set_h", "set_init", "set_crit", "set_fit", "set_ic", "set_vel"}

Accepts(w, op) ==
    CASE op.op = "new" -> /\ Positive(op.nu)
                          /\ FitOk(op.fit)
                          /\ op.vel.form \in VelForms \cup {"none"}
      [] op.op = "set_nu"   -> Positive(op.v)
      [] op.op = "set_dm"   -> Positive(op.v)
      [] op.op = "set_h"    -> Positive(op.v)
      [] op.op = "set_init" -> Positive(op.v) /\ Positive(op.h)
      [] op.op = "set_crit" -> TRUE
      [] op.op = "set_fit"  -> FitOk(op.fit)
      [] op.op = "set_ic"   -> TRUE
      [] op.op = "set_vel"  -> op.vel.form \in VelForms
      [] OTHER -> TRUE

ApplyCfg(cfg, op) ==
    CASE op.op = "set_nu"   -> [cfg EXCEPT !.nu = op.v]
      [] op.op = "set_dm"   -> [cfg EXCEPT !.dm = op.v]
      [] op.op = "set_h"    -> [cfg EXCEPT !.h = op.v]
      [] op.op = "set_init" -> [cfg EXCEPT !.dm = op.v, !.h = op.h]
      [] op.op = "set_crit" -> [cfg EXCEPT !.crit = op.v]
      [] op.op = "set_fit"  -> [cfg EXCEPT !.fit = op.fit]
      [] op.op = "set_ic"   -> [cfg EXCEPT !.ic = op.ic]
      [] op.op = "set_vel"  -> [cfg EXCEPT !.vel = op.vel]
      [] OTHER -> cfg

----------------------------------------------------------------------------
(* Worlds: object name -> [cfg, sol], sol being TRUE when results exist and *)
(* ok being TRUE while the configuration is the one that was solved         *)
Put(w, o, c) == [n \in DOMAIN w \cup {o} |-> IF n = o THEN c ELSE w[n]]
Fresh(op) == [cfg |-> NewCfg(op), sol |-> FALSE, cur |-> FALSE]
EmptyWorld == [n \in {} |-> 0]

After(w, op) ==
    IF op.op = "new" THEN Put(w, op.o, Fresh(op))
    ELSE IF op.op \in Setters
         THEN Put(w, op.o, [w[op.o] EXCEPT !.cfg = ApplyCfg(@, op), !.cur = FALSE])
    ELSE w

\* the effect of a solve depends on how it went: "ok", "fail" or "raise"
AfterSolve(w, op, how) ==
    Put(w, op.o, [w[op.o] EXCEPT !.sol = (how = "ok"), !.cur = (how = "ok")])

----------------------------------------------------------------------------
(* How a solve can go                                                       *)
Bounded(F) == F.t \notin {"nan", "raise"}
VelT(v) == IF v.form = "fun" THEN v.u.t ELSE v.form

\* the model has everything a solve needs
Complete(cfg) ==
    /\ cfg.vel.form # "none"
    /\ cfg.ic.t # "own" \/ (cfg.dm # "inf" /\ (Laminar(cfg) \/ cfg.h # "inf"))

RaisingEvent(op) == \E i \in 1..Len(op.ev) : op.ev[i].e = "raise"

\* the set of outcome classes the specification allows
Outcomes(cfg, op) ==
    IF ~Complete(cfg) THEN {"ValueError"}
    ELSE IF RaisingEvent(op) THEN {"RuntimeError"}
    ELSE IF VelT(cfg.vel) = "raise" /\ cfg.vel.u.at \prec op.xe THEN {"RuntimeError", "ok", "fail"}
    ELSE IF VelT(cfg.vel) = "nan" /\ cfg.vel.u.at \prec op.xe THEN {"fail", "ok", "ValueError"}
    ELSE {"ok"}

(* The state variables of the integration and the thicknesses they stand for *)
StagDm(nu, du) == FSqrt((nu \otimes "0.29235" \otimes "1.23259") \oslash (("2.2162" \oplus "2") \otimes du))
\* an initial condition of the user: a class of its own, which looks at the viscosity and at the
\* velocity gradient it is told
UserDm(k, nu, du) == k \otimes FSqrt(nu \oslash ("1" \oplus FSq(du)))
StartDm(cfg, du0) ==
    CASE cfg.ic.t = "own" -> cfg.dm
      [] cfg.ic.t = "fs"  -> StagDm(cfg.nu, du0)
      [] cfg.ic.t = "man" -> cfg.ic.dm
      [] cfg.ic.t = "usr" -> UserDm(cfg.ic.k, cfg.nu, du0)
StartH(cfg) ==
    CASE cfg.ic.t = "own" -> cfg.h
      [] cfg.ic.t = "fs"  -> "2.2162"
      [] cfg.ic.t = "man" -> cfg.ic.dd \oslash cfg.ic.dm
      [] cfg.ic.t = "usr" -> cfg.ic.h
\* first state variable from the momentum thickness
State0(cfg, dm) == IF Laminar(cfg) THEN FSq(dm) \oslash cfg.nu ELSE dm
=============================================================================

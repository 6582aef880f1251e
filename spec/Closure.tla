------------------------------- MODULE Closure --------------------------------
(***************************************************************************)
(* Skin-friction relations (pure functions of two arguments) and initial     *)
(* conditions (small objects: viscosity, velocity gradient, thicknesses).    *)
(***************************************************************************)
EXTENDS Solver

CfAt(fn, re, h) == CASE fn = "lt" -> LudwiegTillman(re, h) [] fn = "felsch" -> Felsch(re, h)
                     [] fn = "white" -> WhiteCf(re, h)
ScalarModes == {"float", "npfloat", "int", "zerod"}
\* argument k of a call: a scalar goes with every element of an array
Elem(s, mode, k) == IF mode \in ScalarModes THEN s[1] ELSE s[k]
Count(op) == IF op.rem \in ScalarModes THEN (IF op.hm \in ScalarModes THEN 1 ELSE Len(op.h)) ELSE Len(op.re)

\* initial conditions
NewIc(op) == IF op.t = "fs" THEN [t |-> "fs", nu |-> op.nu, du |-> op.du]
             ELSE [t |-> "man", nu |-> "1e-5", du |-> "0", dd |-> op.dd, dm |-> op.dm, dk |-> op.dk]
IcAccepts(op) ==
    CASE op.op = "ic" /\ op.t = "fs" -> Positive(op.nu)
      [] op.op = "set" /\ op.field = "nu" -> Positive(op.v)
      [] OTHER -> TRUE
IcAfter(w, op) ==
    CASE op.op = "ic" -> Put(w, op.o, NewIc(op))
      [] op.op = "set" /\ op.field = "nu" -> [w EXCEPT ![op.o].nu = op.v]
      [] op.op = "set" /\ op.field = "du_e" -> [w EXCEPT ![op.o].du = op.v]
      [] op.op = "set" /\ op.field = "del_d" -> [w EXCEPT ![op.o].dd = op.v]
      [] op.op = "set" /\ op.field = "del_m" -> [w EXCEPT ![op.o].dm = op.v]
      [] op.op = "set" /\ op.field = "del_k" -> [w EXCEPT ![op.o].dk = op.v]
      [] OTHER -> w
IcDm(c) == IF c.t = "fs" THEN StagDm(c.nu, c.du) ELSE c.dm
IcHd(c) == IF c.t = "fs" THEN "2.2162" ELSE c.dd \oslash c.dm
IcHk(c) == IF c.t = "fs" THEN "1.6257" ELSE c.dk \oslash c.dm
IcDd(c) == IF c.t = "fs" THEN IcDm(c) \otimes "2.2162" ELSE c.dd
IcDk(c) == IF c.t = "fs" THEN IcDm(c) \otimes "1.6257" ELSE c.dk
=============================================================================

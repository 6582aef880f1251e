------------------------------ MODULE Similarity ------------------------------
(***************************************************************************)
(* The similarity solutions (Blasius "B" and Falkner-Skan "FS") as a state   *)
(* machine.  A world is a set of named objects; the state of an object is    *)
(* its configuration: wedge parameter, references and the solution           *)
(* parameters, each either prescribed or "none" (to be solved for).          *)
(***************************************************************************)
EXTENDS Num

Free(t) == t = "none"
EmptyS == [o \in {} |-> 0]
PutS(w, o, v) == (o :> v) @@ w

BetaMin == "-0.19884"
BetaMax == "2"
BetaOk(b) == BetaMin \preceq b /\ b \preceq BetaMax
Pos(v) == "0" \prec v
ParOk(t) == Free(t) \/ Pos(t)
\* wedge parameter of a velocity exponent
BetaOf(m) == IF m = "inf" THEN "2" ELSE ("2" \otimes m) \oslash ("1" \oplus m)
MOf(b) == IF FEq(b, "2") THEN "inf" ELSE b \oslash ("2" \ominus b)
MOk(m) == "-1" \prec m /\ BetaOk(BetaOf(m))

\* configuration an operation asks for
Asked(w, op) ==
    CASE op.op = "new" -> [kind |-> op.kind, beta |-> IF op.kind = "B" THEN "0" ELSE op.beta, u |-> op.u, nu |-> op.nu,
                           eta |-> op.eta, fw |-> op.fw,
                           \* Blasius: built-in values when nothing is asked for
                           def |-> op.kind = "B" /\ Free(op.eta) /\ Free(op.fw)]
      [] op.op = "set_u"  -> [w[op.o] EXCEPT !.u = op.v]
      [] op.op = "set_nu" -> [w[op.o] EXCEPT !.nu = op.v]
      [] op.op = "set_par" -> [w[op.o] EXCEPT !.eta = op.eta, !.fw = op.fw, !.def = FALSE]
      [] op.op = "reset_beta" -> [w[op.o] EXCEPT !.beta = op.beta, !.eta = op.eta, !.fw = op.fw, !.def = FALSE]
      [] op.op = "reset_m" -> [w[op.o] EXCEPT !.beta = BetaOf(op.m), !.eta = op.eta, !.fw = op.fw, !.def = FALSE]
Changes(op) == op.op \in {"new", "set_u", "set_nu", "set_par", "reset_beta", "reset_m"}

\* values that have to be refused
Invalid(op) ==
    CASE op.op = "new" -> ~((op.kind = "B" \/ BetaOk(op.beta)) /\ Pos(op.u) /\ Pos(op.nu) /\ ParOk(op.eta) /\ ParOk(op.fw))
      [] op.op \in {"set_u", "set_nu"} -> ~Pos(op.v)
      [] op.op = "set_par" -> ~(ParOk(op.eta) /\ ParOk(op.fw))
      [] op.op = "reset_beta" -> ~(BetaOk(op.beta) /\ ParOk(op.eta) /\ ParOk(op.fw))
      [] op.op = "reset_m" -> ~(MOk(op.m) /\ ParOk(op.eta) /\ ParOk(op.fw))
      [] OTHER -> FALSE
\* configurations that have to be accepted.  Prescribed parameters can be such that no
\* solution exists; then (and only then) a valid value may be refused
Solvable(c) ==
    \/ Free(c.eta) /\ Free(c.fw)
    \/ Free(c.fw) /\ "3" \preceq c.eta /\ c.eta \preceq "9" /\ "-0.15" \preceq c.beta /\ c.beta \preceq "0.5"
    \/ Free(c.eta) /\ ~Free(c.fw) /\ FEq(c.beta, "0") /\ "0.47" \preceq c.fw /\ c.fw \preceq "5"
    \/ /\ ~Free(c.eta) /\ ~Free(c.fw) /\ FEq(c.beta, "0")
       /\ "6" \preceq c.eta /\ c.eta \preceq "9" /\ "0.47" \preceq c.fw /\ c.fw \preceq "1.5"
Must(w, op) == ~Invalid(op) /\ (op.op \in {"set_u", "set_nu"} \/ Solvable(Asked(w, op)))
AfterS(w, op) == PutS(w, op.o, Asked(w, op))

----------------------------------------------------------------------------
(* What a configuration promises                                            *)
SolvedBoth(c) == Free(c.eta) /\ Free(c.fw)

\* physical quantities: p holds the similarity values (fw_pp, eta_d, eta_m, eta_k, eta_s)
Exponent(c) == c.beta \oslash ("2" \ominus c.beta)
Ue(c, x) == c.u \otimes FPow(x, Exponent(c))
G(c, x) == FSqrt(Ue(c, x) \oslash (("2" \ominus c.beta) \otimes c.nu \otimes x))
\* growth of the similarity length: delta ~ x ** Spread
Spread(c) == ("1" \ominus Exponent(c)) \oslash "2"
Phys(c, p, fn, x, rho) ==
    CASE fn = "u_e" -> Ue(c, x)
      [] fn = "v_e" -> c.nu \otimes G(c, x) \otimes p.eta_d
      [] fn = "delta_d" -> p.eta_d \oslash G(c, x)
      [] fn = "delta_m" -> p.eta_m \oslash G(c, x)
      [] fn = "delta_k" -> p.eta_k \oslash G(c, x)
      [] fn = "delta_s" -> p.eta_s \oslash G(c, x)
      [] fn = "shape_d" -> p.eta_d \oslash p.eta_m
      [] fn = "shape_k" -> p.eta_k \oslash p.eta_m
      [] fn = "tau_w" -> rho \otimes c.nu \otimes Ue(c, x) \otimes G(c, x) \otimes p.fw_pp
      [] fn = "dissipation" -> rho \otimes c.nu \otimes G(c, x) \otimes FSq(Ue(c, x))
                               \otimes "0.5" \otimes ("1" \oplus ("2" \otimes c.beta)) \otimes p.eta_k
\* velocity components from f and f' at the similarity coordinate
UAt(c, x, fp) == Ue(c, x) \otimes fp
VAt(c, x, eta, f, fp) == FNeg(c.nu \otimes G(c, x) \otimes (f \oplus ((c.beta \ominus "1") \otimes eta \otimes fp)))
=============================================================================

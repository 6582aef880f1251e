------------------------------- MODULE Scripts -------------------------------
(***************************************************************************)
(* Building blocks of the scripts that are run on the code: operations and   *)
(* randomised (but reproducible: everything is a function of the seed and a  *)
(* key) flows, fits, initial conditions and events.                          *)
(***************************************************************************)
EXTENDS Solver, Json, IOUtils

Seed == IOEnv.SEED
Prop == IOEnv.PROP
NumSessions == atoi(IOEnv.N)

----------------------------------------------------------------------------
(* Operations                                                               *)
NoF == [t |-> "none"]
FunVel(u, nd, deriv, keep) ==
    [form |-> "fun", u |-> u, du |-> FDer(u), d2 |-> FDer(FDer(u)), nd |-> nd, deriv |-> deriv,
     keep |-> keep]
PtsVel(x, y, how, pair) == [form |-> "pts", x |-> x, y |-> y, how |-> how, pair |-> pair]
DptsVel(x, y, u0, how) == [form |-> "dpts", x |-> x, y |-> y, u0 |-> u0, how |-> how, u0as |-> "float"]
BadVel(n) == [form |-> "bad", name |-> n]
Shared(v, key) == [share |-> key] @@ v

FitN(n) == [t |-> n]
CustomFit(sh, hh, hp) == [t |-> "custom", sh |-> sh, hh |-> hh, hp |-> hp]
BadFit(n) == [t |-> "bad", name |-> n]

\* what the stagnation condition holds when it is handed over does not matter
FsIcOf(du0) == [t |-> "fs", du0 |-> du0, nu0 |-> "0.02"]
FsIc == FsIcOf("3")
ManIc(dd, dm, dk) == [t |-> "man", dd |-> dd, dm |-> dm, dk |-> dk]
UsrIc(k, h) == [t |-> "usr", k |-> k, h |-> h]

New(o, kind, nu, vel, via, fit, crit) ==
    [op |-> "new", o |-> o, kind |-> kind, nu |-> nu, vel |-> vel, via |-> via, fit |-> fit, crit |-> crit]
SetNu(o, v) == [op |-> "set_nu", o |-> o, v |-> v]
SetDm(o, v) == [op |-> "set_dm", o |-> o, v |-> v]
SetH(o, v)  == [op |-> "set_h", o |-> o, v |-> v]
SetInit(o, v, h) == [op |-> "set_init", o |-> o, v |-> v, h |-> h]
SetCrit(o, v) == [op |-> "set_crit", o |-> o, v |-> v]
SetFit(o, f) == [op |-> "set_fit", o |-> o, fit |-> IF f.t = "default" THEN FitN("White") ELSE f]
SetIc(o, c)  == [op |-> "set_ic", o |-> o, ic |-> c]
SetVel(o, v) == [op |-> "set_vel", o |-> o, vel |-> v]
Look(o)      == [op |-> "look", o |-> o]
Mutate(o)    == [op |-> "mutate", o |-> o]
\* the caller edits every list of events passed so far
EditLists(o, how) == [op |-> "edit_lists", o |-> o, how |-> how]
Query(o, xs, rel, names, scalar) ==
    [op |-> "q", o |-> o, xs |-> xs, rel |-> rel, names |-> names, scalar |-> scalar, rho |-> "1.3", how |-> "array", howsca |-> "float"]
Ev(id, e, a, term, reason, msg) ==
    [id |-> id, e |-> e, a |-> a, term |-> term, reason |-> reason, msg |-> msg, dir |-> 0]
SolveWith(o, x0, xe, mode, ev, list, ns, grid, fresh) ==
    [op |-> "solve", o |-> o, x0 |-> x0, xe |-> xe, mode |-> mode, ev |-> ev, list |-> list,
     ns |-> ns, grid |-> grid, rho |-> "1.3", fresh |-> fresh, cfg |-> 0]
SolveOp(o, x0, xe, ns, grid) == SolveWith(o, x0, xe, "none", <<>>, "", ns, grid, FALSE)

(* Complete a script: a solve that is to be compared with a fresh object gets *)
(* the configuration the object has according to the specification            *)
RECURSIVE FillFrom(_, _, _, _)
FillFrom(ops, k, w, acc) ==
    IF k > Len(ops) THEN acc
    ELSE LET op == ops[k]
             alive == op.op = "new" \/ op.o \in DOMAIN w
             w2 == IF alive /\ Accepts(w, op) THEN After(w, op) ELSE w
             op1 == IF op.op = "solve" /\ alive THEN [op EXCEPT !.cfg = w[op.o].cfg] ELSE op
             rho == LogUnif(<<Seed, Prop, k, "rho", op>>, "0.01", "900")
             \* how numbers are handed over
             nf == [nf |-> PickOf(<<Seed, Prop, k, "nf", op>>, <<"float", "float", "np", "int">>)]
             op2 == CASE op.op = "solve" -> nf @@ [op1 EXCEPT !.rho = rho]
                      [] op.op = "q" -> [op1 EXCEPT !.rho = rho,
                           !.how = PickOf(<<Seed, Prop, k, "arr", op>>, <<"array", "array", "strided", "frozen", "again", "ints">>),
                           !.howsca = PickOf(<<Seed, Prop, k, "sca", op>>, <<"float", "float", "npfloat", "zerod", "int">>)]
                      [] OTHER -> nf @@ op1
         IN FillFrom(ops, k + 1, w2, Append(acc, op2))
Fill(ops) == FillFrom(ops, 1, EmptyWorld, <<>>)
Session(sid, ops, obs, arrs) == [sid |-> sid, ops |-> Fill(ops), obs |-> obs, arrs |-> arrs]

----------------------------------------------------------------------------
(* Random choices, as functions of a key                                    *)
K(i, tag) == <<Seed, Prop, i, tag>>
U(i, tag, lo, hi) == Unif(K(i, tag), lo, hi)
LU(i, tag, lo, hi) == LogUnif(K(i, tag), lo, hi)
PI(i, tag, lo, hi) == Pick(K(i, tag), lo, hi)
PO(i, tag, seq) == PickOf(K(i, tag), seq)

(* Flows: edge velocity F, interval [x0, xe], stag when it starts at rest    *)
Flow(i, fam) ==
    CASE fam = "stag" ->
          LET a == U(i, "a", "0.5", "3") IN
          [u |-> [t |-> "poly", c |-> <<"0", a, a \otimes U(i, "b", "-0.1", "0.1"), a \otimes U(i, "c", "-0.6", "0.05")>>],
           x0 |-> "0", xe |-> U(i, "xe", "0.5", "1.15"), stag |-> TRUE]
      [] fam = "sin" ->
          LET k == U(i, "k", "0.6", "2.5") IN
          [u |-> [t |-> "sin", a |-> "0", b |-> U(i, "b", "0.5", "4"), k |-> k, p |-> "0"],
           x0 |-> "0", xe |-> FRound(U(i, "xe", "1", "2.6") \oslash k, 6), stag |-> TRUE]
      [] fam = "neg" ->
          \* at rest at x = -1
          LET a == U(i, "a", "0.5", "3")  c == U(i, "c", "-0.5", "0.05") IN
          [u |-> [t |-> "poly", c |-> <<a \oplus c, a \oplus ("2" \otimes c), c>>],
           x0 |-> "-1", xe |-> U(i, "xe", "-0.4", "0.1"), stag |-> TRUE]
      [] fam = "lin" ->
          [u |-> [t |-> "poly", c |-> <<"1", U(i, "b", "-0.8", "1.5")>>],
           x0 |-> PO(i, "x0", <<"0", "0.05", "-0.2">>), xe |-> U(i, "xe", "0.3", "1"), stag |-> FALSE]
      [] fam = "exp" ->
          [u |-> [t |-> "exp", a |-> "1", b |-> U(i, "b", "-0.3", "0.6"), k |-> U(i, "k", "-2", "1")],
           x0 |-> "0", xe |-> U(i, "xe", "0.3", "1"), stag |-> FALSE]
      [] fam = "rat" ->
          [u |-> [t |-> "rat", a |-> "0.5", b |-> U(i, "b", "0.3", "1.5"), k |-> U(i, "k", "0.5", "2"), n |-> PO(i, "n", <<"1", "2">>)],
           x0 |-> "0", xe |-> U(i, "xe", "0.3", "1.5"), stag |-> FALSE]
      [] fam = "pow" ->
          [u |-> [t |-> "pow", a |-> U(i, "a", "0.5", "5"), k |-> U(i, "k", "-0.1", "1.2")],
           x0 |-> U(i, "x0", "0.1", "0.5"), xe |-> U(i, "xe", "0.8", "2.5"), stag |-> FALSE]
      [] fam = "osc" ->
          [u |-> [t |-> "sin", a |-> "1", b |-> U(i, "b", "0.03", "0.3"), k |-> U(i, "k", "1", "6"), p |-> U(i, "p", "0", "6.28")],
           x0 |-> "0", xe |-> U(i, "xe", "0.4", "1.5"), stag |-> FALSE]
      [] fam = "dec" ->
          [u |-> [t |-> "poly", c |-> <<"1", U(i, "b", "-0.9", "-0.25"), U(i, "c", "-0.05", "0.1")>>],
           x0 |-> "0", xe |-> U(i, "xe", "0.5", "0.95"), stag |-> FALSE]

(* The same flow at other velocities, lengths and places; viscosities and     *)
(* thicknesses have to follow (faster stagnation flows would move the layer in *)
(* which the code keeps u_e away from zero into the first panel)             *)
Unscaled(f) == [vl |-> "1", l |-> "1"] @@ f
Scaled(i, f) ==
    IF PI(i, "scaled", 1, 3) > 1 THEN Unscaled(f)
    ELSE LET v == LU(i, "sv", "0.2", IF f.stag THEN "1" ELSE "60")  l == LU(i, "sl", "0.5", "20")
             x == PO(i, "sx", <<"0", "0", "3.5", "-7", "40">>)
         IN [u |-> [t |-> "sc", f |-> f.u, v |-> v, x |-> x, l |-> l],
             x0 |-> x \oplus (l \otimes f.x0), xe |-> FRound(x \oplus (l \otimes f.xe), 6), stag |-> f.stag,
             vl |-> FRound(v \otimes l, 6), l |-> l]

(* Ways of handing over the same flow *)
HowFun(i, u) ==
    LET m == PI(i, "how", 1, 6) IN
    CASE m = 1 -> FunVel(u, 0, "other", FALSE)
      [] m = 2 -> FunVel(u, 0, "u", FALSE)
      [] m = 3 -> FunVel(u, 1, "other", FALSE)
      [] m = 4 -> FunVel(u, 1, "du", FALSE)
      [] OTHER -> FunVel(u, 2, "other", FALSE)
Samples(i, f, n) ==
    LET w == f.xe \ominus f.x0
    IN [k \in 1..n |-> IF k = 1 THEN f.x0 ELSE IF k = n THEN f.xe
                       ELSE FRound(f.x0 \oplus (w \otimes ((FInt(k - 1) \oplus U(i, <<"jit", k>>, "-0.3", "0.3")) \oslash FInt(n - 1))), 8)]
HowPts(i, f) ==
    LET n == PI(i, "npts", 5, 14)
        x == Samples(i, f, n)
    IN IF PI(i, "dp", 1, 3) = 1
       THEN DptsVel(x, [k \in 1..n |-> FEvalD(f.u, x[k])], FEval(f.u, x[1]), PO(i, "hp", <<"array", "list", "tuple">>))
       ELSE PtsVel(x, [k \in 1..n |-> FEval(f.u, x[k])], PO(i, "hp", <<"array", "list", "tuple">>), "tuple")
HowVel(i, f) == IF PI(i, "smp", 1, 4) = 1 THEN HowPts(i, f) ELSE HowFun(i, f.u)

LamFit(i, tag) ==
    LET m == PI(i, tag, 1, 10) IN
    CASE m \in {1, 2} -> FitN("Spline") [] m = 3 -> FitN("default") [] m \in {4, 5} -> FitN("White")
      [] m \in {6, 7} -> FitN("Cebeci-Bradshaw") [] m = 8 -> FitN("Drela")
      [] OTHER -> CustomFit([t |-> "poly", c |-> <<"0.22", U(i, <<tag, "s1">>, "1.6", "2.4"), U(i, <<tag, "s2">>, "-1", "1")>>],
                            [t |-> "poly", c |-> <<"2.61", U(i, <<tag, "h1">>, "-5", "-3"), U(i, <<tag, "h2">>, "2", "8")>>],
                            IF m = 9 THEN NoF
                            ELSE [t |-> "poly", c |-> PolyD(<<"2.61", U(i, <<tag, "h1">>, "-5", "-3"), U(i, <<tag, "h2">>, "2", "8")>>)])

(* The operations that give a laminar object an initial condition for flow f *)
LamStart(i, o, f, nu) ==
    LET du0 == FEvalD(f.u, f.x0)
        m == PI(i, "ic", 1, 4)
    IN IF f.stag
       THEN CASE m = 1 -> <<SetDm(o, FRound(U(i, "sf", "0.6", "1.02") \otimes StagDm(nu, du0), 8))>>
              [] m = 2 -> <<SetIc(o, ManIc("0.01", FRound(StagDm(nu, du0), 8), "0.005"))>>
              [] OTHER -> <<SetIc(o, FsIc)>>
       ELSE LET kk == FMin(U(i, "kf", "0.03", "0.4"), FSqrt("0.045" \oslash FMax(FAbs(du0), "0.01")))
                dm == FRound(kk \otimes FSqrt(nu), 8)
            IN CASE m = 1 -> <<SetIc(o, ManIc("0.01", dm, "0.02"))>>
                 [] m = 2 -> <<SetIc(o, UsrIc(U(i, "ku", "0.05", "0.29"), U(i, "hu", "2", "3")))>>
                 [] OTHER -> <<SetDm(o, dm)>>

LamFams == <<"stag", "sin", "lin", "exp", "rat", "pow", "osc", "dec">>
TurbFams == <<"lin", "exp", "rat", "pow", "osc", "dec">>
GridOf(f) == IF f.stag THEN "geom" ELSE "lin"
=============================================================================

-------------------------------- MODULE GenSim --------------------------------
(* Scripts for the similarity solutions.                                     *)
EXTENDS Similarity, Json, IOUtils
Seed == IOEnv.SEED
Prop == IOEnv.PROP
N == atoi(IOEnv.N)
PO(i, tag, s) == PickOf(<<Seed, Prop, i, tag>>, s)
PI(i, tag, a, b) == Pick(<<Seed, Prop, i, tag>>, a, b)
U(i, tag, a, b) == Unif(<<Seed, Prop, i, tag>>, a, b)
LU(i, tag, a, b) == LogUnif(<<Seed, Prop, i, tag>>, a, b)

NewS(o, kind, beta, u, nu, eta, fw) == [op |-> "new", o |-> o, kind |-> kind, beta |-> beta, u |-> u, nu |-> nu, eta |-> eta, fw |-> fw]
FieldOp(o) == [op |-> "field", o |-> o, n |-> 30]
Nu(i, t) == LU(i, <<t, "nu">>, "1e-7", "1")
Ur(i, t) == LU(i, <<t, "u">>, "0.01", "300")

\* wedge parameters: the whole range, its special values and its hard parts
Beta(i, t) ==
    LET m == PI(i, <<t, "bm">>, 1, 10) IN
    CASE m <= 3 -> U(i, <<t, "b">>, "-0.19", "2")
      [] m = 4 -> U(i, <<t, "b">>, "-0.1988", "-0.15")
      [] m \in {5, 6} -> U(i, <<t, "b">>, "-0.15", "0.05")
      [] m = 7 -> U(i, <<t, "b">>, "1", "2")
      [] m = 8 -> PO(i, <<t, "b">>, <<"0", "1", "0.5", "2", "-0.1988">>)
      [] m = 9 -> U(i, <<t, "b">>, "-0.002", "0.002")
      [] OTHER -> U(i, <<t, "b">>, "0", "1")
\* solution parameters that have to be accepted and take little time
EtaOnly(i, t) == U(i, <<t, "eta">>, "3", "9")
Mild(i, t) == U(i, <<t, "b">>, "-0.15", "0.5")
EtaBoth(i, t) == U(i, <<t, "eta">>, "6", "9")
\* at zero wedge parameter every wall shear has an edge; below 0.46 the edge velocity is not reached
FwOnly(i, t) == LU(i, <<t, "fwo">>, "0.47", "5")
FwLow(i, t) == U(i, <<t, "fwl">>, "0.1", "0.45")
FwBoth(i, t) == U(i, <<t, "fw">>, "0.47", "1.5")

Modes == <<"float", "npfloat", "int", "zerod", "array", "array", "ints", "strided", "array", "array2">>
PhysOp(i, t, o) ==
    LET mode == PO(i, <<t, "mode">>, Modes)
        big == PI(i, <<t, "big">>, 1, 12) = 1
        n == IF mode = "array2" THEN 2 * PI(i, <<t, "n">>, 1, IF big THEN 12 ELSE 3)
             ELSE IF big THEN PI(i, <<t, "n">>, 15, 40) ELSE PI(i, <<t, "n">>, 1, 6)
        raw == [k \in 1..n |-> IF mode \in {"int", "ints"} THEN FInt(PI(i, <<t, "xi", k>>, 1, 9)) ELSE LU(i, <<t, "x", k>>, "1e-4", "30")]
        \* repeats
        rep == PI(i, <<t, "rep">>, 1, n)
        x == IF PI(i, <<t, "dup">>, 1, 2) = 1 THEN [raw EXCEPT ![1] = raw[rep]] ELSE raw
        m == IF mode \in {"float", "npfloat", "int", "zerod"} THEN 1 ELSE n
    IN [op |-> "phys", o |-> o, x |-> SubSeq(x, 1, m), mode |-> mode, rho |-> LU(i, <<t, "rho">>, "0.1", "1000"),
        fr |-> [k \in 1..m |-> IF PI(i, <<t, "f0", k>>, 1, 6) = 1 THEN PO(i, <<t, "f", k>>, <<"0", "0.5", "0.97">>) ELSE U(i, <<t, "f", k>>, "0", "0.97")],
        frozen |-> PI(i, <<t, "fz">>, 1, 2) = 1, scalars |-> Prop = "C08"]

----------------------------------------------------------------------------
(* C16: the solution itself.  The default solution costs about a second      *)
C16(i) ==
    LET k == PI(i, "k", 1, 9) IN
    CASE k <= 4 -> <<NewS("a", "FS", Beta(i, 1), Ur(i, 1), Nu(i, 1), "none", "none"), FieldOp("a")>>
      [] k = 5 -> <<NewS("a", "FS", Mild(i, 1), Ur(i, 1), Nu(i, 1), EtaOnly(i, 1), "none"), FieldOp("a")>>
      [] k = 6 -> <<NewS("a", PO(i, "kd", <<"B", "FS">>), "0", Ur(i, 1), Nu(i, 1), EtaBoth(i, 1), FwBoth(i, 1)), FieldOp("a"),
                    [op |-> "set_par", o |-> "a", eta |-> EtaBoth(i, 2), fw |-> FwBoth(i, 2)], FieldOp("a")>>
      [] k = 8 -> <<NewS("a", PO(i, "kd", <<"B", "FS">>), "0", Ur(i, 1), Nu(i, 1), "none", FwOnly(i, 1)), FieldOp("a"),
                    [op |-> "set_par", o |-> "a", eta |-> "none", fw |-> FwOnly(i, 2)], FieldOp("a")>>
      [] k = 7 -> <<NewS("b", "B", "0", Ur(i, 1), Nu(i, 1), "none", "none"), FieldOp("b"),
                    NewS("a", "FS", "0", Ur(i, 1), Nu(i, 1), "none", "none"), FieldOp("a"),
                    [op |-> "set_par", o |-> "b", eta |-> "none", fw |-> "none"], FieldOp("b")>>
      [] OTHER -> <<NewS("b", "B", "0", Ur(i, 1), Nu(i, 1), EtaOnly(i, 1), "none"), FieldOp("b"),
                    NewS("a", "FS", "0", Ur(i, 1), Nu(i, 1), EtaOnly(i, 1), "none"), FieldOp("a")>>

(* C17, C07, C08: conversions                                                *)
C17(i) ==
    LET k == PI(i, "k", 1, 8)
        \* the power law degenerates for wedge angles close to 180 degrees
        b == FMin(Beta(i, 1), "1.9")
        new == CASE k <= 3 -> NewS("a", "FS", b, Ur(i, 1), Nu(i, 1), "none", "none")
                 [] k = 4 -> NewS("a", "B", "0", Ur(i, 1), Nu(i, 1), "none", "none")
                 [] k = 5 -> NewS("a", "B", "0", Ur(i, 1), Nu(i, 1), EtaBoth(i, 1), FwBoth(i, 1))
                 [] OTHER -> NewS("a", "FS", Mild(i, 1), Ur(i, 1), Nu(i, 1), EtaOnly(i, 1), "none")
    IN <<new, PhysOp(i, 1, "a"), PhysOp(i, 2, "a"),
         [op |-> "set_u", o |-> "a", v |-> Ur(i, 2)], PhysOp(i, 3, "a"),
         [op |-> "set_nu", o |-> "a", v |-> Nu(i, 2)], PhysOp(i, 4, "a")>>
       \o (IF k \in {6, 7, 8}
           THEN <<[op |-> IF k = 8 THEN "reset_m" ELSE "reset_beta", o |-> "a", eta |-> EtaOnly(i, 5), fw |-> "none",
                   beta |-> Mild(i, 5), m |-> U(i, "m5", "-0.06", "0.33")], PhysOp(i, 5, "a")>>
           ELSE <<>>)

----------------------------------------------------------------------------
(* C18: reconfiguration.  Every walk ends with an object built with the      *)
(* values the specification says the changed one has now                     *)
BadOp(i, t, o, c) ==
    LET fs == c.kind = "FS"
        eta == PO(i, <<t, "e">>, <<"0", "-1", "-7.5", "-inf">>)
        fw == PO(i, <<t, "f">>, <<"0", "-0.4", "-1e-9">>)
        k == PI(i, <<t, "bk">>, 1, IF fs THEN 15 ELSE 7)
        ok == EtaOnly(i, t)
        par(e, f) == [op |-> "set_par", o |-> o, eta |-> e, fw |-> f]
        rb(b, e, f) == [op |-> "reset_beta", o |-> o, beta |-> b, eta |-> e, fw |-> f]
        rm(m, e, f) == [op |-> "reset_m", o |-> o, m |-> m, eta |-> e, fw |-> f]
        bb == PO(i, <<t, "bb">>, <<"-0.2", "2.0000001", "-0.199", "3", "-1", "inf", "-inf">>)
    IN CASE k = 1 -> [op |-> "set_u", o |-> o, v |-> PO(i, <<t, "v">>, <<"0", "-1", "-1e-9", "-inf">>)]
         [] k = 2 -> [op |-> "set_nu", o |-> o, v |-> PO(i, <<t, "v">>, <<"0", "-1", "-1e-9", "-inf">>)]
         [] k = 3 -> par(eta, PO(i, <<t, "x">>, <<"none", "0.5">>))
         [] k = 4 -> par(PO(i, <<t, "x">>, <<"none", "7">>), fw)
         [] k = 5 -> par(eta, fw)
         \* found out late: the solution never reaches 0.99
         [] k \in {6, 7} -> IF fs THEN rb("0", "none", FwLow(i, t)) ELSE par(PO(i, <<t, "x">>, <<"none", "7">>), FwLow(i, t))
         [] k = 14 -> rb(bb, "none", "none")
         [] k = 15 -> rb(bb, ok, "none")
         [] k = 8 -> rb(Mild(i, t), eta, "none")
         [] k = 9 -> rb(Mild(i, t), "none", fw)
         [] k = 10 -> rm(PO(i, <<t, "m">>, <<"-1", "-0.5", "-2", "-1.0000001", "-0.0906", "-0.999", "-inf", "-3">>), "none", "none")
         [] k = 11 -> rm(U(i, <<t, "m">>, "-0.06", "0.33"), eta, "none")
         [] k = 12 -> rm(U(i, <<t, "m">>, "-0.06", "0.33"), "none", fw)
         \* nothing reaches the edge velocity within this distance
         [] OTHER -> rb(U(i, <<t, "b">>, "0", "1"), "0.5", "0.1")
GoodOp(i, t, o, fs) ==
    LET k == PI(i, <<t, "gk">>, 1, IF fs THEN 12 ELSE 5)
        ok == EtaOnly(i, t)
    IN CASE k = 1 -> [op |-> "set_u", o |-> o, v |-> Ur(i, t)]
         [] k = 2 -> [op |-> "set_nu", o |-> o, v |-> Nu(i, t)]
         [] k = 12 -> [op |-> "reset_m", o |-> o, m |-> "0", eta |-> PO(i, <<t, "x">>, <<"none", EtaBoth(i, t), EtaBoth(i, t)>>), fw |-> FwBoth(i, t)]
         \* the new value goes with the wedge parameter of now, so nothing is promised if that is not mild
         [] k = 3 -> [op |-> "set_par", o |-> o, eta |-> PO(i, <<t, "x">>, <<"none", EtaBoth(i, t)>>), fw |-> FwBoth(i, t)]
         [] k \in {4, 5} -> [op |-> "set_par", o |-> o, eta |-> ok, fw |-> "none"]
         [] k \in {6, 7} -> [op |-> "reset_beta", o |-> o, beta |-> Mild(i, t), eta |-> ok, fw |-> "none"]
         [] k = 8 -> [op |-> "reset_beta", o |-> o, beta |-> Beta(i, t), eta |-> "none", fw |-> "none"]
         [] k = 9 -> [op |-> "reset_m", o |-> o, m |-> U(i, <<t, "m">>, "-0.06", "0.33"), eta |-> ok, fw |-> "none"]
         [] k = 10 -> [op |-> "reset_m", o |-> o, m |-> PO(i, <<t, "m">>, <<"1", "0.2", "inf", "3", "0">>), eta |-> "none", fw |-> "none"]
         [] OTHER -> [op |-> "reset_beta", o |-> o, beta |-> "0", eta |-> PO(i, <<t, "x">>, <<"none", EtaBoth(i, t)>>), fw |-> FwBoth(i, t)]
\* both parameters prescribed: only at zero wedge parameter is success certain
RECURSIVE Walk(_, _, _, _, _)
Walk(i, t, last, w, acc) ==
    IF t > last THEN [w |-> w, ops |-> acc]
    ELSE LET o == PO(i, <<t, "o">>, <<"a", "a", "b">>)
             fs == w[o].kind = "FS"
             g == GoodOp(i, t, o, fs)
             op == IF PI(i, <<t, "bad">>, 1, 2) = 1 THEN BadOp(i, t, o, w[o])
                   ELSE IF Must(w, g) THEN g ELSE [op |-> "set_u", o |-> o, v |-> Ur(i, t)]
             w2 == IF Must(w, op) THEN AfterS(w, op) ELSE w
         IN Walk(i, t + 1, last, w2, Append(acc, op))
Twin(c, o) == NewS(o, c.kind, c.beta, c.u, c.nu, IF c.def THEN "none" ELSE c.eta, IF c.def THEN "none" ELSE c.fw)
\* a Blasius object that was asked to solve for both is compared with the Falkner-Skan solution
TwinB(c, o) == IF c.kind = "B" /\ ~c.def /\ Free(c.eta) /\ Free(c.fw) THEN [Twin(c, o) EXCEPT !.kind = "FS"] ELSE Twin(c, o)
C18(i) ==
    LET na == LET k == PI(i, "na", 1, 6) IN
              CASE k <= 3 -> NewS("a", "FS", Mild(i, 0), Ur(i, 0), Nu(i, 0), EtaOnly(i, 0), "none")
                [] k = 4 -> NewS("a", "FS", Beta(i, 0), Ur(i, 0), Nu(i, 0), "none", "none")
                [] k = 5 -> NewS("a", "FS", "0", Ur(i, 0), Nu(i, 0), EtaBoth(i, 0), FwBoth(i, 0))
                [] OTHER -> NewS("a", "B", "0", Ur(i, 0), Nu(i, 0), "none", "none")
        nb == IF PI(i, "nb", 1, 2) = 1 THEN NewS("b", "B", "0", Ur(i, "b"), Nu(i, "b"), "none", "none")
              ELSE NewS("b", "FS", Mild(i, "b"), Ur(i, "b"), Nu(i, "b"), EtaOnly(i, "b"), "none")
        badnew == [na EXCEPT !.u = PO(i, "bu", <<"0", "-2">>)]
        badnew2 == [nb EXCEPT !.nu = PO(i, "bn", <<"0", "-2e-5">>)]
        badnew3 == NewS("c", "FS", PO(i, "b3", <<"-0.2", "2.1", "-5">>), "1", "1", "none", "none")
        w0 == AfterS(AfterS(EmptyS, na), nb)
        r == Walk(i, 1, 7, w0, <<>>)
    IN <<badnew, na, badnew2, nb, badnew3>> \o r.ops \o <<TwinB(r.w["a"], "c"), TwinB(r.w["b"], "d")>>

Ops(i) == CASE Prop = "C16" -> C16(i) [] Prop \in {"C17", "C07", "C08"} -> C17(i) [] Prop = "C18" -> C18(i)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> [sid |-> i, ops |-> Ops(i)]])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

------------------------------ MODULE GenSolver ------------------------------
(* Scripts for the boundary-layer models, one family per property.           *)
EXTENDS Scripts

LamNew(i, f, nu) ==
    New("a", PO(i, "kind", <<"TL", "TN">>), nu, HowVel(i, f), PO(i, "via", <<"ctor", "set">>), LamFit(i, "fit"), "default")
LamNu(i) == LU(i, "nu", "1e-6", "1e-2")

\* plain laminar solve
Lam(i, fams, ns) ==
    LET f == Scaled(i, Flow(i, PO(i, "fam", fams)))
        nu == FRound(LamNu(i) \otimes f.vl, 10)
    IN <<LamNew(i, f, nu)>> \o LamStart(i, "a", f, nu) \o <<SolveOp("a", f.x0, f.xe, ns, GridOf(f))>>

TurbH(i) == IF PI(i, "hh", 1, 4) = 1 THEN U(i, "h0", "1.15", "1.79") ELSE U(i, "h0", "1.25", "1.75")
TurbNew(i, f, nu, crit) ==
    New("a", "HD", nu, HowVel(i, f), PO(i, "via", <<"ctor", "set">>), FitN("default"), crit)
TurbCrit(i) == IF PI(i, "dc", 1, 3) = 1 THEN "default" ELSE U(i, "crit", "1.8", "2.8")
TurbNu(i) == IF PI(i, "thin", 1, 5) = 1 THEN LU(i, "nu", "1e-9", "1e-7") ELSE LU(i, "nu", "1e-7", "2e-5")
TurbStart(i, o, f) == LET nu == TurbNu(i) dm == FRound(LU(i, "dm", "2e-4", "5e-3") \otimes f.l, 8) h == TurbH(i)
                       m == PI(i, "ic", 1, 7)
                   IN CASE m <= 2 -> <<SetIc(o, ManIc(FRound(dm \otimes h, 8), dm, "0.01"))>>
                        [] m = 3 /\ f.vl = "1" -> <<SetIc(o, UsrIc(FRound(dm \oslash FSqrt(nu), 4), h))>>
                        [] OTHER -> <<SetInit(o, dm, h)>>
Turb(i, ns) ==
    LET f == Scaled(i, Flow(i, PO(i, "fam", TurbFams)))
    IN <<TurbNew(i, f, FRound(TurbNu(i) \otimes f.vl, 10), TurbCrit(i))>> \o TurbStart(i, "a", f) \o <<SolveOp("a", f.x0, f.xe, ns, "lin")>>

----------------------------------------------------------------------------
(* C01: what the velocity queries answer                                     *)
VelNames == <<"u", "du", "d2">>
\* every knot and four points inside every interval
Fine(x) == LET n == Len(x) IN
    [k \in 1..(5*(n - 1) + 1) |->
        LET j == (k - 1) \div 5  r == (k - 1) % 5
        IN IF r = 0 THEN x[j + 1]
           ELSE x[j + 1] \oplus ((x[j + 2] \ominus x[j + 1]) \otimes (FInt(r) \oslash "5"))]
RandPts(i, tag) ==
    LET n == IF PI(i, <<tag, "big">>, 1, 10) = 1 THEN PI(i, <<tag, "nn">>, 30, 130) ELSE PI(i, <<tag, "n">>, 2, 9)
        whole == PI(i, <<tag, "whole">>, 1, 6)
        xs == PO(i, <<tag, "xs">>, <<"1", "1", "50", "0.01">>)
        ys == PO(i, <<tag, "ys">>, <<"1", "1", "100", "0.001">>)
        steps == [k \in 1..n |-> U(i, <<tag, "dx", k>>, "0.05", "1")]
        x == [k \in 1..n |-> FRound(FoldLeft(LAMBDA acc, v : acc \oplus v, PO(i, <<tag, "x0">>, <<"0", "-1", "0.1">>), SubSeq(steps, 1, k)), 8)]
        sh == PI(i, <<tag, "sh">>, 1, 3)
        y == [k \in 1..n |-> CASE sh = 1 -> U(i, <<tag, "y", k>>, "-2", "3")
                               [] sh = 2 -> FRound(FInt(k) \oplus U(i, <<tag, "y", k>>, "-0.45", "0.45"), 6)
                               [] OTHER  -> PO(i, <<tag, "y", k>>, <<"1", "1", "2", "0.5">>)]
        how == PO(i, <<tag, "hp">>, <<"array", "list", "tuple", "mixed">>)
    \* samples of whole numbers, beginning with whole numbers, or of any size
    IN CASE whole = 1 -> [x |-> [k \in 1..n |-> FInt(k - 2)], y |-> [k \in 1..n |-> FInt(PI(i, <<tag, "yi", k>>, -3, 9))], how |-> PO(i, <<tag, "hw">>, <<"ints", "mixed">>)]
         [] whole = 2 -> [x |-> [k \in 1..n |-> IF k = 1 THEN FInt(FTrunc(x[1]) - 1) ELSE x[k]], y |-> [k \in 1..n |-> IF k = 1 THEN FInt(PI(i, <<tag, "yi">>, 1, 3)) ELSE y[k]], how |-> "mixed"]
         [] OTHER -> [x |-> [k \in 1..n |-> x[k] \otimes xs], y |-> [k \in 1..n |-> y[k] \otimes ys], how |-> how]
VelChoice(i, tag) ==
    LET m == PI(i, <<tag, "m">>, 1, 12)
        p == RandPts(i, tag)
        how == p.how
        u == Flow(<<i, tag>>, PO(i, <<tag, "fam">>, LamFams)).u
    IN CASE m <= 4 -> [v |-> PtsVel(p.x, p.y, how, PO(i, <<tag, "pr">>, <<"tuple", "list", "array">>)), xs |-> Fine(p.x)]
         [] m <= 7 -> [v |-> [DptsVel(p.x, p.y, PO(i, <<tag, "u0">>, <<"0.5", "2", "-1", "0">>), how) EXCEPT !.u0as = PO(i, <<tag, "iu">>, <<"float", "int", "npint", "float32", "npfloat", "int32", "int">>)], xs |-> Fine(p.x)]
         [] OTHER  -> [v |-> CASE m = 8 -> FunVel(u, 0, "other", FALSE) [] m = 9 -> FunVel(u, 0, "u", FALSE)
                               [] m = 10 -> FunVel(u, 1, "other", FALSE) [] m = 11 -> FunVel(u, 1, "du", FALSE)
                               [] OTHER -> FunVel(u, 2, "other", FALSE),
                       xs |-> [k \in 1..6 |-> U(i, <<tag, "x", k>>, "0.2", "1.2")]]
C01(i) ==
    LET k == PO(i, "kind", <<"TL", "TN", "HD">>)
        v1 == VelChoice(i, 1)  v2 == VelChoice(i, 2)  v3 == VelChoice(i, 3)
        b == PO(i, "bad", <<"call_du", "call_d2", "call_d2_only", "one_point", "scalar_none", "len_mismatch">>)
    IN <<New("a", k, "0.001", v1.v, PO(i, "via", <<"ctor", "set">>), FitN("default"), "default"),
         Query("a", v1.xs, FALSE, VelNames, FALSE), SetVel("a", v2.v), Query("a", v2.xs, FALSE, VelNames, FALSE)>>
       \o (IF PI(i, "wb", 1, 2) = 1 THEN <<SetVel("a", BadVel(b))>> ELSE <<>>)
       \o <<Query("a", v2.xs, FALSE, VelNames, TRUE), SetVel("a", v3.v), Query("a", v3.xs, FALSE, VelNames, FALSE)>>

----------------------------------------------------------------------------
(* C04: how solves end                                                       *)
Reasons == <<"Transition", "Unknown Event", "Separated">>
Msgs == <<"", "user stop", "a: b">>
RandEv(i, k, f, s0, h0, turb) ==
    LET m == PI(i, <<"ev", k>>, 1, 10)
        id == ToString(<<"e", k>>)
        t == PI(i, <<"term", k>>, 1, 4) > 1
        r == PO(i, <<"rs", k>>, Reasons)  g == PO(i, <<"ms", k>>, Msgs)
        \* anywhere, very close to either end of the interval, or very close to the other events
        near == PI(i, <<"near", k>>, 1, 8)
        fr == CASE near = 1 -> PO(i, <<"at", k>>, <<"0.999999", "0.9999", "0.9999999", "1.000001", "0.99999">>)
                [] near = 2 -> PO(i, <<"at", k>>, <<"1e-6", "1e-4", "1e-3">>)
                [] near \in {3, 4} -> U(i, "at", "0.05", "0.95") \oplus PO(i, <<"at", k>>, <<"1e-6", "-1e-5", "1e-4", "1e-3">>)
                [] OTHER -> U(i, <<"at", k>>, "0.02", "1.3")
        at == f.x0 \oplus (fr \otimes (f.xe \ominus f.x0))
        \* some only count crossings of one direction
        d == PO(i, <<"dir", k>>, <<0, 0, 0, 1, -1>>)
    IN IF m <= 5 THEN [Ev(id, IF PI(i, <<"neg", k>>, 1, 3) = 1 THEN "nx" ELSE "x", at, t, r, g) EXCEPT !.dir = d]
       ELSE IF m = 6 /\ turb THEN Ev(id, "f1", FRound(h0 \otimes U(i, <<"fa", k>>, "0.8", "1.3"), 8), t, r, g)
       ELSE IF m <= 9 THEN [Ev(id, "f0", FRound(s0 \otimes U(i, <<"fa", k>>, "1.01", "3"), 8), t, r, g) EXCEPT !.dir = d]
       ELSE Ev(id, "never", "0", t, r, g)
C04(i) ==
    LET turb == PI(i, "turb", 1, 3) = 1
        f == Scaled(i, Flow(i, PO(i, "fam", IF turb THEN TurbFams ELSE LamFams)))
        nu == FRound((IF turb THEN TurbNu(i) ELSE LamNu(i)) \otimes f.vl, 10)
        start == IF turb THEN TurbStart(i, "a", f) ELSE LamStart(i, "a", f, nu)
        new == IF turb THEN TurbNew(i, f, nu, TurbCrit(i)) ELSE LamNew(i, f, nu)
        w == After(After(EmptyWorld, new), start[1])
        s0 == State0(w["a"].cfg, StartDm(w["a"].cfg, FEvalD(f.u, f.x0)))
        n == PI(i, "nev", 0, 4)
        evs == [k \in 1..n |-> RandEv(i, k, f, s0, IF turb THEN StartH(w["a"].cfg) ELSE "1", turb)]
        mode == IF n = 0 THEN PO(i, "md", <<"none", "list">>) ELSE IF n = 1 THEN PO(i, "md", <<"single", "list">>) ELSE "list"
        odd == IF f.vl # "1" THEN 12 ELSE PI(i, "odd", 1, 12)
        cut == FRound(f.x0 \oplus (U(i, "cut", "0.3", "0.9") \otimes (f.xe \ominus f.x0)), 6)
        new2 == CASE odd = 1 -> [new EXCEPT !.vel = FunVel([t |-> "nan", c |-> <<"1", "0.3">>, at |-> cut], 2, "other", FALSE)]
                  [] odd = 2 -> [new EXCEPT !.vel = FunVel([t |-> "raise", c |-> <<"1", "0.3">>, at |-> cut], 2, "other", FALSE)]
                  [] OTHER -> new
    IN <<new2>> \o (IF odd \in {1, 2} THEN (IF turb THEN <<SetInit("a", "0.001", "1.4")>> ELSE <<SetDm("a", FRound("0.2" \otimes FSqrt(nu), 8))>>) ELSE start)
       \o <<SolveWith("a", f.x0, f.xe, IF odd \in {1, 2} THEN "none" ELSE mode, IF odd \in {1, 2} THEN <<>> ELSE evs, "", 20, GridOf(f), FALSE)>>

----------------------------------------------------------------------------
(* C07 and C08: arrays                                                       *)
AllNames == <<"u", "du", "d2", "dm", "dd", "h", "ve", "tw", "dk", "hk", "di">>
QXs(i) == LET n == IF PI(i, "nqb", 1, 12) = 1 THEN PI(i, "nqn", 20, 60) ELSE PI(i, "nq", 1, 9) IN [k \in 1..n |-> PO(i, <<"q", k>>, <<"0", "1", "0.5", "0.25", U(i, <<"qx", k>>, "0", "1"), U(i, <<"qx", k>>, "0", "0.01"), U(i, <<"qx", k>>, "0.99", "1")>>)]
Base(i) ==
    IF PI(i, "turb", 1, 3) = 1
    THEN LET f == Scaled(i, Flow(i, PO(i, "fam", TurbFams))) IN
         <<TurbNew(i, f, FRound(TurbNu(i) \otimes f.vl, 10), TurbCrit(i))>> \o TurbStart(i, "a", f) \o <<SolveOp("a", f.x0, f.xe, 0, "lin")>>
    ELSE Lam(i, LamFams, 0)
\* one query array whose points lie on both sides of every limit of the fits
Probe(i, n) == [k \in 1..n |-> FRound("0.05" \oplus ("0.9" \otimes ((FInt(k) \oplus U(i, <<"px", k>>, "-0.2", "0.2")) \oslash FInt(n + 1))), 8)]
Perm(i, x) == LET n == Len(x) s == PI(i, "perm", 0, n - 1)
                  st == PO(i, "stp", <<1, n - 1>>)
              IN [k \in 1..n |-> x[((s + (k - 1) * st) % n) + 1]]
SpikeSession(i, n, lams, scalar) ==
    LET nu == LU(i, "nu", "1e-4", "1e-2")
        xs == Probe(i, n)
        \* with zero velocity gradient everywhere else the growth is 0.45/(1.001) or 0.44/1.001 ...
        dm == FRound(U(i, "kf", "0.1", "0.5") \otimes FSqrt(nu), 8)
        z(x) == (FSq(dm) \oslash nu) \oplus ("0.44" \otimes x)
        vs == [k \in 1..n |-> FRound(lams[k] \oslash z(xs[k]), 10)]
        sp == [t |-> "spike", base |-> "0", xs |-> xs, vs |-> vs]
        vel == [form |-> "fun", u |-> [t |-> "poly", c |-> <<U(i, "uu", "0.5", "2")>>], du |-> sp,
                d2 |-> [t |-> "poly", c |-> <<U(i, "dd", "0.5", "3")>>], nd |-> 2, deriv |-> "other", keep |-> FALSE]
        k == PO(i, "kind", <<"TL", "TN">>)
        ft == LamFit(i, "fit")
        pre == IF PI(i, "two", 1, 2) = 1
               THEN <<New("a", k, nu, vel, "ctor", LamFit(i, "fit0"), "default"), SetFit("a", ft)>>
               ELSE <<New("a", k, nu, vel, "ctor", ft, "default")>>
        xs2 == Perm(i, xs)
    IN pre \o <<SetDm("a", dm), SolveOp("a", "0", "1", 0, "lin"),
                Query("a", xs2, FALSE, <<"u", "du", "d2", "dm", "dd", "h", "ve", "tw">>, scalar)>>
       \o (IF PI(i, "thr", 1, 3) = 1
           THEN <<SetFit("a", LamFit(i, "fit3")), Query("a", xs2, FALSE, <<"u", "du", "d2", "dm", "dd", "h", "ve", "tw">>, scalar)>> ELSE <<>>)
RandLam(i, n) == [k \in 1..n |->
    LET m == PI(i, <<"lm", k>>, 1, 12) IN
    CASE m = 1 -> U(i, <<"l", k>>, "-0.6", "-0.1") [] m = 2 -> U(i, <<"l", k>>, "0.25", "0.9")
      [] m = 3 -> U(i, <<"l", k>>, "0.1", "0.25") [] m = 4 -> U(i, <<"l", k>>, "-0.1", "-0.088")
      [] m \in {5, 6} -> PO(i, <<"l", k>>, <<"0", "1e-7", "-1e-7", "0", "1e-12">>)
      [] OTHER -> U(i, <<"l", k>>, "-0.09", "0.14")]

C07(i) ==
    LET m == PI(i, "m7", 1, 3)
        f == Flow(i, PO(i, "fam", LamFams))
        turb == PI(i, "t7", 1, 3) = 1
        g == IF turb THEN Flow(i, PO(i, "fam", TurbFams)) ELSE f
        nu == IF turb THEN TurbNu(i) ELSE LamNu(i)
        n == PI(i, "npts", 4, 10)
        x == Samples(i, g, n)
        arr == PO(i, "h7", <<"array", "list">>)
        vel == CASE m = 1 -> PtsVel(x, [k \in 1..n |-> FEval(g.u, x[k])], arr, PO(i, "pr", <<"tuple", "list", "array">>))
                 [] m = 2 -> DptsVel(x, [k \in 1..n |-> FEvalD(g.u, x[k])], FEval(g.u, x[1]), arr)
                 [] OTHER -> FunVel(g.u, 2, "other", TRUE)
        new == IF turb THEN [TurbNew(i, g, nu, TurbCrit(i)) EXCEPT !.vel = vel] ELSE [LamNew(i, g, nu) EXCEPT !.vel = vel]
        start == IF turb THEN TurbStart(i, "a", Unscaled(g)) ELSE LamStart(i, "a", g, nu)
        sv == SolveWith("a", g.x0, g.xe, "none", <<>>, "", 6, GridOf(g), TRUE)
        q == Query("a", QXs(i), TRUE, AllNames, FALSE)
        never == <<Ev("n1", "never", "0", TRUE, "Transition", ""), Ev("n2", "never", "0", FALSE, "Separated", "x")>>
        sl == [sv EXCEPT !.mode = "list", !.list = "L", !.ev = never]
        lists == PI(i, "l7", 1, 2) = 1
    IN <<new>> \o start \o (IF PI(i, "e7", 1, 2) = 1 THEN <<Mutate("a"), Look("a")>> ELSE <<>>)
       \o (IF lists THEN <<sl, q, Look("a"), EditLists("a", PO(i, "ed", <<"clear", "raise", "stop">>))>> ELSE <<sv, q, Look("a")>>)
       \o <<Mutate("a"), Look("a"), q, sv, Look("a")>>

C08(i) ==
    IF PI(i, "sp", 1, 3) = 1
    THEN SpikeSession(i, 10, RandLam(i, 10), TRUE)
    ELSE LET b == Base(i)
             \* the functions of NumPy differ in the last bit between arrays and scalars, which finite
             \* differences would magnify: only polynomials are handed over without derivatives
             n == IF b[1].vel.form = "fun" /\ b[1].vel.u.t # "poly"
                  THEN [b[1] EXCEPT !.vel = FunVel(b[1].vel.u, 2, "other", FALSE)] ELSE b[1]
         IN <<n>> \o Tail(b) \o <<Query("a", QXs(i), TRUE, AllNames, TRUE)>>
\* Head with velocities near and below the limit, and query points anywhere
C08Head(i) ==
    LET u == [t |-> "sin", a |-> U(i, "ua", "0.0", "0.004"), b |-> "0.003", k |-> "60", p |-> U(i, "up", "0", "6")]
        wide == [form |-> "fun", u |-> [t |-> "poly", c |-> <<"1", "-0.1">>], du |-> [t |-> "poly", c |-> <<"-0.1">>],
                 d2 |-> [t |-> "poly", c |-> <<"0">>], nd |-> 2, deriv |-> "other", keep |-> FALSE]
    IN <<New("a", "HD", "1e-6", wide, "ctor", FitN("default"), "default"), SetInit("a", "0.001", TurbH(i)),
         SolveOp("a", "0", "0.6", 0, "lin"), SetVel("a", FunVel(u, 2, "other", FALSE)),
         Query("a", QXs(i), TRUE, <<"u", "du", "d2", "dm", "dd", "h", "ve", "tw">>, TRUE)>>

----------------------------------------------------------------------------
(* C15: the initial condition is evaluated with what the solve sees           *)
C15(i) ==
    LET f == Flow(i, PO(i, "fam", <<"stag", "sin", "stag", "neg">>))
        f2 == Flow(<<i, 2>>, PO(i, "fam2", <<"stag", "sin", "neg">>))
        nu == LamNu(i)
        \* given thicknesses suit only viscosities of that size
        nu2 == FRound(nu \otimes (IF PI(i, "c", 1, 4) = 1 THEN U(i, "nu2", "0.8", "1.5") ELSE LU(i, "nu2", "0.01", "100")), 6)
        kind == PO(i, "kind", <<"TL", "TN">>)
        ic == IF PI(i, "c", 1, 4) = 1 THEN ManIc("0.01", FRound("0.8" \otimes StagDm(FMin(nu, nu2), FMax(FEvalD(f.u, f.x0), FEvalD(f2.u, f2.x0))), 8), "0.01")
              ELSE IF PI(i, "uc", 1, 4) = 1 THEN PO(i, "us", <<[t |-> "usr"], [share |-> "u"]>>) @@ UsrIc(U(i, "ku", "0.05", "0.29"), "2.5")
              ELSE IF PI(i, "c", 1, 4) = 2 THEN [share |-> "s"] @@ FsIc ELSE FsIcOf(PO(i, "du0", <<"3", "0", "-2">>))
        s1 == SolveOp("a", f.x0, f.xe, 2, "lin")
        s2 == SolveOp("a", f2.x0, f2.xe, 2, "lin")
        \* starting away from the stagnation point, the gradient is the local one
        s3 == SolveOp("a", FRound(f.x0 \oplus ("0.1" \otimes (f.xe \ominus f.x0)), 6), f.xe, 2, "lin")
    IN <<New("a", kind, nu, HowVel(i, f), "ctor", LamFit(i, "fit"), "default"), SetIc("a", ic), s1>>
       \o (CASE PI(i, "seq", 1, 5) = 1 -> <<SetNu("a", nu2), s1, SetVel("a", HowVel(<<i, 2>>, f2)), s2>>
             [] PI(i, "seq", 1, 5) = 2 -> <<s3, SetNu("a", nu2), s3>>
             [] PI(i, "seq", 1, 5) = 3 ->
                  <<New("b", kind, nu2, HowVel(<<i, 2>>, f2), "ctor", FitN("White"), "default"), SetIc("b", ic),
                    [s2 EXCEPT !.o = "b"], s1, [s2 EXCEPT !.o = "b"]>>
             [] PI(i, "seq", 1, 5) = 4 -> <<SetIc("a", FsIc), s1, SetNu("a", "-1"), s1, SetIc("a", ManIc("1", "0.0001", "1")), s1>>
             [] OTHER -> <<SetNu("a", nu2), SetVel("a", HowVel(<<i, 2>>, f2)), s2, SetNu("a", nu), s2>>)
C15Turb(i) ==
    LET t == Turb(i, 2) IN
    t \o <<SetNu("a", LU(i, "nu2", "1e-7", "1e-5")), t[3], SetIc("a", ManIc("0.003", "0.002", "0.004")), t[3]>>

----------------------------------------------------------------------------
(* C11: separation, also after the fits of a live object were replaced         *)
C11(i) ==
    LET b == Lam(i, <<"dec", "stag", "sin", "dec", "osc", "rat", "lin", "exp">>, 40)
        n == Len(b)
    IN IF i % 3 # 0 THEN b
       ELSE (IF i % 2 = 0 THEN <<b[1], SetFit("a", LamFit(i, "fit2"))>> \o Tail(b) ELSE b)
            \o <<SetFit("a", LamFit(i, "fit3")), b[n], SetFit("a", LamFit(i, "fit4")), b[n]>>

----------------------------------------------------------------------------
Ops(i) ==
    CASE Prop = "C01" -> C01(i)
      [] Prop = "C04" -> C04(i)
      [] Prop = "C07" -> C07(i)
      [] Prop = "C08" -> IF i % 7 = 0 THEN C08Head(i) ELSE C08(i)
      [] Prop = "C09" -> IF i % 4 = 0 THEN SpikeSession(i, 8, RandLam(i, 8), TRUE) ELSE Lam(i, LamFams, 12)
      [] Prop = "C10" -> Lam(i, LamFams, IF i % 3 = 0 THEN 60 ELSE 40)
      [] Prop = "C11" -> C11(i)
      [] Prop = "C12" -> Turb(i, 40)
      [] Prop = "C13" -> SpikeSession(i, 16, RandLam(i, 16), TRUE)
      [] Prop = "C15" -> IF i % 4 = 0 THEN C15Turb(i) ELSE C15(i)

Sessions == [i \in 1..NumSessions |-> Session(i, Ops(i), Prop = "C07", Prop = "C07")]
ASSUME ndJsonSerialize(IOEnv.OUT, Sessions)

VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

------------------------------- MODULE GenLife --------------------------------
(***************************************************************************)
(* Life histories of boundary-layer objects, generated from Solver.tla.      *)
(*                                                                           *)
(* MODE "edges": TLC explores the reachable configurations of one object     *)
(* breadth first; for every configuration and every operation of the menu    *)
(* one script is written: a shortest way to the configuration, the           *)
(* operation, and a probe (queries, a solve compared with a fresh object).   *)
(* Every transition of the abstract state machine is so executed on the code.*)
(* MODE "walks": long random histories of two objects that share velocities, *)
(* events, event lists and initial conditions.                               *)
(***************************************************************************)
EXTENDS Scripts, TLC

Mode == IOEnv.MODE
Keep == atoi(IOEnv.KEEP)         \* edges: write one script out of KEEP

----------------------------------------------------------------------------
(* Flows: all accelerate at the start of the intervals used with the        *)
(* stagnation condition; A separates                                        *)
LA == [t |-> "sin", a |-> "0", b |-> "2", k |-> "2", p |-> "0"]
LB == [t |-> "poly", c |-> <<"1", "0.5">>]
LC == [t |-> "poly", c |-> <<"1", "0.6", "-0.7">>]
TA == [t |-> "poly", c |-> <<"1", "-0.6">>]
TB == [t |-> "poly", c |-> <<"1", "0.3">>]
TC == [t |-> "exp", a |-> "1", b |-> "0.3", k |-> "-2"]
NanFlow == [t |-> "nan", c |-> <<"1", "0.3">>, at |-> "0.5"]
RaiseFlow == [t |-> "raise", c |-> <<"1", "0.3">>, at |-> "0.5"]
PtX == <<"0", "0.2", "0.4", "0.6", "0.8", "1", "1.2">>
PtY(u) == [k \in 1..Len(PtX) |-> FEval(u, PtX[k])]
PtD(u) == [k \in 1..Len(PtX) |-> FEvalD(u, PtX[k])]

Flows(kind) == IF kind = "HD" THEN <<TA, TB, TC>> ELSE <<LA, LB, LC>>
Vels(kind) ==
    LET f == Flows(kind) IN
    << FunVel(f[1], 2, "other", FALSE), FunVel(f[2], 0, "u", FALSE), FunVel(f[3], 1, "other", FALSE),
       PtsVel(PtX, PtY(f[1]), "array", "tuple"), PtsVel(PtX, PtY(f[2]), "list", "list"),
       DptsVel(PtX, PtD(f[1]), FEval(f[1], "0"), "array"), DptsVel(PtX, PtD(f[3]), FEval(f[3], "0"), "tuple"),
       FunVel(NanFlow, 2, "other", FALSE), FunVel(RaiseFlow, 2, "other", FALSE) >>

Nus(kind)  == IF kind = "HD" THEN <<"1e-6", "2e-6">> ELSE <<"1e-3", "2.5e-4">>
Dms(kind)  == IF kind = "HD" THEN <<"0.001", "0.002">> ELSE <<"0.004", "0.002">>
Hs         == <<"1.4", "1.6">>
Crits      == <<"2.4", "1.9", "1.7">>
LFits      == <<FitN("Spline"), FitN("White"), FitN("Cebeci-Bradshaw"), FitN("Drela"),
                CustomFit([t |-> "poly", c |-> <<"0.22", "1.9", "0.3">>], [t |-> "poly", c |-> <<"2.61", "-4", "5">>], NoF),
                CustomFit([t |-> "poly", c |-> <<"0.22", "1.5", "-1">>], [t |-> "poly", c |-> <<"2.61", "-3.5", "4">>],
                          [t |-> "poly", c |-> <<"-3.5", "8">>])>>
Man(kind, k) == IF kind = "HD" THEN <<ManIc("0.0014", "0.001", "0.001"), ManIc("0.003", "0.002", "0.001"), UsrIc("1.2", "1.4")>>[k]
                ELSE <<ManIc("0.008", "0.003", "0.002"), ManIc("0.01", "0.002", "0.002"), UsrIc("0.2", "2.5")>>[k]
BadNums == <<"0", "-1", "-0.001", "-inf">>
BadFits == <<"unknown", "case", "blank", "cb", "tuple1", "tuple4", "list2", "none", "callable", "nc1", "nc2",
             "nc3_1", "nc3_2", "nc3_3", "tuple0", "number">>
BadVels == <<"tuple3", "tuple1", "empty", "len_mismatch", "x2d", "y2d", "one_point", "no_point", "zero_d",
             "unsorted", "dup_x", "object", "scalar_none", "scalar_float", "scalar_call", "scalar_3",
             "scalar_len", "scalar_2d", "scalar_one", "scalar_unsorted", "call_du", "call_du_pts", "call_du_d2",
             "call_d2", "call_d2_pts", "call_d2_only", "du_only", "d2_only", "zero_array", "dict", "set", "text", "scalar_zero_array",
             "scalar_dict", "scalar_set", "text_pts", "none_pts", "scalar_none_pts", "one_array", "none">>

Ends == << <<"0.1", "1.1">>, <<"0.1", "0.6">>, <<"0.2", "0.9">> >>
E1 == Ev("e1", "x", "0.45", TRUE, "Transition", "stop here")
E2 == Ev("e2", "x", "0.3", TRUE, "Unknown Event", "")
E3 == Ev("e3", "x", "0.55", FALSE, "Transition", "passing")
E4 == Ev("e4", "never", "0", TRUE, "Separated", "never")
E5 == Ev("e5", "raise", "0", TRUE, "Transition", "")
\* name of a list of events that is passed again and again, and its events
Lists == << <<"L1", <<E1, E3>>>>, <<"L2", <<E4>>>>, <<"L3", <<>>>>, <<"", <<E2>>>>, <<"", <<E3, E2, E1>>>> >>

Sv(o, iv, fresh) == SolveWith(o, iv[1], iv[2], "none", <<>>, "", 4, "lin", fresh)
SvList(o, iv, l, fresh) == SolveWith(o, iv[1], iv[2], "list", l[2], l[1], 4, "lin", fresh)
SvOne(o, iv, e, fresh) == SolveWith(o, iv[1], iv[2], "single", <<e>>, "", 4, "lin", fresh)
QL(o, kind) == Query(o, <<"0.15", "0.5", "0.3">>, FALSE, <<"u", "du", "d2", "dm", "h", "dd", "tw", "ve">>, TRUE)

----------------------------------------------------------------------------
(* Edges                                                                    *)
VARIABLES w, hist, kind
vars == <<w, hist, kind>>
Small(k) == LET v == Vels(k) IN <<v[1], v[4], v[8]>>
NewOp(k, vel) == New("a", k, Nus(k)[1], vel, "ctor", FitN("default"), "default")
Has(op) == Accepts(w, op)
Cfg == w["a"].cfg
EdgeOps ==
    LET k == kind own == Cfg.ic.t = "own"
        n == TLCGet(1)
        cyc(s) == s[(n % Len(s)) + 1]
        each(F(_), q) == [j \in 1..Len(q) |-> F(q[j])]
    IN each(LAMBDA v : SetNu("a", v), Nus(k)) \o <<SetNu("a", cyc(BadNums))>>
       \o (IF own THEN each(LAMBDA v : IF k = "HD" THEN SetInit("a", v, "1.4") ELSE SetDm("a", v), Dms(k)) \o <<SetDm("a", cyc(BadNums))>> ELSE <<>>)
       \o (IF k = "HD" /\ own THEN (IF Cfg.dm = "inf" THEN <<>> ELSE <<SetH("a", "1.6")>>) \o <<SetH("a", cyc(BadNums))>> ELSE <<>>)
       \o each(LAMBDA v : SetVel("a", v), Small(k))
       \o each(LAMBDA j : SetVel("a", BadVel(BadVels[((n + j) % Len(BadVels)) + 1])), <<0, 11>>)
       \o (IF k = "HD" THEN <<SetCrit("a", "1.7"), SetCrit("a", "2.4")>>
           ELSE <<SetFit("a", LFits[1]), SetFit("a", LFits[2]), SetFit("a", BadFit(cyc(BadFits)))>>)
       \o <<SetIc("a", Man(k, 1)),
            Sv("a", Ends[1], TRUE), SvList("a", Ends[1], Lists[1], TRUE), SvOne("a", Ends[1], E2, TRUE),
            SvOne("a", Ends[1], E5, FALSE), Look("a"), QL("a", k)>>

\* how a solve goes, as far as the specification knows (used for exploring only)
HowOf(op) == LET s == Outcomes(Cfg, op) IN IF s = {"ok"} THEN "ok" ELSE IF "fail" \in s THEN "fail" ELSE "raise"
Do(op) == IF op.op = "solve" THEN AfterSolve(w, op, HowOf(op)) ELSE IF Has(op) THEN After(w, op) ELSE w

Probe(n) ==
    CASE n % 4 = 0 -> <<Look("a"), Sv("a", Ends[2], TRUE)>>
      [] n % 4 = 1 -> <<QL("a", kind), SvOne("a", Ends[1], E1, TRUE), Sv("a", Ends[1], TRUE)>>
      [] n % 4 = 2 -> <<Sv("a", Ends[1], TRUE), Look("a")>>
      [] OTHER -> <<SvList("a", Ends[1], Lists[1], TRUE), Look("a"), Sv("a", Ends[1], TRUE)>>

Emit(op) ==
    LET n == TLCGet(1) + 1 IN
    /\ TLCSet(1, n)
    /\ IF Pick(<<Seed, Prop, "edge", n>>, 1, Keep) = 1
       THEN TLCSet(2, Append(TLCGet(2), Session(n, hist \o <<op>> \o Probe(Pick(<<Seed, n>>, 0, 3)), TRUE, FALSE)))
       ELSE TRUE
EInit == /\ kind \in Kinds
         /\ hist = <<NewOp(kind, None)>>
         /\ w = After(EmptyWorld, NewOp(kind, None))
ENext == LET ops == TLCEval(EdgeOps) IN
         \E j \in 1..Len(ops) : LET op == ops[j] IN
            /\ Emit(op)
            /\ w' = Do(op)
            /\ hist' = Append(hist, op)
            /\ UNCHANGED kind
EView == <<kind, w>>

----------------------------------------------------------------------------
(* Walks                                                                    *)
WalkOp(i, n, o, k, own) ==
    LET key(t) == <<n, t>>
        iv == PO(i, key("iv"), Ends)
        m == PI(i, key("m"), 1, 100)
        sh(r, t) == IF PI(i, key("sh"), 1, 3) = 1 THEN r ELSE [share |-> t] @@ r
    IN CASE m <= 8 -> SetNu(o, PO(i, key("v"), Nus(k)))
         [] m <= 12 -> SetNu(o, PO(i, key("v"), BadNums))
         [] m <= 19 -> IF ~own THEN Look(o)
                       ELSE IF k = "HD" THEN SetInit(o, PO(i, key("v"), Dms(k)), PO(i, key("h"), Hs))
                       ELSE SetDm(o, PO(i, key("v"), Dms(k)))
         [] m <= 24 -> IF ~own THEN Look(o)
                       ELSE IF k = "HD" /\ m = 24 THEN SetH(o, PO(i, key("v"), BadNums))
                       ELSE SetDm(o, PO(i, key("v"), BadNums))
         [] m <= 36 -> LET j == PI(i, key("v"), 1, 9) IN SetVel(o, sh(Vels(k)[j], ToString(<<k, j>>)))
         [] m <= 43 -> SetVel(o, BadVel(PO(i, key("v"), BadVels)))
         [] m <= 52 -> IF k = "HD" THEN SetCrit(o, PO(i, key("v"), Crits)) ELSE SetFit(o, PO(i, key("v"), LFits))
         [] m <= 56 -> IF k = "HD" THEN SetCrit(o, PO(i, key("v"), Crits)) ELSE SetFit(o, BadFit(PO(i, key("v"), BadFits)))
         [] m <= 60 -> LET j == PI(i, key("v"), 1, 3) IN SetIc(o, sh(Man(k, j), ToString(<<k, "man", j>>)))
         [] m <= 62 -> IF k = "HD" THEN Look(o) ELSE SetIc(o, sh(FsIc, "fs"))
         [] m <= 74 -> Sv(o, iv, TRUE)
         [] m <= 84 -> SvList(o, iv, PO(i, key("l"), Lists), TRUE)
         [] m <= 91 -> SvOne(o, iv, PO(i, key("e"), <<E1, E2, E3, E4>>), TRUE)
         [] m <= 92 -> SvOne(o, iv, E5, FALSE)
         [] m <= 96 -> QL(o, k)
         [] m <= 99 -> EditLists(o, PO(i, key("ed"), <<"clear", "raise", "stop">>))
         [] OTHER -> Look(o)

RECURSIVE WalkFrom(_, _, _, _, _)
WalkFrom(i, n, last, ks, own) ==
    IF n > last THEN <<>>
    ELSE LET o == IF PI(i, <<n, "o">>, 1, 5) <= 3 THEN "a" ELSE "b"
             op == WalkOp(i, n, o, ks[o], own[o])
         IN <<op>> \o WalkFrom(i, n + 1, last, ks, IF op.op = "set_ic" THEN [own EXCEPT ![o] = FALSE] ELSE own)
WNew(i, o, k) ==
    LET j == PI(i, <<o, "v">>, 1, 10)
        vel == IF j = 10 THEN None ELSE [share |-> ToString(<<k, j>>)] @@ Vels(k)[j]
        bad == PI(i, <<o, "bad">>, 1, 12)
        fit == IF k = "HD" THEN FitN("default") ELSE PO(i, <<o, "f">>, LFits \o <<FitN("default")>>)
        crit == IF k = "HD" THEN PO(i, <<o, "c">>, Crits \o <<"default">>) ELSE "default"
        start == IF PI(i, <<o, "s">>, 1, 5) = 1 THEN <<>>
                 ELSE IF k = "HD" THEN <<SetInit(o, PO(i, <<o, "dm">>, Dms(k)), PO(i, <<o, "h">>, Hs))>>
                 ELSE <<SetDm(o, PO(i, <<o, "dm">>, Dms(k)))>>
        good == New(o, k, PO(i, <<o, "nu">>, Nus(k)), vel, IF j = 10 THEN "ctor" ELSE PO(i, <<o, "via">>, <<"ctor", "set">>), fit, crit)
    IN (CASE bad = 1 -> <<[good EXCEPT !.nu = PO(i, <<o, "bn">>, BadNums)], good>>
          [] bad = 2 -> <<[good EXCEPT !.vel = BadVel(PO(i, <<o, "bv">>, SubSeq(BadVels, 1, Len(BadVels) - 1))), !.via = "ctor"], good>>
          [] bad = 3 /\ k # "HD" -> <<[good EXCEPT !.fit = BadFit(PO(i, <<o, "bf">>, BadFits))], good>>
          [] OTHER -> <<good>>) \o start
Walk(i) ==
    LET ka == PO(i, "ka", <<"TL", "TN", "HD">>)
        kb == IF PI(i, "kk", 1, 2) = 1 THEN ka ELSE PO(i, "kb", <<"TL", "TN", "HD">>)
    IN WNew(i, "a", ka) \o WNew(i, "b", kb)
       \o WalkFrom(i, 1, PI(i, "len", 8, 14), [o \in {"a", "b"} |-> IF o = "a" THEN ka ELSE kb],
                   [o \in {"a", "b"} |-> TRUE])
\* one laminar object with the stagnation condition, solved again after each change
StoryOp(i, n, k) ==
    LET m == PI(i, <<n, "sm">>, 1, 8) IN
    CASE m <= 4 -> SetVel("a", Vels(k)[PI(i, <<n, "sv">>, 1, 7)]) [] m = 5 -> SetNu("a", LU(i, <<n, "nu">>, "1e-4", "1e-2"))
      [] m = 6 -> SetFit("a", PO(i, <<n, "f">>, LFits)) [] m = 7 -> SetIc("a", PO(i, <<n, "ic">>, <<Man(k, 1), Man(k, 3), FsIc, FsIcOf("0"), FsIcOf("-2")>>))
      [] OTHER -> QL("a", k)
RECURSIVE StoryFrom(_, _, _, _)
StoryFrom(i, n, last, k) ==
    IF n > last THEN <<>>
    ELSE <<StoryOp(i, n, k), Sv("a", PO(i, <<n, "iv">>, Ends), TRUE)>> \o StoryFrom(i, n + 1, last, k)
Story(i) ==
    LET k == PO(i, "sk", <<"TL", "TN">>)
        new == New("a", k, PO(i, "nu", Nus(k)), Vels(k)[PI(i, "v", 1, 3)], "ctor", PO(i, "f", LFits), "default")
    IN <<new, SetIc("a", FsIcOf(PO(i, "du0", <<"0", "3", "-1">>))), Sv("a", PO(i, "iv", Ends), TRUE)>> \o StoryFrom(i, 1, 4, k)
Walks == [i \in 1..NumSessions |-> Session(i, IF i % 8 = 5 THEN Story(i) ELSE Walk(i), TRUE, FALSE)]

----------------------------------------------------------------------------
(* Sweep: every invalid value, refused by the constructor and by an object    *)
(* that holds results                                                        *)
GoodNew(o, k) == New(o, k, Nus(k)[1], Vels(k)[PI(o, k, 1, 7)], "ctor", FitN("default"), "default")
GoodStart(o, k) == IF k = "HD" THEN SetInit(o, Dms(k)[1], "1.4") ELSE SetDm(o, Dms(k)[1])
BadOps(k) ==
    [j \in 1..Len(BadNums) |-> SetNu("a", BadNums[j])] \o [j \in 1..Len(BadNums) |-> SetDm("a", BadNums[j])]
    \o [j \in 1..Len(BadVels) |-> SetVel("a", BadVel(BadVels[j]))]
    \o (IF k = "HD" THEN [j \in 1..Len(BadNums) |-> SetH("a", BadNums[j])]
        ELSE [j \in 1..Len(BadFits) |-> SetFit("a", BadFit(BadFits[j]))])
BadNews(k) ==
    LET g == GoodNew("b", k) IN
    [j \in 1..Len(BadNums) |-> [g EXCEPT !.nu = BadNums[j]]]
    \o [j \in 1..(Len(BadVels) - 1) |-> [g EXCEPT !.vel = BadVel(BadVels[j])]]
    \o (IF k = "HD" THEN <<>> ELSE [j \in 1..Len(BadFits) |-> [g EXCEPT !.fit = BadFit(BadFits[j])]])
SweepOne(k, op) ==
    <<GoodNew("a", k), GoodStart("a", k), Sv("a", Ends[1], FALSE)>>
    \o (IF op.op = "new" THEN <<op, Look("a")>> ELSE <<op, Look("a"), op>>) \o <<Sv("a", Ends[1], TRUE), Look("a")>>
SweepK(k) == LET all == BadOps(k) \o BadNews(k) IN [j \in 1..Len(all) |-> SweepOne(k, all[j])]
Sweep == LET all == SweepK("TL") \o SweepK("TN") \o SweepK("HD")
         IN [j \in 1..Len(all) |-> Session(j, all[j], TRUE, FALSE)]

----------------------------------------------------------------------------
Init == /\ TLCSet(1, 0) /\ TLCSet(2, <<>>)
        /\ IF Mode = "edges" THEN EInit
           ELSE /\ ndJsonSerialize(IOEnv.OUT, IF Mode = "sweep" THEN Sweep ELSE Walks)
                /\ w = 0 /\ hist = 0 /\ kind = 0
Next == Mode = "edges" /\ ENext
Spec == Init /\ [][Next]_vars
View == IF Mode = "edges" THEN EView ELSE 0
\* everything is written when the exploration is complete
Written == Mode # "edges" \/ (PrintT(<<"edges", TLCGet(1)>>) /\ ndJsonSerialize(IOEnv.OUT, TLCGet(2)))
=============================================================================

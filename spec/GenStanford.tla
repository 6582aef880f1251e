------------------------------ MODULE GenStanford ------------------------------
(* Scripts for the Stanford cases and their station records.                 *)
EXTENDS Stanford, Json, IOUtils
Seed == IOEnv.SEED
Prop == IOEnv.PROP
N == atoi(IOEnv.N)
PO(i, tag, s) == PickOf(<<Seed, Prop, i, tag>>, s)
PI(i, tag, a, b) == Pick(<<Seed, Prop, i, tag>>, a, b)
U(i, tag, a, b) == Unif(<<Seed, Prop, i, tag>>, a, b)
LU(i, tag, a, b) == LogUnif(<<Seed, Prop, i, tag>>, a, b)
R8(v) == FRound(v, 8)
\* out of SI units
FileX(si, v) == IF si THEN v ELSE v \oslash Foot
FileY(si, v) == IF si THEN v \oslash Cm ELSE v \oslash Inch
FileV(si, v) == IF si THEN v \oslash "0.0001" ELSE v \oslash (Foot \otimes Foot)

Checked == <<"x", "u_e", "delta_m", "shape_d", "shape_k", "shape_eq", "delta_d", "delta_k", "u_star", "re_delta_d", "re_delta_m",
             "y_plus", "u_plus", "y_c", "u_defect">>
SampleFields == {"y_plus", "u_plus", "y_c", "u_defect"}
NoTarget == [q |-> "", e |-> "0", k |-> 0]
\* moves one quantity to either side of what is tolerated
Target(i, t) ==
    [q |-> PO(i, <<t, "tq">>, Checked),
     e |-> PO(i, <<t, "ts">>, <<"1", "-1">>) \otimes PO(i, <<t, "te">>, <<"0.5", "0.95", "1.05", "1.1", "1.5", "4", "30">>),
     k |-> PI(i, <<t, "tk">>, 1, 4)]
Off(i, t, tg, q) == IF tg.q = q THEN tg.e ELSE U(i, <<t, "off", q>>, "-0.9", "0.9")
OffAt(i, t, tg, q, k) == IF tg.q = q /\ tg.k = k THEN tg.e ELSE U(i, <<t, "off", q, k>>, "-0.9", "0.9")
\* values stay positive
Down(v, w) == FMax(v \oslash "2", w)

Summ(i, t, si) ==
    <<R8(FileX(si, U(i, <<t, "x">>, "0.1", "9"))), R8(FileX(si, U(i, <<t, "ue">>, "4", "60"))), U(i, <<t, "du">>, "-6", "6"),
      R8(FileY(si, LU(i, <<t, "th">>, "0.003", "0.05"))), U(i, <<t, "h">>, "1.2", "2.8"), U(i, <<t, "hs">>, "1.4", "1.85"),
      U(i, <<t, "g">>, "4", "30"), LU(i, <<t, "cf">>, "0.0004", "0.006"), U(i, <<t, "cl">>, "-0.001", "0.006"),
      U(i, <<t, "ce">>, "-0.001", "0.006"), U(i, <<t, "be">>, "-1", "25")>>
Stat(i, t, si, summ, tg) ==
    LET s == FromSumm(si, summ)
        nu == LU(i, <<t, "nu">>, "0.000001", "0.0002")
        x == s.x \oplus (Off(i, t, tg, "x") \otimes "0.002")
        ue == s.u_e \oplus (Off(i, t, tg, "u_e") \otimes "0.06")
        dm == Down(s.delta_m, s.delta_m \oplus (Off(i, t, tg, "delta_m") \otimes "0.002"))
        dd == Down(s.delta_d, s.delta_d \oplus (Off(i, t, tg, "delta_d") \otimes "0.005"))
        dk == Down(s.delta_k, s.delta_k \oplus (Off(i, t, tg, "delta_k") \otimes "0.005"))
        us == Down(s.u_star, s.u_star \oplus (Off(i, t, tg, "u_star") \otimes "0.005"))
        rm == (s.u_e \otimes dm) \oslash nu
        rd == (s.u_e \otimes dd) \oslash nu
    IN <<R8(FileX(si, x)), R8(FileX(si, us)), R8(FileX(si, ue)), R8(FileV(si, nu)), R8(FileY(si, dm)), R8(FileY(si, dd)), R8(FileY(si, dk)),
         R8(FileY(si, LU(i, <<t, "cc">>, "0.02", "2"))),
         R8(s.shape_d \oplus (Off(i, t, tg, "shape_d") \otimes "0.002")), R8(s.shape_eq \oplus (Off(i, t, tg, "shape_eq") \otimes "0.002")),
         R8(s.shape_k \oplus (Off(i, t, tg, "shape_k") \otimes "0.002")),
         R8(Down(rm, rm \oplus (Off(i, t, tg, "re_delta_m") \otimes "5"))), R8(Down(rd, rd \oplus (Off(i, t, tg, "re_delta_d") \otimes "5")))>>
Pos(v) == R8(FMax("0", v))
Det(i, t, si, st, n, tg) ==
    LET d == FromStat(si, st)
        row(k) ==
          LET y == IF k = 1 /\ PI(i, <<t, "y0">>, 1, 3) = 1 THEN "0" ELSE R8(FileY(si, LU(i, <<t, "y", k>>, "0.0001", "0.1")))
              r == IF PI(i, <<t, "u1", k>>, 1, 6) = 1 THEN "1" ELSE U(i, <<t, "u", k>>, "0", "1")
              m == Sample(si, d, <<"0", "0", y, r, "0", "0">>)
          IN <<Pos(((m.y \otimes d.u_star) \oslash d.nu) \oplus OffAt(i, t, tg, "y_plus", k)),
               Pos((m.u \oslash d.u_star) \oplus (OffAt(i, t, tg, "u_plus", k) \oslash "2")), y, r,
               Pos((m.y \oslash d.delta_c) \oplus (OffAt(i, t, tg, "y_c", k) \oslash "2")),
               Pos(((d.u_e \ominus m.u) \oslash d.u_star) \oplus (OffAt(i, t, tg, "u_defect", k) \oslash "2"))>>
    IN [k \in 1..n |-> row(k)]
\* wrong columns or unreadable or non-physical entries
SpoilRow(i, t, row, pos) ==
    LET k == PI(i, <<t, "sp">>, 1, 7)
        n == Len(row)
        at == PI(i, <<t, "at">>, 1, n)
        p == PO(i, <<t, "pos">>, pos)
    IN CASE k = 1 -> SubSeq(row, 1, n - 1) [] k = 2 -> row \o <<"1.5">>
         [] k = 3 -> [row EXCEPT ![at] = PO(i, <<t, "txt">>, <<"abc", "1.2.3", "--1", "1,5">>)]
         [] k = 4 /\ n > 6 -> [row EXCEPT ![p] = "0"]
         [] k = 5 -> SubSeq(row, 1, 1)
         [] OTHER -> [row EXCEPT ![p] = "-0.1"]
SummPos == <<2, 4, 5, 6, 7>>
StatPos == <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>
DetPos == <<1, 2, 3, 4, 5, 6>>

----------------------------------------------------------------------------
(* Case files                                                               *)
Ids == <<[id |-> "1400", si |-> TRUE], [id |-> "1999", si |-> TRUE], [id |-> "2100", si |-> FALSE], [id |-> "2911", si |-> FALSE]>>
ShippedIds == <<[id |-> "1100", si |-> TRUE], [id |-> "1200", si |-> TRUE], [id |-> "1300", si |-> TRUE], [id |-> "2200", si |-> FALSE], [id |-> "2300", si |-> FALSE]>>
\* smoothed rows are taken as they are: zero and negative values, too
Odd0(i, t, v) == LET k == PI(i, <<t, "odd">>, 1, 10) IN IF k = 1 THEN "0" ELSE IF k = 2 THEN FNeg(v) ELSE v
GoodFile(i, t) ==
    LET id == PO(i, <<t, "id">>, Ids)
        \* now and then a long table
        long(s) == PI(i, <<t, "long", s>>, 1, 20) = 1
        n == PI(i, <<t, "n">>, 1, IF long("st") THEN 16 ELSE 5)
        form == PI(i, <<t, "form">>, 1, 3)
        summ == TLCEval([k \in 1..n |-> Summ(i, <<t, k>>, id.si)])
        stat == TLCEval(IF form = 1 THEN <<>> ELSE [k \in 1..n |-> Stat(i, <<t, k>>, id.si, summ[k], NoTarget)])
        det == IF form < 3 THEN <<>> ELSE [k \in 1..n |-> Det(i, <<t, k>>, id.si, stat[k], PI(i, <<t, "nd", k>>, 1, IF long(k) THEN 15 ELSE 4), NoTarget)]
        sm == [k \in 1..PI(i, <<t, "nsm">>, 1, IF long("sm") THEN 20 ELSE 5) |->
                 <<Odd0(i, <<t, "sx", k>>, R8(FileX(id.si, U(i, <<t, "sx", k>>, "0.1", "9")))), Odd0(i, <<t, "su", k>>, R8(FileX(id.si, U(i, <<t, "su", k>>, "4", "60")))),
                   Odd0(i, <<t, "sd", k>>, U(i, <<t, "sd", k>>, "-6", "6"))>>]
    IN [t |-> "gen", id |-> id.id, si |-> id.si, flaw |-> "", style |-> PO(i, <<t, "style">>, <<"spaced", "spaced", "tight", "wide", "lower">>), nu |-> R8(FileV(id.si, LU(i, <<t, "nur">>, "0.000001", "0.0002"))),
        summ |-> summ, smooth |-> sm, stat |-> stat, det |-> det]
Shipped(i, t) == LET id == PO(i, <<t, "ship">>, ShippedIds) IN [t |-> "shipped", id |-> id.id, si |-> id.si]
None == [t |-> "none", id |-> "", si |-> TRUE]
BadFile(i, t) ==
    LET g == GoodFile(i, t)
        k == PI(i, <<t, "bk">>, 1, 12)
        n == Len(g.summ)
        r == IF PI(i, <<t, "late">>, 1, 2) = 1 THEN n ELSE PI(i, <<t, "r">>, 1, n)
        rs == PI(i, <<t, "rs">>, 1, Len(g.smooth))
        off == [q |-> PO(i, <<t, "bq">>, SubSeq(Checked, 1, 11)), e |-> "3", k |-> 1]
    IN CASE k = 1 -> [t |-> "missing", id |-> PO(i, <<t, "mid">>, <<"1400", "2100", "9999", "xxxx", "110", "11000", "1 100">>), si |-> TRUE]
         [] k \in {2, 3} -> [g EXCEPT !.flaw = PO(i, <<t, "fl">>, <<"ident", "label", "nulabel", "nonu", "cut", "longer", "shorter", "before", "noeq", "nueq", "nuempty", "nohash", "nothing", "bytes">>)]
         [] k = 4 -> [g EXCEPT !.nu = PO(i, <<t, "bnu">>, <<"abc", "1.2.3">>)]
         [] k = 5 -> [g EXCEPT !.smooth[rs] = LET p == PI(i, <<t, "ssp">>, 1, 3) IN
                        CASE p = 1 -> <<"1", "2">> [] p = 2 -> <<"1", "2", "3", "4">> [] OTHER -> <<"1", "x", "2">>]
         [] k \in {6, 7} /\ g.stat # <<>> -> [g EXCEPT !.stat[r] = SpoilRow(i, t, @, StatPos)]
         [] k = 8 /\ g.stat # <<>> -> [g EXCEPT !.stat[r] = Stat(i, <<t, r>>, g.si, g.summ[r], off), !.det = <<>>]
         [] k \in {9, 10} /\ g.det # <<>> -> [g EXCEPT !.det[r][1] = SpoilRow(i, t, @, DetPos)]
         [] k = 11 /\ g.stat # <<>> -> [g EXCEPT !.summ = Append(@, Summ(i, <<t, "more">>, g.si))]
         [] OTHER -> [g EXCEPT !.summ[r] = SpoilRow(i, t, @, SummPos)]
NewC(o, f, arg) == [op |-> "new", o |-> o, file |-> f, arg |-> arg]
Sel(o, f) == [op |-> "select", o |-> o, file |-> f]
TouchOp(i, t, o) ==
    [op |-> "touch", o |-> o, i |-> 1, field |-> PO(i, <<t, "tf">>, Scalars), v |-> LU(i, <<t, "tv">>, "0.0001", "50")]
Scribble(o) == [op |-> "scribble", o |-> o]
C21(i) ==
    LET f == IF i <= 5 THEN [t |-> "shipped", id |-> ShippedIds[i].id, si |-> ShippedIds[i].si] ELSE GoodFile(i, 1)
        g == GoodFile(i, 2)
    IN <<NewC("a", f, TRUE), Scribble("a"), Sel("a", g), TouchOp(i, 3, "a")>>
RECURSIVE Walk(_, _, _, _, _)
Walk(i, t, last, loaded, acc) ==
    IF t > last THEN acc
    ELSE LET o == PO(i, <<t, "o">>, <<"a", "a", "b">>)
             k == PI(i, <<t, "k">>, 1, 10)
             f == CASE k <= 3 -> GoodFile(i, t) [] k = 4 -> (IF PI(i, <<t, "s">>, 1, 4) = 1 THEN Shipped(i, t) ELSE GoodFile(i, t))
                    [] k <= 8 -> BadFile(i, t) [] OTHER -> None
             op == IF k <= 9 THEN Sel(o, f) ELSE IF o \in loaded THEN TouchOp(i, t, o) ELSE Sel(o, None)
             l2 == IF op.op # "select" THEN loaded ELSE IF k <= 4 THEN loaded \cup {o} ELSE loaded \ {o}
         IN Walk(i, t + 1, last, l2, Append(acc, op))
C22(i) ==
    LET f == GoodFile(i, "a") g == GoodFile(i, "b")
        k == PI(i, "na", 1, 4)
        na == CASE k = 1 -> NewC("a", None, FALSE) [] k = 2 -> NewC("a", None, TRUE) [] OTHER -> NewC("a", f, TRUE)
    IN <<NewC("c", BadFile(i, "c"), TRUE), na, NewC("b", IF PI(i, "nb", 1, 2) = 1 THEN f ELSE g, TRUE)>>
       \o Walk(i, 1, 9, {"b"} \cup (IF k <= 2 THEN {} ELSE {"a"}), <<>>)

----------------------------------------------------------------------------
(* Station records on their own                                             *)
Make(o, si, summ, st, det, new) == [op |-> IF new THEN "rec" ELSE "recreset", o |-> o, si |-> si, summ |-> summ, stat |-> st, det |-> det]
MakeOp(i, t, spoil) ==
    LET si == PI(i, <<t, "si">>, 1, 2) = 1
        tg == IF spoil THEN NoTarget ELSE Target(i, t)
        summ == TLCEval(Summ(i, t, si))
        st == TLCEval(IF PI(i, <<t, "nost">>, 1, 8) = 1 THEN <<>> ELSE Stat(i, t, si, summ, tg))
        det == IF st = <<>> \/ (PI(i, <<t, "nod">>, 1, 3) = 1 /\ tg.q \notin SampleFields) THEN <<>>
               ELSE Det(i, t, si, st, PI(i, <<t, "nd">>, IF tg.q \in SampleFields THEN tg.k ELSE 1, 4), tg)
        o == PO(i, <<t, "mo">>, <<"r1", "r2">>)
        new == PI(i, <<t, "nw">>, 1, 2) = 1
        k == IF spoil THEN PI(i, <<t, "sk">>, 1, 4) ELSE 0
        r == IF det = <<>> THEN 1 ELSE PI(i, <<t, "dr">>, 1, Len(det))
    IN CASE k = 1 -> Make(o, si, SpoilRow(i, t, summ, SummPos), st, det, new)
         [] k = 2 /\ st # <<>> -> Make(o, si, summ, SpoilRow(i, t, st, StatPos), det, new)
         [] k = 3 /\ det # <<>> -> Make(o, si, summ, st, [det EXCEPT ![r] = SpoilRow(i, t, @, DetPos)], new)
         [] OTHER -> Make(o, si, summ, st, det, new)
C24(i) == LET a == Summ(i, "f", TRUE) b == Summ(i, "g", FALSE) IN
          <<Make("r1", TRUE, a, <<>>, <<>>, TRUE), Make("r2", FALSE, b, <<>>, <<>>, TRUE)>> \o [t \in 1..14 |-> MakeOp(i, t, FALSE)]
SetOp(i, t) ==
    LET o == PO(i, <<t, "o">>, <<"r1", "r2">>)
        f == PO(i, <<t, "f">>, Scalars \o <<"u_e", "delta_d", "nu">>)
        k == PI(i, <<t, "k">>, 1, 10)
    IN [op |-> "recset", o |-> o, field |-> f,
        v |-> CASE k <= 3 -> LU(i, <<t, "v">>, "0.00001", "9") [] k <= 5 -> "0" [] k <= 7 -> U(i, <<t, "v">>, "-3", "-0.001")
                [] k = 8 -> PO(i, <<t, "v">>, <<"-1e-12", "1e-12", "-1e300", "1e300">>)
                [] k = 9 -> PO(i, <<t, "v">>, <<"inf", "-inf">>) [] OTHER -> PO(i, <<t, "v">>, <<"-1", "1", "5">>)]
ArrOp(i, t) ==
    LET o == PO(i, <<t, "o">>, <<"r1", "r2">>)
        n == PI(i, <<t, "n">>, 0, 6)
        a == [k \in 1..n |-> IF PI(i, <<t, "z", k>>, 1, 5) = 1 THEN "0" ELSE U(i, <<t, "v", k>>, "0", "90")]
        at == PI(i, <<t, "at">>, 1, 6)
    IN [op |-> "recarr", o |-> o, field |-> PO(i, <<t, "f">>, Arrays),
        v |-> IF at <= n /\ PI(i, <<t, "bad">>, 1, 2) = 1 THEN [a EXCEPT ![at] = PO(i, <<t, "nv">>, <<"-1", "-1e-9", "-50", "-inf">>)] ELSE a]
C23(i) == SubSeq(C24(i), 1, 2) \o [t \in 1..24 |-> LET k == PI(i, <<t, "kind">>, 1, 8) IN
             CASE k <= 2 -> MakeOp(i, t, TRUE) [] k <= 6 -> SetOp(i, t) [] OTHER -> ArrOp(i, t)]
Ops(i) == CASE Prop = "C21" -> C21(i) [] Prop = "C22" -> C22(i) [] Prop = "C23" -> C23(i) [] Prop = "C24" -> C24(i)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> [sid |-> i, ops |-> Ops(i)]])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

------------------------------- MODULE GenXFoil -------------------------------
(* Scripts for the XFoil reader.                                             *)
EXTENDS XFoil, Json, IOUtils
Seed == IOEnv.SEED
Prop == IOEnv.PROP
N == atoi(IOEnv.N)
PO(i, tag, s) == PickOf(<<Seed, Prop, i, tag>>, s)
PI(i, tag, a, b) == Pick(<<Seed, Prop, i, tag>>, a, b)
\* short tokens: the columns of a wake row have to fit in a short line
U(i, tag, a, b) == FRound(Unif(<<Seed, Prop, i, tag>>, a, b), 4)
W(i, tag, a, b) == FRound(Unif(<<Seed, Prop, i, tag>>, a, b), 3)
Maybe0(i, t, v) == IF PI(i, <<t, "z">>, 1, 8) = 1 THEN "0" ELSE v

\* an airfoil: nu rows above the stagnation point, perhaps a row at it, nl rows below
Air(i, t) ==
    LET \* now and then a long table
        most(s) == IF PI(i, <<t, "long", s>>, 1, 15) = 1 THEN 30 ELSE 6
        nu == PI(i, <<t, "nu">>, 1, most("u"))
        zero == PI(i, <<t, "zero">>, 1, 4) = 1
        nl == PI(i, <<t, "nl">>, IF zero THEN 0 ELSE 1, most("l"))
        nz == IF zero THEN 1 ELSE 0
        n == nu + nz + nl
        \* arc lengths grow from the trailing edge of the upper side; sometimes two rows coincide
        step(k) == IF PI(i, <<t, "rep", k>>, 1, 12) = 1 THEN "0" ELSE U(i, <<t, "ds", k>>, "0.001", "0.4")
        s == TLCEval([k \in 1..n |-> FRound(FSum([j \in 1..k |-> step(j)]), 5)])
        s0 == IF PI(i, <<t, "s0">>, 1, 2) = 1 THEN "0" ELSE U(i, <<t, "s00">>, "0", "1")
        sgn(k) == IF k <= nu THEN "1" ELSE "-1"
        \* velocities next to the stagnation point may be tiny
        u(k) == IF zero /\ k = nu + 1 THEN "0"
                ELSE sgn(k) \otimes (IF PI(i, <<t, "tiny", k>>, 1, 6) = 1 THEN FRound(LogUnif(<<Seed, Prop, i, t, "lu", k>>, "1e-9", "1e-2"), 3)
                                     ELSE U(i, <<t, "u", k>>, "0.001", "1.8"))
    IN [k \in 1..n |->
         <<FRound(s0 \oplus s[k], 5), U(i, <<t, "x", k>>, "-0.1", "1"), U(i, <<t, "y", k>>, "-0.3", "0.3"),
           \* behind the stagnation point the sign does not matter any more
           IF k > nu + nz + 1 /\ PI(i, <<t, "odd", k>>, 1, 15) = 1 THEN FAbs(u(k)) ELSE u(k),
           Maybe0(i, <<t, "dd", k>>, U(i, <<t, "dd", k>>, "0.0001", "0.1")), Maybe0(i, <<t, "dm", k>>, U(i, <<t, "dm", k>>, "0.0001", "0.05")),
           Maybe0(i, <<t, "cf", k>>, U(i, <<t, "cf", k>>, "0.0001", "1")), U(i, <<t, "hd", k>>, "1", "5"), U(i, <<t, "hk", k>>, "1.4", "2"),
           U(i, <<t, "P", k>>, "-0.02", "0.1"), U(i, <<t, "m", k>>, "-0.1", "0.1"), U(i, <<t, "K", k>>, "-0.1", "0.1")>>]
WakeRows(i, t) ==
    LET n == PI(i, <<t, "nw">>, 0, IF PI(i, <<t, "long", "w">>, 1, 15) = 1 THEN 25 ELSE 4)
        \* behind the airfoil, or with arc lengths of its own
        low == PO(i, <<t, "low">>, <<-1, 2, 2, 6>>)
        s == TLCEval([k \in 1..n |-> W(i, <<t, "ws", k>>, FInt(low + k), FInt(low + 1 + k))])
    IN [k \in 1..n |-> <<s[k], W(i, <<t, "wx", k>>, "1", "3"), W(i, <<t, "wy", k>>, "-1", "1"), W(i, <<t, "wu", k>>, "0.1", "1.2"),
                         Maybe0(i, <<t, "wd", k>>, W(i, <<t, "wd", k>>, "0.001", "0.1")), W(i, <<t, "wm", k>>, "0.001", "0.1"), "0",
                         W(i, <<t, "wh", k>>, "1", "3")>>]
GoodFile(i, t) == [t |-> "gen", name |-> PO(i, <<t, "fn">>, <<"f1", "f2", "f 3">>), head |-> PI(i, <<t, "hd">>, 1, 2) = 1,
                   nl |-> PI(i, <<t, "end">>, 1, 3) > 1, air |-> Air(i, t), wake |-> WakeRows(i, t)]
ShippedFile(i, t) == [t |-> "shipped", name |-> PO(i, <<t, "sh">>, <<"inviscid", "viscous", "turbulent", "natural">>)]
NoFile == [t |-> "none"]
\* one broken row, anywhere
Spoil(i, t, row, wake) ==
    LET k == PI(i, <<t, "sp">>, 1, 7)
        n == Len(row)
        drop == PI(i, <<t, "dr">>, 1, n)
    IN CASE k = 1 -> SubSeq(row, 1, n - 1)
         [] k = 2 -> row \o <<"1.5">>
         [] k = 3 -> [row EXCEPT ![drop] = PO(i, <<t, "txt">>, <<"abc", "1.2.3", "--1", "*******">>)]
         [] k = 4 -> [row EXCEPT ![PO(i, <<t, "neg">>, IF wake THEN <<1, 5, 6, 8>> ELSE <<5, 6, 7, 8, 9>>)] = "-0.5"]
         [] k = 5 -> [row EXCEPT ![8] = "0"]
         [] k = 6 -> SubSeq(row, 1, 3)
         [] OTHER -> [row EXCEPT ![drop] = "1,5"]
BadFile(i, t) ==
    LET g == GoodFile(i, t)
        k == PI(i, <<t, "bf">>, 1, 14)
        na == Len(g.air)
        nw == Len(g.wake)
        \* late rows more often than not: something was read before
        ra == IF PI(i, <<t, "late">>, 1, 2) = 1 THEN na ELSE PI(i, <<t, "ra">>, 1, na)
        rw == IF nw = 0 THEN 0 ELSE PI(i, <<t, "rw">>, 1, nw)
    IN CASE k \in {1, 2} -> [t |-> "missing", name |-> PO(i, <<t, "fn">>, <<"f1", "f2", "f4">>)]
         [] k = 3 -> [g EXCEPT !.air = <<>>, !.wake = <<>>]
         [] k = 4 -> [g EXCEPT !.air = [j \in 1..na |-> [g.air[j] EXCEPT ![4] = FAbs(@) \oplus "0.1"]]]
         [] k = 5 -> [g EXCEPT !.air = [j \in 1..na |-> [g.air[j] EXCEPT ![4] = FNeg(FAbs(@) \oplus "0.1")]]]
         \* rows before the first one of the wake, or on the wrong side of the stagnation point
         [] k = 11 /\ nw > 1 -> [g EXCEPT !.wake[nw][1] = W(i, <<t, "back">>, "0.001", "0.9") \otimes g.wake[1][1]]
         [] k = 12 /\ "0" \prec g.air[1][1] -> [g EXCEPT !.air[na][1] = "0"]
         \* blank lines
         [] k = 13 -> [g EXCEPT !.air[ra] = <<>>, !.nl = TRUE]
         [] k = 14 -> [g EXCEPT !.wake = Append(@, <<>>), !.nl = TRUE]
         [] k \in {6, 7} /\ rw > 0 -> [g EXCEPT !.wake[rw] = Spoil(i, t, @, TRUE)]
         [] OTHER -> [g EXCEPT !.air[ra] = Spoil(i, t, @, FALSE)]

NewR(o, f, arg) == [op |-> "new", o |-> o, file |-> f, arg |-> arg]
Load(o, f) == [op |-> "load", o |-> o, file |-> f]
SetCase(i, t, o) ==
    LET k == PI(i, <<t, "sc">>, 1, 8) IN
    IF k = 8 THEN [op |-> "set", o |-> o, field |-> "name", v |-> PO(i, <<t, "nm">>, <<"NACA 0012", "x", "e387">>)]
    ELSE LET f == CaseFields[k]
             bad == f \in {"u_ref", "c", "reynolds", "n_trans"} /\ PI(i, <<t, "scb">>, 1, 3) = 1
         IN [op |-> "set", o |-> o, field |-> f,
             v |-> IF bad THEN PO(i, <<t, "scv">>, IF f = "reynolds" THEN <<"-1", "-1e-9", "-inf">> ELSE <<"0", "-1", "-1e-9", "-inf">>)
                   ELSE IF f = "reynolds" /\ PI(i, <<t, "re0">>, 1, 3) = 1 THEN "0"
                   ELSE IF f \in {"alpha", "x_trans_upper", "x_trans_lower"} THEN U(i, <<t, "scg">>, "-1", "1") ELSE U(i, <<t, "scg">>, "0.01", "50")]
\* the first rows always exist in a loaded reader
TouchOp(i, t, o) ==
    LET side == PO(i, <<t, "side">>, <<"upper", "lower", "wake">>) IN
    [op |-> "touch", o |-> o, side |-> side, i |-> 1, field |-> PO(i, <<t, "tf">>, IF side = "wake" THEN WakeCols ELSE AirCols), v |-> U(i, <<t, "tv">>, "0.1", "9")]
Scribble(o) == [op |-> "scribble", o |-> o]

C19(i) ==
    LET f1 == IF PI(i, "ship", 1, 15) = 1 THEN ShippedFile(i, 1) ELSE GoodFile(i, 1)
        f2 == GoodFile(i, 2)
    IN <<NewR("a", f1, TRUE), [op |-> "set", o |-> "a", field |-> "u_ref", v |-> U(i, "ur", "0.1", "90")],
         TouchOp(i, 3, "a"), Scribble("a"), Load("a", f2), TouchOp(i, 4, "a"),
         [op |-> "set", o |-> "a", field |-> "u_ref", v |-> U(i, "ur2", "0.1", "90")]>>
RECURSIVE Walk(_, _, _, _, _)
\* loaded: readers that hold rows
Walk(i, t, last, loaded, acc) ==
    IF t > last THEN acc
    ELSE LET o == PO(i, <<t, "o">>, <<"a", "a", "b">>)
             k == PI(i, <<t, "k">>, 1, 12)
             f == CASE k <= 3 -> GoodFile(i, t) [] k <= 7 -> BadFile(i, t) [] OTHER -> NoFile
             op == CASE k <= 7 -> Load(o, f) [] k = 8 -> Load(o, NoFile) [] k = 9 /\ o \in loaded -> TouchOp(i, t, o)
                     [] k = 10 -> Scribble(o) [] OTHER -> SetCase(i, t, o)
             l2 == IF op.op # "load" THEN loaded ELSE IF f.t # "none" /\ Readable(op, f) THEN loaded \cup {o} ELSE loaded \ {o}
         IN Walk(i, t + 1, last, l2, Append(acc, op))
C20(i) ==
    LET f == GoodFile(i, "a") g == GoodFile(i, "b")
        na == CASE PI(i, "na", 1, 4) = 1 -> NewR("a", NoFile, FALSE) [] PI(i, "na", 1, 4) = 2 -> NewR("a", NoFile, TRUE) [] OTHER -> NewR("a", f, TRUE)
    \* both readers may have read the same file
    IN <<NewR("c", BadFile(i, "c"), TRUE), na, NewR("b", IF PI(i, "nb", 1, 2) = 1 THEN f ELSE g, TRUE)>>
       \o Walk(i, 1, 9, {"b"} \cup (IF na.file.t = "none" THEN {} ELSE {"a"}), <<>>)

\* C23: records on their own
RecOp(i, t) ==
    LET kind == PO(i, <<t, "kd">>, <<"air", "wake">>)
        o == IF kind = "air" THEN PO(i, <<t, "o">>, <<"a1", "a2">>) ELSE PO(i, <<t, "o">>, <<"w1", "w2">>)
        good == IF kind = "air" THEN Air(i, t)[1] ELSE
                <<W(i, <<t, "ws">>, "0", "3"), W(i, <<t, "wx">>, "1", "3"), W(i, <<t, "wy">>, "-1", "1"), W(i, <<t, "wu">>, "0.1", "1.2"),
                  Maybe0(i, <<t, "wd">>, W(i, <<t, "wd">>, "0.001", "0.1")), W(i, <<t, "wm">>, "0.001", "0.1"), "0", W(i, <<t, "wh">>, "1", "3")>>
        k == PI(i, <<t, "k">>, 1, 12)
        row == CASE k <= 2 -> good [] k = 3 -> Spoil(i, t, good, kind = "wake") [] OTHER -> <<>>
        cols == IF kind = "air" THEN AirCols ELSE WakeCols
        f == PO(i, <<t, "f">>, cols)
    IN IF k <= 4 THEN [op |-> PO(i, <<t, "rr">>, <<"rec", "recreset">>), t |-> kind, o |-> o, row |-> row]
       ELSE [op |-> "recset", t |-> kind, o |-> o, field |-> f,
             v |-> CASE k <= 7 -> U(i, <<t, "v">>, "0.001", "9") [] k = 8 -> "0" [] k = 9 -> U(i, <<t, "v">>, "-3", "-0.001")
                     [] k = 10 -> PO(i, <<t, "v">>, <<"-1e-12", "1e-12", "-1e300", "1e300">>)
                     [] k = 11 -> PO(i, <<t, "v">>, <<"inf", "-inf">>) [] OTHER -> PO(i, <<t, "v">>, <<"-1", "1", "5">>)]
C23(i) ==
    LET g == Air(i, "g")[1] IN
    <<[op |-> "rec", t |-> "air", o |-> "a1", row |-> g], [op |-> "rec", t |-> "air", o |-> "a2", row |-> <<>>],
      [op |-> "rec", t |-> "wake", o |-> "w1", row |-> <<>>], [op |-> "rec", t |-> "wake", o |-> "w2", row |-> <<"1", "2", "3", "4", "5", "6", "7", "8">>]>>
    \o [t \in 1..30 |-> RecOp(i, t)]
Ops(i) == CASE Prop = "C19" -> C19(i) [] Prop = "C20" -> C20(i) [] Prop = "C23" -> C23(i)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> [sid |-> i, ops |-> Ops(i)]])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

------------------------------ MODULE GenClosure ------------------------------
EXTENDS Closure, Json, IOUtils
Seed == IOEnv.SEED
Prop == IOEnv.PROP
N == atoi(IOEnv.N)
PO(i, tag, s) == PickOf(<<Seed, Prop, i, tag>>, s)
PI(i, tag, a, b) == Pick(<<Seed, Prop, i, tag>>, a, b)
U(i, tag, a, b) == Unif(<<Seed, Prop, i, tag>>, a, b)
LU(i, tag, a, b) == LogUnif(<<Seed, Prop, i, tag>>, a, b)

WholeOf(s) == FInt(FTrunc(s))
H(i, k) == LET m == PI(i, <<"hm", k>>, 1, 10) IN
    CASE m <= 5 -> U(i, <<"h", k>>, "1.05", "2.95") [] m = 6 -> U(i, <<"h", k>>, "2.9", "3.1")
      [] m = 7 -> U(i, <<"h", k>>, "3", "6") [] m = 8 -> "2.9986313485" [] m = 9 -> U(i, <<"h", k>>, "0.5", "1")
      [] OTHER -> PO(i, <<"h", k>>, <<"1", "2", "3", "2.998", "2.9987">>)
Re(i, k) == LET m == PI(i, <<"rm", k>>, 1, 6) IN
    CASE m <= 4 -> LU(i, <<"r", k>>, "20", "1e6") [] m = 5 -> LU(i, <<"r", k>>, "2", "50")
      [] OTHER -> PO(i, <<"r", k>>, <<"100", "1000", "10">>)
Modes == <<"float", "npfloat", "int", "zerod", "array", "array2", "array", "ints", "strided">>
Cf(i, j) ==
    LET t(x) == <<j, x>>
        n == IF PI(i, t("nb"), 1, 15) = 1 THEN 2 * PI(i, t("nn"), 15, 40) ELSE 2 * PI(i, t("n"), 1, 5)
        rm0 == PO(i, t("rm"), Modes)
        hm0 == PO(i, t("hm"), Modes)
        \* two arrays have to have the same shape
        hm == IF rm0 \notin ScalarModes /\ hm0 \notin ScalarModes /\ (rm0 = "array2" \/ hm0 = "array2")
              THEN IF rm0 = "array2" THEN "array2" ELSE "array" ELSE hm0
        rm == IF rm0 \notin ScalarModes /\ hm \notin ScalarModes /\ hm = "array2" THEN "array2" ELSE rm0
        re == [k \in 1..n |-> IF rm \in {"int", "ints"} THEN WholeOf(Re(i, t(k))) ELSE Re(i, t(k))]
        h == [k \in 1..n |-> IF hm \in {"int", "ints"} THEN FInt(PI(i, t(<<"hi", k>>), 1, 4)) ELSE H(i, t(k))]
    IN [op |-> "cf", fn |-> PO(i, t("fn"), <<"lt", "felsch", "white">>), re |-> re, h |-> h, rem |-> rm, hm |-> hm,
        frozen |-> PI(i, t("fz"), 1, 2) = 1]

FsOp(i, j, o) == [op |-> "ic", o |-> o, t |-> "fs", du |-> LU(i, <<j, "du">>, "1e-3", "1e4"), nu |-> LU(i, <<j, "nu">>, "1e-8", "1e3")]
ManOp(i, j, o) == [op |-> "ic", o |-> o, t |-> "man", dd |-> LU(i, <<j, "dd">>, "1e-6", "1"), dm |-> LU(i, <<j, "dm">>, "1e-6", "1"),
                   dk |-> LU(i, <<j, "dk">>, "1e-6", "1")]
IcOp(i, j) ==
    LET m == PI(i, <<j, "m">>, 1, 12)
        o == PO(i, <<j, "o">>, <<"a", "b">>)
        set(f, v) == [op |-> "set", o |-> o, field |-> f, v |-> v]
        \* "a" is the stagnation condition, "b" the manual one
    IN CASE m = 1 -> FsOp(i, j, "a") [] m = 2 -> ManOp(i, j, "b")
         [] m \in {3, 4} -> set("nu", LU(i, <<j, "v">>, "1e-8", "1e3"))
         [] m \in {5, 6} -> set("du_e", LU(i, <<j, "v">>, "1e-3", "1e4"))
         [] m \in {7, 8} -> set("nu", PO(i, <<j, "v">>, <<"0", "-1", "-1e-9", "-inf">>))
         [] m = 9 -> [FsOp(i, j, "a") EXCEPT !.nu = PO(i, <<j, "v">>, <<"0", "-1e-5">>)]
         [] OTHER -> [set(PO(i, <<j, "f">>, <<"del_d", "del_m", "del_k">>), LU(i, <<j, "v">>, "1e-6", "1")) EXCEPT !.o = "b"]
Ops(i) == IF Prop = "C15" THEN <<FsOp(i, 0, "a"), ManOp(i, 0, "b")>> \o [j \in 1..8 |-> IcOp(i, j)]
          ELSE [j \in 1..6 |-> Cf(i, j)]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> [sid |-> i, ops |-> Ops(i)]])
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================

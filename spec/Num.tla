-------------------------------- MODULE Num ---------------------------------
(* Helpers over doubles: comparisons with tolerance, sums, polynomials,     *)
(* interpolation, quadrature and root finding.                              *)
EXTENDS Float64, Sequences, Integers, TLC

\* SequencesExt brings in Bags, whose \oplus is not ours
LOCAL SX == INSTANCE SequencesExt
FoldLeft(op(_, _), base, s) == SX!FoldLeft(op, base, s)
Reverse(s) == SX!Reverse(s)

FMax(a, b) == IF a \prec b THEN b ELSE a
FMin(a, b) == IF b \prec a THEN b ELSE a
FNeg(a)    == FSub("0", a)
FSq(a)     == a \otimes a
FCube(a)   == a \otimes a \otimes a

\* |a - b| <= atol + rtol*max(|a|,|b|), false when not finite
Close(a, b, rtol, atol) ==
    /\ FIsNum(a) /\ FIsNum(b) /\ FFinite(a) /\ FFinite(b)
    /\ FAbs(FSub(a, b)) \preceq (atol \oplus (rtol \otimes FMax(FAbs(a), FAbs(b))))

Num(a) == FIsNum(a) /\ FFinite(a)
AllNum(s) == \A i \in 1..Len(s) : Num(s[i])

\* the same double, or the same token
Same(a, b) == a = b \/ (FIsNum(a) /\ FIsNum(b) /\ FEq(a, b))
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i])
CloseSeq(s, t, rtol, atol) ==
    Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i]) \/ Close(s[i], t[i], rtol, atol)

FSum(s) == FoldLeft(LAMBDA acc, v : acc \oplus v, "0", s)
FMaxAbs(s) == FoldLeft(LAMBDA acc, v : FMax(acc, FAbs(v)), "0", s)
FMinOf(s) == FoldLeft(LAMBDA acc, v : FMin(acc, v), s[1], s)
FMaxOf(s) == FoldLeft(LAMBDA acc, v : FMax(acc, v), s[1], s)

\* c[1] + c[2] x + c[3] x^2 + ...  by Horner
Poly(c, x) == FoldLeft(LAMBDA acc, v : (acc \otimes x) \oplus v, "0", Reverse(c))
PolyD(c) == IF Len(c) <= 1 THEN <<"0">>
            ELSE [i \in 1..(Len(c) - 1) |-> FInt(i) \otimes c[i + 1]]

\* index k of the interval x[k] <= v < x[k+1] (ends clipped), by bisection
RECURSIVE FindIn(_, _, _, _)
FindIn(x, v, lo, hi) ==
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF x[m] \preceq v THEN FindIn(x, v, m, hi) ELSE FindIn(x, v, lo, m)
Interval(x, v) == FindIn(x, v, 1, Len(x))

\* cubic Hermite on [x0,x1] and its first two derivatives
Herm(x0, x1, y0, y1, d0, d1, v) ==
    LET h == x1 \ominus x0
        t == (v \ominus x0) \oslash h
        s == (y1 \ominus y0) \oslash h
        \* y = y0 + h t (d0 + t (3s-2d0-d1) + t^2 (d0+d1-2s))
        a == ("3" \otimes s) \ominus ("2" \otimes d0) \ominus d1
        b == (d0 \oplus d1) \ominus ("2" \otimes s)
    IN [v  |-> y0 \oplus (h \otimes t \otimes (d0 \oplus (t \otimes (a \oplus (t \otimes b))))),
        d  |-> d0 \oplus (t \otimes (("2" \otimes a) \oplus ("3" \otimes t \otimes b))),
        d2 |-> (("2" \otimes a) \oplus ("6" \otimes t \otimes b)) \oslash h]

\* Simpson's rule on one panel
Simpson(a, b, fa, fm, fb) ==
    ((b \ominus a) \oslash "6") \otimes (fa \oplus ("4" \otimes fm) \oplus fb)

\* root of a function with f(lo) < 0 < f(hi) (or reversed), by bisection
RECURSIVE Bisect(_, _, _, _)
Bisect(f(_), lo, hi, n) ==
    LET m == (lo \oplus hi) \oslash "2"
    IN IF n = 0 THEN m
       ELSE IF ("0" \prec f(m)) = ("0" \prec f(lo)) THEN Bisect(f, m, hi, n - 1)
            ELSE Bisect(f, lo, m, n - 1)

\* uniform on [lo,hi] with k significant digits, as a function of the key
Unif(key, lo, hi) == FRound(lo \oplus (FUnif(ToString(key)) \otimes (hi \ominus lo)), 6)
\* log-uniform
LogUnif(key, lo, hi) == FRound(FExp(FLn(lo) \oplus (FUnif(ToString(key)) \otimes (FLn(hi) \ominus FLn(lo)))), 6)
\* integer in lo..hi
Pick(key, lo, hi) == lo + FTrunc(FUnif(ToString(key)) \otimes FInt(hi - lo + 1))
PickOf(key, seq) == seq[Pick(key, 1, Len(seq))]

Linspace(a, b, n) == [i \in 1..n |-> a \oplus ((b \ominus a) \otimes (FInt(i - 1) \oslash FInt(n - 1)))]
=============================================================================

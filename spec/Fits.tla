-------------------------------- MODULE Fits --------------------------------
(***************************************************************************)
(* Closure relations: Thwaites' data fits, skin-friction correlations and   *)
(* Head's entrainment relations.                                            *)
(***************************************************************************)
EXTENDS FunCat

----------------------------------------------------------------------------
\* Thwaites' table (modern values)
TabLam == <<"-0.090","-0.088","-0.086","-0.084","-0.080","-0.076","-0.072","-0.068","-0.064",
            "-0.060","-0.056","-0.052","-0.048","-0.040","-0.032","-0.016","0.000","0.016",
            "0.032","0.048","0.064","0.080","0.100","0.120","0.140","0.200","0.250">>
TabS == <<"0.000","0.015","0.027","0.038","0.056","0.072","0.085","0.095","0.104",
          "0.113","0.122","0.130","0.138","0.153","0.168","0.195","0.220","0.244",
          "0.268","0.291","0.313","0.333","0.359","0.382","0.404","0.463","0.500">>
TabH == <<"3.55","3.49","3.44","3.39","3.30","3.22","3.15","3.09","3.04",
          "2.99","2.94","2.90","2.87","2.81","2.75","2.67","2.61","2.55",
          "2.49","2.44","2.39","2.34","2.28","2.23","2.18","2.07","2.00">>

\* slopes of the not-a-knot cubic spline through (x,y): tridiagonal system a s- + b s + c s+ = r
SplineSlopes(x, y) ==
    LET n == Len(x)
        dx == [i \in 1..(n-1) |-> x[i+1] \ominus x[i]]
        sl == [i \in 1..(n-1) |-> (y[i+1] \ominus y[i]) \oslash dx[i]]
        d0 == x[3] \ominus x[1]
        dn == x[n] \ominus x[n-2]
        row(i) ==
          IF i = 1 THEN [a |-> "0", b |-> dx[2], c |-> d0,
               r |-> (((dx[1] \oplus ("2" \otimes d0)) \otimes dx[2] \otimes sl[1])
                       \oplus (FSq(dx[1]) \otimes sl[2])) \oslash d0]
          ELSE IF i = n THEN [a |-> dn, b |-> dx[n-2], c |-> "0",
               r |-> ((FSq(dx[n-1]) \otimes sl[n-2])
                       \oplus ((("2" \otimes dn) \oplus dx[n-1]) \otimes dx[n-2] \otimes sl[n-1])) \oslash dn]
          ELSE [a |-> dx[i], b |-> "2" \otimes (dx[i-1] \oplus dx[i]), c |-> dx[i-1],
                r |-> "3" \otimes ((dx[i] \otimes sl[i-1]) \oplus (dx[i-1] \otimes sl[i]))]
        \* forward elimination: sequence of <<c', r'>>
        fwd == FoldLeft(LAMBDA acc, i :
                 LET w == row(i)
                     pc == IF i = 1 THEN "0" ELSE acc[i-1][1]
                     pr == IF i = 1 THEN "0" ELSE acc[i-1][2]
                     den == w.b \ominus (w.a \otimes pc)
                 IN Append(acc, <<w.c \oslash den, (w.r \ominus (w.a \otimes pr)) \oslash den>>),
               <<>>, [i \in 1..n |-> i])
        \* back substitution, built from the end
        bwd == FoldLeft(LAMBDA acc, j :
                 LET i == n + 1 - j
                     nx == IF j = 1 THEN "0" ELSE Head(acc)
                 IN <<fwd[i][2] \ominus (fwd[i][1] \otimes nx)>> \o acc,
               <<>>, [j \in 1..n |-> j])
    IN bwd

SlopeS == SplineSlopes(TabLam, TabS)
SlopeH == SplineSlopes(TabLam, TabH)

SplineAt(y, s, v) ==
    LET k == Interval(TabLam, v)
    IN Herm(TabLam[k], TabLam[k+1], y[k], y[k+1], s[k], s[k+1], v)

----------------------------------------------------------------------------
\* A fit is [t |-> name] or [t |-> "custom", sh |-> F, hh |-> F, hp |-> F or [t |-> "none"]]
FitLo(fit) == CASE fit.t = "Spline" -> "-0.09" [] fit.t = "White" -> "-0.09"
                [] fit.t = "Cebeci-Bradshaw" -> "-0.1" [] fit.t = "Drela" -> "-0.09"
                [] fit.t = "custom" -> "-inf"
FitHi(fit) == CASE fit.t = "Spline" -> "0.25" [] fit.t = "Cebeci-Bradshaw" -> "0.1"
                [] OTHER -> "inf"
Limit(fit, lam) == FMin(FMax(lam, FitLo(fit)), FitHi(fit))

ShearRaw(fit, l) ==
    CASE fit.t = "Spline" -> SplineAt(TabS, SlopeS, l).v
      [] fit.t = "White" -> FPow(l \oplus "0.09", "0.62")
      [] fit.t = "Cebeci-Bradshaw" ->
           IF l \prec "0" THEN "0.22" \oplus ("1.402" \otimes l) \oplus (("0.018" \otimes l) \oslash ("0.107" \oplus l))
           ELSE ("0.22" \oplus ("1.57" \otimes l)) \ominus ("1.8" \otimes FSq(l))
      [] fit.t = "Drela" -> (("0.220" \oplus ("1.52" \otimes l)) \ominus ("5" \otimes FCube(l)))
                              \ominus (("0.072" \otimes FSq(l)) \oslash FSq(l \oplus "0.18"))
      [] fit.t = "custom" -> FEval(fit.sh, l)

ShapeRaw(fit, l) ==
    CASE fit.t = "Spline" -> SplineAt(TabH, SlopeH, l).v
      [] fit.t = "White" -> Poly(<<"2", "4.14", "-83.5", "854", "-3337", "4576">>, "0.25" \ominus l)
      [] fit.t = "Cebeci-Bradshaw" ->
           IF l \prec "0" THEN "2.088" \oplus ("0.0731" \oslash ("0.14" \oplus l))
           ELSE ("2.61" \ominus ("3.75" \otimes l)) \oplus ("5.24" \otimes FSq(l))
      [] fit.t = "Drela" -> (("2.61" \ominus ("4.1" \otimes l)) \oplus ("14" \otimes FCube(l)))
                              \oplus (("0.56" \otimes FSq(l)) \oslash FSq(l \oplus "0.18"))
      [] fit.t = "custom" -> FEval(fit.hh, l)

ShapePRaw(fit, l) ==
    CASE fit.t = "Spline" -> SplineAt(TabH, SlopeH, l).d
      [] fit.t = "White" -> FNeg(Poly(PolyD(<<"2", "4.14", "-83.5", "854", "-3337", "4576">>), "0.25" \ominus l))
      [] fit.t = "Cebeci-Bradshaw" ->
           IF l \prec "0" THEN "-0.0731" \oslash FSq("0.14" \oplus l)
           ELSE "-3.75" \oplus ("10.48" \otimes l)
      [] fit.t = "Drela" -> ("-4.1" \oplus ("42" \otimes FSq(l)))
                              \oplus (("0.2016" \otimes l) \oslash FCube(l \oplus "0.18"))
      [] fit.t = "custom" -> IF fit.hp.t = "none" THEN FEvalD(fit.hh, l) ELSE FEval(fit.hp, l)

Shear(fit, lam)  == ShearRaw(fit, Limit(fit, lam))
Shape(fit, lam)  == ShapeRaw(fit, Limit(fit, lam))
ShapeP(fit, lam) == ShapePRaw(fit, Limit(fit, lam))

\* where shear vanishes, searching down from lambda = 0
LamSepCB == Bisect(LAMBDA l : ShearRaw([t |-> "Cebeci-Bradshaw"], l), "-0.0999", "0", 60)
HasSep(fit) == fit.t # "Drela"
LamSep(fit) ==
    CASE fit.t \in {"Spline", "White"} -> "-0.09"
      [] fit.t = "Cebeci-Bradshaw" -> LamSepCB
      [] fit.t = "custom" -> Bisect(LAMBDA l : FEval(fit.sh, l), "-0.17", "0", 60)

\* lambda is a place where the shear vanishes (the shear of Drela's fit and of
\* custom fits has a second zero at a large positive lambda)
SepAt(fit, l) ==
    \/ HasSep(fit) /\ Close(l, LamSep(fit), "0", "1e-6")
    \/ fit.t \in {"Drela", "custom"} /\ "0.2" \prec l /\ FAbs(Shear(fit, l)) \prec "1e-6"

\* right-hand side of Thwaites' equation before division by the velocity
ThwaitesF(kind, fit, lam) ==
    IF kind = "TL" THEN "0.45" \ominus ("6" \otimes lam)
    ELSE "2" \otimes (Shear(fit, lam) \ominus (lam \otimes (Shape(fit, lam) \oplus "2")))

----------------------------------------------------------------------------
\* skin friction
LudwiegTillman(re, h) == "0.246" \oslash (FPow(re, "0.268") \otimes FPow("10", "0.678" \otimes h))
FelschSep == "2.9986313485"
Felsch(re, h) ==
    LET hc == FMin(FMax(h, "1"), FelschSep)
        b  == "0.93" \ominus ("1.95" \otimes FLog10(hc))
    IN ("0.058" \otimes FPow(b, "1.705")) \oslash FPow(re, "0.268")
WhiteCf(re, h) == ("0.3" \otimes FExp("-1.33" \otimes h))
                    \oslash FPow(FLog10(re), "1.74" \oplus ("0.31" \otimes h))

----------------------------------------------------------------------------
\* Head's entrainment relations
H1(h) == IF h \preceq "1.6" THEN "3.3" \oplus ("0.8234" \oslash FPow(h \ominus "1.1", "1.287"))
         ELSE "3.32254659218600974" \oplus ("1.5501" \oslash FPow(h \ominus "0.6778", "3.064"))
H1P(h) == IF h \preceq "1.6" THEN FNeg(("0.8234" \otimes "1.287") \oslash FPow(h \ominus "1.1", "2.287"))
          ELSE FNeg(("1.5501" \otimes "3.064") \oslash FPow(h \ominus "0.6778", "4.064"))
Entrain(h1) == "0.0306" \oslash FPow(h1 \ominus "3", "0.6169")

\* derivatives of momentum thickness and shape factor
HeadRhs(nu, u, du, dm, h) ==
    LET ul == FMax(u, "0.001")
        hl == FMax(h, "1.11")
        cf == LudwiegTillman((ul \otimes dm) \oslash nu, hl)
        p0 == ("0.5" \otimes cf) \ominus (((dm \otimes ("2" \oplus hl)) \otimes du) \oslash ul)
        g  == H1(hl)
        p1 == (((ul \otimes Entrain(g)) \ominus (ul \otimes p0 \otimes g)) \ominus (du \otimes dm \otimes g))
                \oslash (H1P(hl) \otimes ul \otimes dm)
    IN <<p0, p1>>
=============================================================================

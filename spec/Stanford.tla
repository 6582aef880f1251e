------------------------------- MODULE Stanford -------------------------------
(***************************************************************************)
(* The 1968 Stanford Olympics cases.  A case file is a record                *)
(*   id, nu      the case number and its viscosity                           *)
(*   summ        one row of 11 columns per station                           *)
(*   smooth      rows of 3 columns: the smoothed edge velocity               *)
(*   stat        <<>> or one row of 13 columns per station                   *)
(*   det         <<>> or for each station rows of 6 columns: the profile     *)
(* Columns are doubles in the units of the file: metric (m, m/s, cm, cm^2/s) *)
(* or English (ft, ft/s, in, ft^2/s).  What is reported is in SI units.      *)
(***************************************************************************)
EXTENDS Num

Foot == "0.3048"
Inch == "0.0254"
Cm == "0.01"
LenX(si, v) == IF si THEN v ELSE v \otimes Foot       \* lengths along the wall and velocities
LenY(si, v) == v \otimes (IF si THEN Cm ELSE Inch)    \* thicknesses and distances from the wall
Visc(si, v) == v \otimes (IF si THEN "0.0001" ELSE Foot \otimes Foot)

----------------------------------------------------------------------------
(* Stations                                                                 *)
Scalars == <<"x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp", "beta_eq",
             "u_star", "nu", "delta_d", "delta_k", "delta_c", "re_delta_m", "re_delta_d">>
Arrays == <<"y_plus", "u_plus", "y", "u", "y_c", "u_defect">>
Free == {"x", "du_e", "c_f", "c_f_lt", "c_f_exp", "beta_eq"}
ScalarOk(f, v) == f \in Free \/ "0" \prec v
ArrayOk(a) == \A k \in 1..Len(a) : "0" \preceq a[k]
\* without a detail row these are not known
OnlyDetail == {"nu", "delta_c", "re_delta_m", "re_delta_d"}

AllNumbers(r, n) == Len(r) = n /\ \A k \in 1..n : FIsNum(r[k])
FromSumm(si, r) ==
    LET ue == LenX(si, r[2]) dm == LenY(si, r[4]) IN
    [x |-> LenX(si, r[1]), u_e |-> ue, du_e |-> r[3], delta_m |-> dm, shape_d |-> r[5], shape_k |-> r[6],
     shape_eq |-> r[7], c_f |-> r[8], c_f_lt |-> r[9], c_f_exp |-> r[10], beta_eq |-> r[11],
     u_star |-> ue \otimes FSqrt(r[8] \oslash "2"), delta_d |-> r[5] \otimes dm, delta_k |-> r[6] \otimes dm]
SummOk(si, r) == AllNumbers(r, 11) /\ LET s == FromSumm(si, r) IN \A f \in DOMAIN s : ScalarOk(f, s[f])
FromStat(si, r) ==
    [x |-> LenX(si, r[1]), u_star |-> LenX(si, r[2]), u_e |-> LenX(si, r[3]), nu |-> Visc(si, r[4]),
     delta_m |-> LenY(si, r[5]), delta_d |-> LenY(si, r[6]), delta_k |-> LenY(si, r[7]), delta_c |-> LenY(si, r[8]),
     shape_d |-> r[9], shape_eq |-> r[10], shape_k |-> r[11], re_delta_m |-> r[12], re_delta_d |-> r[13]]
StatOk(si, r) == AllNumbers(r, 13) /\ LET s == FromStat(si, r) IN \A f \in DOMAIN s : ScalarOk(f, s[f])
\* how far the detail row is from the summary row, in units of what is tolerated
StatOff(s, d) ==
    [x |-> FAbs(d.x \ominus s.x) \oslash "0.002",
     u_e |-> FAbs(d.u_e \ominus s.u_e) \oslash "0.06",
     delta_m |-> FAbs(d.delta_m \ominus s.delta_m) \oslash "0.002",
     shape_d |-> FAbs(d.shape_d \ominus s.shape_d) \oslash "0.002",
     shape_k |-> FAbs(d.shape_k \ominus s.shape_k) \oslash "0.002",
     shape_eq |-> FAbs(d.shape_eq \ominus s.shape_eq) \oslash "0.002",
     delta_d |-> FAbs(d.delta_d \ominus s.delta_d) \oslash "0.005",
     delta_k |-> FAbs(d.delta_k \ominus s.delta_k) \oslash "0.005",
     u_star |-> FAbs(d.u_star \ominus s.u_star) \oslash "0.005",
     re_delta_d |-> FAbs(d.re_delta_d \ominus ((s.u_e \otimes d.delta_d) \oslash d.nu)) \oslash "5",
     re_delta_m |-> FAbs(d.re_delta_m \ominus ((s.u_e \otimes d.delta_m) \oslash d.nu)) \oslash "5"]
\* a profile sample: y+, u+, y, u/u_e, y over Clauser thickness, velocity defect
Sample(si, d, r) ==
    LET u == d.u_e \otimes r[4] IN
    [y_plus |-> r[1], u_plus |-> r[2], y |-> LenY(si, r[3]), u |-> u, y_c |-> r[5], u_defect |-> r[6]]
SampleOff(d, m) ==
    [y_plus |-> FAbs(m.y_plus \ominus ((m.y \otimes d.u_star) \oslash d.nu)),
     y_c |-> FAbs(m.y_c \ominus (m.y \oslash d.delta_c)) \otimes "2",
     u_plus |-> FAbs(m.u_plus \ominus (m.u \oslash d.u_star)) \otimes "2",
     u_defect |-> FAbs(m.u_defect \ominus ((d.u_e \ominus m.u) \oslash d.u_star)) \otimes "2"]
SampleOk(m) == \A f \in DOMAIN m : "0" \preceq m[f]

\* the verdict on a station: "ok", "bad", or "near" when a quantity is at its limit, to rounding
Inside == "0.98"
Outside == "1.02"
Grade(off) == IF \E f \in DOMAIN off : Outside \preceq off[f] THEN "bad"
              ELSE IF \A f \in DOMAIN off : off[f] \preceq Inside THEN "ok" ELSE "near"
RECURSIVE Worst(_)
Worst(g) == IF \E k \in 1..Len(g) : g[k] = "bad" THEN "bad" ELSE IF \E k \in 1..Len(g) : g[k] = "near" THEN "near" ELSE "ok"
RowGrade(si, d, r) ==
    IF ~AllNumbers(r, 6) THEN "bad"
    ELSE LET m == Sample(si, d, r) IN IF ~SampleOk(m) THEN "bad" ELSE Grade(SampleOff(d, m))
\* st: <<>> or a row; det: <<>> or rows (only with a detail row)
StationGrade(si, summ, st, det) ==
    IF ~SummOk(si, summ) THEN "bad"
    ELSE IF st = <<>> THEN "ok"
    ELSE IF ~StatOk(si, st) THEN "bad"
    ELSE LET s == FromSumm(si, summ) d == FromStat(si, st) IN
         Worst(<<Grade(StatOff(s, d))>> \o [k \in 1..Len(det) |-> RowGrade(si, d, det[k])])
\* a record made without a detail line has none of its quantities, whatever it held before
NoDetail == [nu |-> "inf", delta_c |-> "inf", re_delta_m |-> "inf", re_delta_d |-> "inf"]
\* detail values take precedence
Station(si, summ, st, det) ==
    LET s == FromSumm(si, summ)
        d == IF st = <<>> THEN NoDetail @@ s ELSE FromStat(si, st) @@ s
        rows == TLCEval([k \in 1..Len(det) |-> Sample(si, d, det[k])])
    IN [v |-> d, a |-> [f \in {"y_plus", "u_plus", "y", "u", "y_c", "u_defect"} |-> [k \in 1..Len(det) |-> rows[k][f]]]]

----------------------------------------------------------------------------
(* Cases                                                                    *)
SmoothOk(rows) == \A k \in 1..Len(rows) : AllNumbers(rows[k], 3)
StatRow(f, k) == IF f.stat = <<>> THEN <<>> ELSE f.stat[k]
DetRows(f, k) == IF f.det = <<>> THEN <<>> ELSE f.det[k]
CountsOk(f) == (f.stat = <<>> => f.det = <<>>) /\ (f.stat = <<>> \/ Len(f.stat) = Len(f.summ)) /\ (f.det = <<>> \/ Len(f.det) = Len(f.summ))
FileGrade(si, f) ==
    IF ~FIsNum(f.nu) \/ ~SmoothOk(f.smooth) \/ ~CountsOk(f) THEN "bad"
    ELSE Worst([k \in 1..Len(f.summ) |-> StationGrade(si, f.summ[k], StatRow(f, k), DetRows(f, k))])
NoCase == [case |-> "", nu |-> "inf", st |-> <<>>, sx |-> <<>>, su |-> <<>>, sd |-> <<>>]
CaseOf(si, id, f) ==
    [case |-> id, nu |-> Visc(si, f.nu),
     st |-> [k \in 1..Len(f.summ) |-> Station(si, f.summ[k], StatRow(f, k), DetRows(f, k))],
     sx |-> [k \in 1..Len(f.smooth) |-> LenX(si, f.smooth[k][1])],
     su |-> [k \in 1..Len(f.smooth) |-> LenX(si, f.smooth[k][2])],
     sd |-> [k \in 1..Len(f.smooth) |-> f.smooth[k][3]]]
=============================================================================

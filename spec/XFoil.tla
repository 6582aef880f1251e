-------------------------------- MODULE XFoil ---------------------------------
(***************************************************************************)
(* The XFoil dump reader.  A reader holds the rows of one file, split at the *)
(* stagnation point, and case information set by the user.  Rows are         *)
(* sequences of doubles in the order of the columns of the file.             *)
(***************************************************************************)
EXTENDS Num

AirCols == <<"s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d", "shape_k", "mom_defect", "mass_defect", "ke_defect">>
WakeCols == <<"s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d">>
ColNo(cols, f) == CHOOSE k \in 1..Len(cols) : cols[k] = f

----------------------------------------------------------------------------
(* Records: what each field may be                                          *)
FieldOk(f, v) ==
    CASE f \in {"s", "delta_d", "delta_m", "c_f"} -> "0" \preceq v
      [] f \in {"shape_d", "shape_k"} -> "0" \prec v
      [] OTHER -> TRUE
\* a row is read when every column is a number the field accepts
AirRowOk(r) == Len(r) = 12 /\ (\A k \in 1..12 : FIsNum(r[k])) /\ \A k \in 1..12 : FieldOk(AirCols[k], r[k])
\* wake rows carry an unused column before the shape factor
WakePick(r) == SubSeq(r, 1, 6) \o <<r[8]>>
WakeRowOk(r) == Len(r) = 8 /\ (\A k \in 1..8 : FIsNum(r[k])) /\ \A k \in 1..7 : FieldOk(WakeCols[k], WakePick(r)[k])
Blank(n) == [k \in 1..n |-> "inf"]

----------------------------------------------------------------------------
(* A file is [air |-> rows, wake |-> rows]; how it is split                  *)
FirstBelow(air) == \* the first row of negative velocity, or one past the end
    IF \E k \in 1..Len(air) : air[k][4] \prec "0"
    THEN CHOOSE k \in 1..Len(air) : air[k][4] \prec "0" /\ \A j \in 1..(k - 1) : ~(air[j][4] \prec "0")
    ELSE Len(air) + 1
\* the lower side runs against the arc length: velocity and the defects that contain it once change sign
Flip(r) == [r EXCEPT ![4] = FNeg(@), ![11] = FNeg(@), ![12] = FNeg(@)]
\* zero velocity between the innermost rows of both sides; the chord location is interpolated
\* through the leading edge, the two rows being on either side of it
StagBetween(up, lo) ==
    LET f == up[4] \oslash (up[4] \oplus lo[4]) IN
    [k \in 1..12 |-> CASE k = 4 -> "0"
                       [] k = 2 -> FAbs((("1" \ominus f) \otimes up[2]) \ominus (f \otimes lo[2]))
                       [] OTHER -> (("1" \ominus f) \otimes up[k]) \oplus (f \otimes lo[k])]
Split(air) ==
    LET k == FirstBelow(air)
        up == [j \in 1..(k - 1) |-> air[k - j]]
        lo == [j \in 1..(Len(air) - k + 1) |-> Flip(air[k + j - 1])]
        exact == FEq(up[1][4], "0")
        stag == IF exact THEN up[1] ELSE StagBetween(up[1], lo[1])
        up2 == IF exact THEN up ELSE <<stag>> \o up
        lo2 == <<stag>> \o lo
    IN [upper |-> [j \in 1..Len(up2) |-> [up2[j] EXCEPT ![1] = stag[1] \ominus @]],
        lower |-> [j \in 1..Len(lo2) |-> [lo2[j] EXCEPT ![1] = @ \ominus stag[1]]]]
\* there is a stagnation point: rows of both signs, or a row of zero velocity at the end
HasStag(air) == LET k == FirstBelow(air) IN
    k > 1 /\ (k <= Len(air) \/ FEq(air[k - 1][4], "0"))
Ordered(air) == \A k \in 1..(Len(air) - 1) : air[k][1] \preceq air[k + 1][1]
FileOk(f) ==
    /\ f.air # <<>> /\ (\A k \in 1..Len(f.air) : AirRowOk(f.air[k]))
    /\ (\A k \in 1..Len(f.wake) : WakeRowOk(f.wake[k]))
    /\ HasStag(f.air) /\ Ordered(f.air) /\ Ordered(f.wake)
WakeOf(rows) == [k \in 1..Len(rows) |-> [WakePick(rows[k]) EXCEPT ![1] = @ \ominus rows[1][1]]]

----------------------------------------------------------------------------
(* A reader                                                                 *)
CaseFields == <<"alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower">>
EmptyReader == [file |-> "", name |-> "", case |-> <<"inf", "1", "1", "0", "inf", "inf", "inf">>,
                upper |-> <<>>, lower |-> <<>>, wake |-> <<>>]
Loaded(name, f) == LET s == Split(f.air) IN
    [EmptyReader EXCEPT !.file = name, !.upper = s.upper, !.lower = s.lower, !.wake = WakeOf(f.wake)]
CaseOk(field, v) ==
    CASE field \in {"u_ref", "c", "n_trans"} -> "0" \prec v
      [] field = "reynolds" -> "0" \preceq v
      [] OTHER -> TRUE
\* a file operation: the rows come with it
Readable(op, f) == CASE op.file.t \in {"gen", "shipped"} -> FileOk(f) [] op.file.t = "missing" -> FALSE [] OTHER -> TRUE
AfterFile(op, f) == IF op.file.t = "none" \/ ~Readable(op, f) THEN EmptyReader ELSE Loaded(op.file.name, f)
\* array queries
QueryNames == {"s", "x", "y", "delta_d", "delta_m", "shape_d", "u_e", "shape_k", "c_f", "mass_defect", "mom_defect", "ke_defect", "delta_k"}
WakeNames == {"s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d"}
Listed(reader, q, side) ==
    LET rows == reader[side]
        cols == IF side = "wake" THEN WakeCols ELSE AirCols
    IN [k \in 1..Len(rows) |->
          CASE q = "u_e" -> reader.case[2] \otimes rows[k][4]
            [] q = "delta_k" -> rows[k][9] \otimes rows[k][6]
            [] OTHER -> rows[k][ColNo(cols, q)]]
=============================================================================

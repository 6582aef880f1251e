------------------------------ MODULE TraceXFoil ------------------------------
(* Recorded runs of the XFoil reader, judged against XFoil.tla.              *)
EXTENDS XFoil, Json, IOUtils
Logs == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
P(s) == Prop \in s
VARIABLES sid, i, w, rec
vars == <<sid, i, w, rec>>
V(name, ok) == IF ok THEN {} ELSE {name}
Nothing == [o \in {} |-> 0]
Put(f, o, v) == (o :> v) @@ f
IsOk(r) == r.k = "ok"
IsVErr(r) == r.k = "exc" /\ r.ve
FileOp(op) == op.op \in {"new", "load"}
RowsOf(op, r) == IF FileOp(op) THEN [air |-> r.air, wake |-> r.wake] ELSE [air |-> <<>>, wake |-> <<>>]
Reported(r) == FileOp(r.op) => {"air", "wake"} \subseteq DOMAIN r.resp

Valid(e) ==
    CASE FileOp(e.op) -> Readable(e.op, RowsOf(e.op, e.resp))
      [] e.op.op = "set" -> e.op.field = "name" \/ CaseOk(e.op.field, e.op.v)
      [] e.op.op \in {"touch", "recset"} -> FieldOk(e.op.field, e.op.v)
      [] e.op.op \in {"rec", "recreset"} -> e.op.row = <<>> \/ IF e.op.t = "air" THEN AirRowOk(e.op.row) ELSE WakeRowOk(e.op.row)
      [] OTHER -> TRUE
NextW(e, w0) ==
    CASE e.op.op = "new" -> IF IsOk(e.resp) THEN Put(w0, e.op.o, AfterFile(e.op, RowsOf(e.op, e.resp))) ELSE w0
      [] e.op.op = "load" -> Put(w0, e.op.o, AfterFile(e.op, RowsOf(e.op, e.resp)))
      [] ~Valid(e) \/ ~IsOk(e.resp) -> w0
      [] e.op.op = "set" /\ e.op.field = "name" -> [w0 EXCEPT ![e.op.o].name = e.op.v]
      [] e.op.op = "set" -> [w0 EXCEPT ![e.op.o].case[ColNo(CaseFields, e.op.field)] = e.op.v]
      [] e.op.op = "touch" -> [w0 EXCEPT ![e.op.o][e.op.side][e.op.i][ColNo(IF e.op.side = "wake" THEN WakeCols ELSE AirCols, e.op.field)] = e.op.v]
      [] OTHER -> w0
\* the contents of a record after a refused row are not promised
NextRec(e, r0) ==
    CASE e.op.op \in {"rec", "recreset"} ->
           IF ~IsOk(e.resp) \/ ~Valid(e) THEN IF e.op.o \in DOMAIN r0 THEN Put(r0, e.op.o, <<>>) ELSE r0
           ELSE Put(r0, e.op.o, IF e.op.row = <<>> THEN Blank(IF e.op.t = "air" THEN 12 ELSE 7)
                                ELSE IF e.op.t = "air" THEN e.op.row ELSE WakePick(e.op.row))
      [] e.op.op = "recset" /\ Valid(e) /\ IsOk(e.resp) /\ r0[e.op.o] # <<>> ->
           [r0 EXCEPT ![e.op.o][ColNo(IF e.op.t = "air" THEN AirCols ELSE WakeCols, e.op.field)] = e.op.v]
      [] OTHER -> r0

Row(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k]) \/ Close(a[k], b[k], "1e-12", "1e-12")
Rows(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Row(a[k], b[k])
Exact(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
NonNeg(rows) == \A k \in 1..Len(rows) : FIsNum(rows[k][1]) /\ "0" \preceq rows[k][1]
Sides == <<"upper", "lower", "wake">>
Reader(c, q) ==
    V("number of rows", \A s \in {"upper", "lower", "wake"} : Len(q[s]) = Len(c[s]))
    \cup V("rows of the upper surface", Rows(q.upper, c.upper))
    \cup V("rows of the lower surface", Rows(q.lower, c.lower))
    \cup V("rows of the wake", Rows(q.wake, c.wake))
    \cup V("negative arc length", \A s \in {"upper", "lower", "wake"} : NonNeg(q[s]))
    \cup V("array query does not list the records", \A s \in {"upper", "lower"} : \A n \in QueryNames :
            \/ Exact(q.arr[n \o "_" \o s], Listed(q @@ [case |-> c.case], n, s))
            \/ n \in {"u_e", "delta_k"} /\ CloseSeq(q.arr[n \o "_" \o s], Listed(q, n, s), "1e-13", "0"))
    \cup V("array query does not list the wake records", \A n \in WakeNames :
            \/ Exact(q.arr[n \o "_wake"], Listed(q, n, "wake"))
            \/ n = "u_e" /\ CloseSeq(q.arr[n \o "_wake"], Listed(q, n, "wake"), "1e-13", "0"))
CaseInfo(c, q) ==
    V("file name", q.file = c.file) \cup V("case name", q.name = c.name)
    \cup V("case information", Exact(q.case, c.case))
Outcome(e) ==
    IF FileOp(e.op) THEN V("load that should fail did not", IsOk(e.resp) => Valid(e)) \cup V("valid file refused", Valid(e) => IsOk(e.resp))
    ELSE V("value refused", Valid(e) => IsOk(e.resp)) \cup V("invalid value not refused with ValueError", ~Valid(e) => IsVErr(e.resp))

Bad(e, w1, rec1) ==
    IF e.resp.k = "skip" THEN {}
    ELSE IF ~Reported(e) THEN {"no answer"}
    ELSE Outcome(e)
         \cup UNION {IF o \in DOMAIN e.obs.o
                     THEN Reader(w1[o], e.obs.o[o]) \cup (IF P({"C20"}) THEN CaseInfo(w1[o], e.obs.o[o]) ELSE {})
                     ELSE {"reader is gone"} : o \in DOMAIN w1}
         \cup V("record does not hold what was set", \A o \in DOMAIN rec1 : rec1[o] = <<>> \/ Exact(rec1[o], e.obs.rec[o]))
Init == sid \in 1..Len(Logs) /\ i = 0 /\ w = Nothing /\ rec = Nothing
Next ==
    LET L == Logs[sid].log IN
    /\ i < Len(L) /\ i' = i + 1 /\ sid' = sid
    /\ LET e == L[i + 1] IN
       /\ IF e.resp.k = "skip" \/ ~Reported(e) THEN w' = w /\ rec' = rec
          ELSE w' = NextW(e, w) /\ rec' = NextRec(e, rec)
       /\ \A b \in Bad(e, w', rec') : PrintT("VIOL|" \o Prop \o "|" \o b \o "|" \o ToString(Logs[sid].sid) \o "|" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================

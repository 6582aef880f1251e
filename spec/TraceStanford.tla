----------------------------- MODULE TraceStanford -----------------------------
(* Recorded runs of the Stanford cases, judged against Stanford.tla.         *)
EXTENDS Stanford, Json, IOUtils
Logs == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
VARIABLES sid, i, w, rec
vars == <<sid, i, w, rec>>
V(name, ok) == IF ok THEN {} ELSE {name}
Nothing == [o \in {} |-> 0]
Put(f, o, v) == (o :> v) @@ f
IsOk(r) == r.k = "ok"
IsVErr(r) == r.k = "exc" /\ r.ve
FileOp(op) == op.op \in {"new", "select"}
RecOp(op) == op.op \in {"rec", "recreset"}
\* the rows of a shipped file come with the answer
File(e) == IF e.op.file.t = "shipped" THEN e.resp.file ELSE e.op.file
Reported(e) == FileOp(e.op) /\ e.op.file.t = "shipped" => "file" \in DOMAIN e.resp

\* "ok": has to succeed, "bad": has to be refused, "near": either
Verdict(e) ==
    CASE FileOp(e.op) ->
           IF e.op.file.t \in {"none", "shipped"} THEN "ok"
           ELSE IF e.op.file.t = "missing" \/ e.op.file.flaw # "" THEN "bad"
           ELSE FileGrade(e.op.file.si, e.op.file)
      [] RecOp(e.op) -> StationGrade(e.op.si, e.op.summ, e.op.stat, e.op.det)
      [] e.op.op \in {"recset", "touch"} -> IF ScalarOk(e.op.field, e.op.v) THEN "ok" ELSE "bad"
      [] e.op.op = "recarr" -> IF ArrayOk(e.op.v) THEN "ok" ELSE "bad"
      [] OTHER -> "ok"
NextW(e, w0, verdict) ==
    CASE FileOp(e.op) ->
           IF e.op.op = "new" /\ ~IsOk(e.resp) THEN w0
           ELSE IF e.op.file.t = "none" \/ verdict = "bad" \/ ~IsOk(e.resp) THEN Put(w0, e.op.o, NoCase)
           ELSE Put(w0, e.op.o, CaseOf(e.op.file.si, e.op.file.id, File(e)))
      [] e.op.op = "touch" /\ IsOk(e.resp) -> [w0 EXCEPT ![e.op.o].st[e.op.i].v = (e.op.field :> e.op.v) @@ @]
      [] OTHER -> w0
\* the contents of a record after a refused row are not promised
Lost == [v |-> Nothing, a |-> Nothing]
NextRec(e, r0, verdict) ==
    CASE RecOp(e.op) ->
           IF verdict = "bad" \/ ~IsOk(e.resp) THEN IF e.op.op = "recreset" /\ e.op.o \in DOMAIN r0 THEN Put(r0, e.op.o, Lost) ELSE r0
           ELSE Put(r0, e.op.o, Station(e.op.si, e.op.summ, e.op.stat, e.op.det))
      [] e.op.op = "recset" /\ verdict = "ok" /\ IsOk(e.resp) -> [r0 EXCEPT ![e.op.o].v = (e.op.field :> e.op.v) @@ @]
      [] e.op.op = "recarr" /\ verdict = "ok" /\ IsOk(e.resp) -> [r0 EXCEPT ![e.op.o].a = (e.op.field :> e.op.v) @@ @]
      [] OTHER -> r0

Eq(a, b) == Same(a, b) \/ Close(a, b, "1e-12", "0")
EqSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Eq(a[k], b[k])
Exact(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
StationAs(c, q) ==
    UNION {V("value of " \o f, Eq(q.v[f], c.v[f])) : f \in DOMAIN c.v}
    \cup UNION {V("profile " \o f, EqSeq(q.a[f], c.a[f])) : f \in DOMAIN c.a}
Case(c, q) ==
    V("case name", q.case = c.case)
    \cup V("reference viscosity", Eq(q.nu, c.nu))
    \cup V("smoothed velocity", EqSeq(q.sx, c.sx) /\ EqSeq(q.su, c.su) /\ EqSeq(q.sd, c.sd))
    \cup V("number of stations", Len(q.st) = Len(c.st) /\ q.n = ToString(Len(c.st)))
    \cup (IF Len(q.st) # Len(c.st) THEN {} ELSE UNION {StationAs(c.st[k], q.st[k]) : k \in 1..Len(c.st)})
    \cup V("array query does not list the stations", \A f \in DOMAIN q.arr : Exact(q.arr[f], [k \in 1..Len(q.st) |-> q.st[k].v[f]]))
    \cup V("profile query does not match the station", Len(q.prof) = Len(q.st) /\ \A k \in 1..Len(q.st) :
             \A f \in DOMAIN q.prof[k] : Exact(q.prof[k][f], q.st[k].a[f]))
    \cup V("number of samples", \A k \in 1..Len(q.st) : q.st[k].n = ToString(Len(q.st[k].a["y"])))
Outcome(e, verdict) ==
    V("refused", verdict = "ok" => IsOk(e.resp)) \cup V("not refused with ValueError", verdict = "bad" => IsVErr(e.resp))
    \cup V("neither accepted nor refused with ValueError", IsOk(e.resp) \/ IsVErr(e.resp))
Bad(e, w1, rec1, verdict) ==
    IF e.resp.k = "skip" THEN {}
    ELSE IF ~Reported(e) THEN {"no answer"}
    ELSE Outcome(e, verdict)
         \cup UNION {IF o \in DOMAIN e.obs.o THEN Case(w1[o], e.obs.o[o]) ELSE {"object is gone"} : o \in DOMAIN w1}
         \cup UNION {IF o \in DOMAIN e.obs.rec THEN StationAs(rec1[o], e.obs.rec[o]) ELSE {"record is gone"} : o \in DOMAIN rec1}
Init == sid \in 1..Len(Logs) /\ i = 0 /\ w = Nothing /\ rec = Nothing
Next ==
    LET L == Logs[sid].log IN
    /\ i < Len(L) /\ i' = i + 1 /\ sid' = sid
    /\ LET e == L[i + 1]
           skip == e.resp.k = "skip" \/ ~Reported(e)
           verdict == IF skip THEN "ok" ELSE Verdict(e) IN
       /\ IF skip THEN w' = w /\ rec' = rec ELSE w' = NextW(e, w, verdict) /\ rec' = NextRec(e, rec, verdict)
       /\ \A b \in Bad(e, w', rec', verdict) : PrintT("VIOL|" \o Prop \o "|" \o b \o "|" \o ToString(Logs[sid].sid) \o "|" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================

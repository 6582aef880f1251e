----------------------------- MODULE TraceSolver -----------------------------
(***************************************************************************)
(* Recorded runs of the code, judged against Solver.tla.  Every session of   *)
(* the log is an initial state; each step takes the next recorded operation, *)
(* advances the world as the specification says, and compares what the code  *)
(* answered.  Disagreements are printed as VIOL|property|clause|session|step *)
(* (the runner collects them); the run is complete when every session was    *)
(* taken to its end, which the runner checks by the number of states.        *)
(***************************************************************************)
EXTENDS Solver, Json, IOUtils

Logs == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
P(s) == Prop \in s

VARIABLES sid, i, w
vars == <<sid, i, w>>

V(name, ok) == IF ok THEN {} ELSE {name}

----------------------------------------------------------------------------
(* Outcome classes                                                          *)
ExcClass(r) == IF r.ve THEN "ValueError" ELSE IF r.t = "RuntimeError" THEN "RuntimeError" ELSE "Other"
SolveClass(r) == IF r.k = "exc" THEN ExcClass(r) ELSE IF r.success THEN "ok" ELSE "fail"

\* a stagnation start needs an accelerating flow
StagOk(cfg, x0) ==
    cfg.ic.t # "fs" \/ (VelT(cfg.vel) \notin {"pts", "dpts"} /\ "0" \prec FEvalD(cfg.vel.u, x0))
Expected(cfg, op) ==
    IF Complete(cfg) /\ ~StagOk(cfg, op.x0)
    THEN Outcomes(cfg, op) \cup {"ok", "fail", "ValueError"} ELSE Outcomes(cfg, op)

Response(e, w0) ==
    CASE e.resp.k = "skip" -> {}
      [] e.op.op = "solve" -> V("unexpected outcome of solve", SolveClass(e.resp) \in Expected(w0[e.op.o].cfg, e.op))
      [] OTHER -> IF Accepts(w0, e.op)
                  THEN V("valid operation refused", e.resp.k = "ok")
                  ELSE V("invalid operation not refused with ValueError", e.resp.k = "exc" /\ e.resp.ve)

How(r) == LET c == SolveClass(r) IN IF c \in {"ok", "fail"} THEN c ELSE "raise"
Step(e, w0) ==
    IF e.resp.k = "skip" THEN w0
    ELSE IF e.op.op = "solve" THEN AfterSolve(w0, e.op, How(e.resp))
    ELSE IF Accepts(w0, e.op) /\ e.resp.k = "ok" THEN After(w0, e.op)
    ELSE w0

----------------------------------------------------------------------------
(* Observations: the answers of all queries of all objects after each step   *)
Quiet(op) == op.op \in {"q", "look", "mutate", "edit_lists"}
\* queries that may answer from an initial condition other objects share
CfgPart(w0, o, obs) == IF w0[o].cfg.ic.t = "own" THEN obs.cfg ELSE <<obs.cfg[1]>>
SameObs(w0, o, a, b) ==
    /\ CfgPart(w0, o, a) = CfgPart(w0, o, b)
    /\ a.vel = b.vel /\ a.prof = b.prof
IsVE(t) == t = "exc:ValueError"
IsAns(t) == ~(Len(t) >= 4 /\ SubSeq(t, 1, 4) = "exc:")

\* C02: nothing changes when an operation is refused
Refused(e, w0, prev) ==
    IF prev = <<>> \/ Accepts(w0, e.op) \/ e.op.op = "solve" THEN {}
    ELSE V("refused operation changed an answer",
           \A o \in DOMAIN prev : o \in DOMAIN w0 => SameObs(w0, o, prev[o], e.obs[o]))
\* C06: queries and operations on other objects change nothing
Untouched(e, w0, prev) ==
    IF prev = <<>> THEN {}
    ELSE V("a query changed an answer",
           Quiet(e.op) => \A o \in DOMAIN prev : o \in DOMAIN w0 => SameObs(w0, o, prev[o], e.obs[o]))
         \cup V("an operation changed another object",
           \A o \in DOMAIN prev \ {e.op.o} : o \in DOMAIN w0 => SameObs(w0, o, prev[o], e.obs[o]))
\* C02, C06: what is configured is what reads back
ReadBack(w1, obs) ==
    V("configuration does not read back",
      \A o \in DOMAIN w1 :
        LET c == w1[o].cfg q == obs[o].cfg IN
        /\ Same(q[1], c.nu)
        /\ c.ic.t = "own" => /\ Same(q[2], c.dm)
                             /\ (Laminar(c) \/ c.h = "inf" \/ c.dm = "inf" \/ Close(q[3], c.h, "1e-12", "0")))
\* C03: results exist exactly after a successful solve
Finite(w1, o) == VelT(w1[o].cfg.vel) \notin {"nan", "raise"}
Results(w1, obs) ==
    V("results without a successful solve", \A o \in DOMAIN w1 :
        ~w1[o].sol => \A k \in 1..Len(obs[o].prof) : IsVE(obs[o].prof[k]))
    \cup V("edge velocity that was never set", \A o \in DOMAIN w1 :
        w1[o].cfg.vel.form = "none" => \A k \in 1..Len(obs[o].vel) : IsVE(obs[o].vel[k]))
    \cup V("no finite result after a successful solve", \A o \in DOMAIN w1 :
        (w1[o].sol /\ w1[o].cur /\ Finite(w1, o)) => \A k \in 1..Len(obs[o].prof) : Num(obs[o].prof[k]))
    \cup V("no result after a successful solve", \A o \in DOMAIN w1 :
        (w1[o].sol /\ Finite(w1, o)) => \A k \in 1..Len(obs[o].prof) : IsAns(obs[o].prof[k]))

----------------------------------------------------------------------------
(* Profiles                                                                 *)
Cols == <<"x", "u", "du", "d2", "dm", "h", "dd", "ve", "tw">>
GoodProf(p) == p.k = "ok" /\ \A c \in 1..Len(Cols) : Len(p[Cols[c]]) = Len(p.x) /\ AllNum(p[Cols[c]])

Lam(c, p, k) == (FSq(p.dm[k]) \otimes p.du[k]) \oslash c.nu
Z(c, p, k)   == FSq(p.dm[k]) \oslash c.nu
State(c, p, k) == IF Laminar(c) THEN Z(c, p, k) ELSE p.dm[k]
\* lambda so close to a jump of a fit that rounding decides
OnJump(fit, l) == fit.t = "Cebeci-Bradshaw" /\ FAbs(l) \prec "1e-9" /\ ~FEq(l, "0")
InRange(fit, l) == (FitLo(fit) \oplus "1e-9") \prec l /\ l \prec (FitHi(fit) \ominus "1e-9")

\* C09, C13.  everywhere: also judge the transpiration velocity outside the range of the fit,
\* where the slope of the shape function keeps its end value as well
Closure(c, p, everywhere) ==
    LET n == Len(p.x)
        lam == TLCEval([k \in 1..n |-> Lam(c, p, k)])
        ok == {k \in 1..n : ~OnJump(c.fit, lam[k])}
        shape(k) == Close(p.h[k], Shape(c.fit, lam[k]), "1e-8", "1e-8")
        tau(k) == LET sc == (p.rho \otimes c.nu \otimes FAbs(p.u[k])) \oslash p.dm[k]
                      s == Shear(c.fit, lam[k])
                  IN Close(p.tw[k], sc \otimes s, "1e-8", sc \otimes "3e-7")
        disp(k) == Close(p.dd[k], p.h[k] \otimes p.dm[k], "1e-10", "0")
        \* derivative of velocity times displacement thickness
        trans(k) ==
          LET z == Z(c, p, k)
              g == ThwaitesF(c.kind, c.fit, lam[k]) \oslash ("1e-3" \oplus p.u[k])
              t1 == p.du[k] \otimes p.dd[k]
              rt == c.nu \oslash p.dm[k]
              t2 == "0.5" \otimes p.u[k] \otimes p.h[k] \otimes g
              sl == p.u[k] \otimes z \otimes ShapeP(c.fit, lam[k])
              t3 == sl \otimes (p.du[k] \otimes g)
              t4 == sl \otimes (p.d2[k] \otimes z)
              sc == FAbs(t1) \oplus (rt \otimes (FAbs(t2) \oplus FAbs(t3) \oplus FAbs(t4)))
          IN Close(p.ve[k], t1 \oplus (rt \otimes (t2 \oplus t3 \oplus t4)), "0", sc \otimes "1e-6")
    IN V("shape factor is not the fit at lambda", \A k \in ok : shape(k))
       \cup V("wall shear is not the fit at lambda", \A k \in ok : tau(k))
       \cup V("displacement thickness", \A k \in 1..n : disp(k))
       \cup V("transpiration velocity (slope of the shape function)",
              \A k \in ok : (everywhere \/ InRange(c.fit, lam[k])) => trans(k))

\* integral over the panels 1-3, 3-5, ... by Simpson's rule, with the
\* difference to the trapezoidal rule as a bound of its error
Simp(x, g, k) == Simpson(x[k], x[k+2], g[k], g[k+1], g[k+2])
SimpErr(x, g, k) ==
    FAbs(Simp(x, g, k) \ominus (((x[k+2] \ominus x[k]) \oslash "4") \otimes (g[k] \oplus ("2" \otimes g[k+1]) \oplus g[k+2])))
PanelOk(x, y, g, k, atol) ==
    FAbs(y[k+2] \ominus y[k] \ominus Simp(x, g, k)) \preceq (atol \oplus ("2" \otimes SimpErr(x, g, k)))
Panels(n) == {k \in 1..(n - 2) : k % 2 = 1}
PanelSeq(n) == [k \in 1..((n - 1) \div 2) |-> 2*k - 1]
TotalOk(x, y, g, atol) ==
    LET n == Len(x)
        s == FoldLeft(LAMBDA acc, k : acc \oplus Simp(x, g, k), "0", PanelSeq(n))
        e == FoldLeft(LAMBDA acc, k : acc \oplus SimpErr(x, g, k), "0", PanelSeq(n))
    IN FAbs(y[n] \ominus y[1] \ominus s) \preceq (atol \oplus e)

\* C10.  The step-size control of the integrator promises its accuracy where
\* the right-hand side is smooth; sampled velocities and the ends and joints
\* of the fits are not, and there one step can be off by 1e-3.
SmoothRhs(c, r, lam) ==
    /\ c.vel.form = "fun"
    /\ \/ c.kind = "TL"
       \/ /\ r.status # "Separated" /\ c.fit.t # "Cebeci-Bradshaw"
          /\ \A k \in 1..Len(lam) : "-0.085" \prec lam[k] /\ lam[k] \prec "0.2"
Momentum(c, p, r) ==
    LET n == Len(p.x)
        lam == TLCEval([k \in 1..n |-> Lam(c, p, k)])
        z == TLCEval([k \in 1..n |-> Z(c, p, k)])
        g == TLCEval([k \in 1..n |-> ThwaitesF(c.kind, c.fit, lam[k]) \oslash ("1e-3" \oplus p.u[k])])
        zm == FMaxAbs(z)
        sm == SmoothRhs(c, r, lam)
        tol == zm \otimes (IF sm THEN (IF c.kind = "TL" THEN "5e-6" ELSE "5e-5") ELSE "2.5e-3")
        ttol == zm \otimes (IF sm THEN (IF c.kind = "TL" THEN "1e-5" ELSE "1e-4") ELSE "5e-3")
    IN V("start is not the initial momentum thickness", Close(p.dm[1], StartDm(c, p.du[1]), "1e-9", "0"))
       \cup V("momentum equation", \A k \in Panels(n) : PanelOk(p.x, z, g, k, tol))
       \cup V("momentum equation over the interval", TotalOk(p.x, z, g, ttol))

\* C11
LamSeparation(c, p, r) ==
    LET n == Len(p.x)
        scale(k) == (p.rho \otimes c.nu \otimes p.u[k]) \oslash p.dm[k]
        starts == "0" \prec p.tw[1]
    IN IF ~starts THEN {}
       ELSE V("profile continued past separation", \A k \in 1..(n - 1) : "0" \prec p.tw[k])
            \cup V("profile ends past separation", ("-1e-4" \otimes scale(n)) \preceq p.tw[n])
            \cup (IF r.status # "Separated" THEN {}
                  ELSE V("separated where shear does not vanish",
                         /\ SepAt(c.fit, Lam(c, p, n))
                         /\ FAbs(p.tw[n]) \preceq ("2e-3" \otimes scale(n))))

\* C12.  The entrainment relation has a joint at H = 1.6.
SmoothTurb(c, p) ==
    /\ c.vel.form = "fun"
    /\ \/ \A k \in 1..Len(p.h) : p.h[k] \prec "1.595"
       \/ \A k \in 1..Len(p.h) : "1.605" \prec p.h[k]
Turbulent(c, p, r) ==
    LET n == Len(p.x)
        rhs == TLCEval([k \in 1..n |-> HeadRhs(c.nu, p.u[k], p.du[k], p.dm[k], p.h[k])])
        g1 == [k \in 1..n |-> rhs[k][1]]
        g2 == [k \in 1..n |-> rhs[k][2]]
        dmm == FMaxAbs(p.dm)
        hm == FMaxAbs(p.h)
        sm == SmoothTurb(c, p)
        ul(k) == FMax(p.u[k], "0.001")
        cf(k) == LudwiegTillman((ul(k) \otimes p.dm[k]) \oslash c.nu, p.h[k])
        ve(k) == LET t1 == p.du[k] \otimes p.h[k] \otimes p.dm[k]
                     t2 == p.u[k] \otimes g2[k] \otimes p.dm[k]
                     t3 == p.u[k] \otimes p.h[k] \otimes g1[k]
                 IN Close(p.ve[k], t1 \oplus t2 \oplus t3, "0",
                          "1e-8" \otimes (FAbs(t1) \oplus FAbs(t2) \oplus FAbs(t3)))
    IN V("start is not the initial condition",
         Close(p.dm[1], StartDm(c, p.du[1]), "1e-9", "0") /\ Close(p.h[1], StartH(c), "1e-9", "0"))
       \cup V("momentum equation", \A k \in Panels(n) : PanelOk(p.x, p.dm, g1, k, dmm \otimes (IF sm THEN "2e-5" ELSE "2e-3")))
       \cup V("entrainment equation", \A k \in Panels(n) : PanelOk(p.x, p.h, g2, k, hm \otimes (IF sm THEN "2e-5" ELSE "2.5e-2")))
       \cup V("momentum equation over the interval", TotalOk(p.x, p.dm, g1, dmm \otimes (IF sm THEN "4e-5" ELSE "5e-3")))
       \cup V("entrainment equation over the interval", TotalOk(p.x, p.h, g2, hm \otimes (IF sm THEN "4e-5" ELSE "3e-2")))
       \cup V("displacement thickness", \A k \in 1..n : Close(p.dd[k], p.h[k] \otimes p.dm[k], "1e-10", "0"))
       \cup V("wall shear", \A k \in 1..n : Close(p.tw[k], "0.5" \otimes p.rho \otimes FSq(ul(k)) \otimes cf(k), "1e-9", "0"))
       \cup V("transpiration velocity", \A k \in 1..n : ve(k))
       \cup V("separation criterion passed",
              (p.h[1] \prec c.crit) => \A k \in 1..(n - 1) : p.h[k] \prec c.crit)
       \cup V("separated where the criterion is not met",
              r.status = "Separated" => Close(p.h[n], c.crit, "1e-7", "0"))

\* C15
Start(c, p) ==
    V("solve does not start from its initial condition",
      /\ Close(p.dm[1], StartDm(c, p.du[1]), "1e-9", "0")
      /\ (Laminar(c) \/ Close(p.h[1], StartH(c), "1e-9", "0")))

----------------------------------------------------------------------------
(* C04: how the solve ended                                                 *)
Num1(r) == Num(r.x_end) /\ AllNum(r.f_end)
MsgOf(reason, msg) == IF msg = "" THEN reason ELSE reason \o ": " \o msg
\* value of a user event at profile point k
EvVal(c, e, p, k) ==
    CASE e.e = "x" -> p.x[k] \ominus e.a
      [] e.e = "nx" -> e.a \ominus p.x[k]
      [] e.e = "f1" -> p.h[k] \ominus e.a
      [] e.e = "f0" -> State(c, p, k) \ominus e.a
      [] OTHER -> "1"
EvScale(c, e, op, p) == IF e.e \in {"x", "nx"} THEN FAbs(op.xe \ominus op.x0) ELSE FAbs(e.a)
\* does the event's function change sign between two recorded points before the end
CrossedBefore(c, e, op, p) ==
    LET n == Len(p.x) tol == "1e-7" \otimes EvScale(c, e, op, p) IN
    \E k \in 1..(n - 1) :
        \/ (e.dir >= 0 /\ EvVal(c, e, p, k) \prec FNeg(tol) /\ tol \prec EvVal(c, e, p, k + 1))
        \/ (e.dir <= 0 /\ tol \prec EvVal(c, e, p, k) /\ EvVal(c, e, p, k + 1) \prec FNeg(tol))
VanishesAtEnd(c, e, op, p) ==
    FAbs(EvVal(c, e, p, Len(p.x))) \preceq ("1e-7" \otimes EvScale(c, e, op, p))
OwnAtEnd(c, p) ==
    LET n == Len(p.x) IN
    IF Laminar(c) THEN SepAt(c.fit, Lam(c, p, n))
    ELSE Close(p.h[n], c.crit, "1e-7", "0")
\* the reported reason and message are those of something that happened at the reported end
Explained(c, op, r, p) ==
    IF r.status = "Completed" THEN Same(r.x_end, op.xe) /\ r.msg = "Completed"
    ELSE \/ r.msg = "Separated" /\ r.status = "Separated" /\ OwnAtEnd(c, p)
         \/ \E k \in 1..Len(op.ev) :
               /\ op.ev[k].term /\ r.status = op.ev[k].reason
               /\ r.msg = MsgOf(op.ev[k].reason, op.ev[k].msg)
               /\ VanishesAtEnd(c, op.ev[k], op, p)
               \* falling or rising functions of the location alone
               /\ op.ev[k].e = "x" => op.ev[k].dir >= 0
               /\ op.ev[k].e = "nx" => op.ev[k].dir <= 0
\* the model's own criterion, met before the end (the exact place is C11's and C12's)
OwnMissed(c, p) ==
    LET n == Len(p.x) IN
    IF Laminar(c)
    THEN /\ "0" \prec p.tw[1]
         /\ \E k \in 2..(n - 1) : p.tw[k] \prec ("-1e-4" \otimes ((p.rho \otimes c.nu \otimes p.u[k]) \oslash p.dm[k]))
    ELSE /\ p.h[1] \prec c.crit
         /\ \E k \in 2..(n - 1) : (c.crit \otimes "1.0000001") \prec p.h[k]
NothingMissed(c, op, r, p) ==
    ~OwnMissed(c, p) /\
    \A k \in 1..Len(op.ev) : op.ev[k].term => ~CrossedBefore(c, op.ev[k], op, p)
EndState(c, r, p) ==
    LET n == Len(p.x) IN
    /\ Same(p.x[n], r.x_end)
    /\ Len(r.f_end) = IF Laminar(c) THEN 1 ELSE 2
    /\ Close(r.f_end[1], State(c, p, n), "1e-9", "0")
    /\ Laminar(c) \/ Close(r.f_end[2], p.h[n], "1e-9", "0")
Ending(c, op, r, p) ==
    CASE r.k = "exc" -> {}
      [] ~r.success ->
            V("failed solve reported wrongly",
              /\ r.status = "Unknown Event" /\ Same(r.x_end, op.x0)
              /\ Len(r.msg) >= 13 /\ SubSeq(r.msg, 1, 13) = "Unknown Event"
              /\ Close(r.f_end[1], State0(c, StartDm(c, FEvalD(c.vel.u, op.x0))), "1e-9", "0"))
      [] OTHER ->
            V("end of solve is not explained", Explained(c, op, r, p))
            \cup V("earlier terminating event missed", NothingMissed(c, op, r, p))
            \cup V("end state", EndState(c, r, p))
            \cup V("end location", op.x0 \preceq r.x_end /\ r.x_end \preceq op.xe)

----------------------------------------------------------------------------
(* C06: comparison with a fresh object                                      *)
SameResult(a, b) ==
    /\ a.k = b.k
    /\ IF a.k = "exc" THEN a.t = b.t
       ELSE /\ a.status = b.status /\ a.success = b.success /\ a.msg = b.msg
            /\ Close(a.x_end, b.x_end, "1e-9", "1e-12")
            /\ CloseSeq(a.f_end, b.f_end, "1e-9", "0")
ProfCols == <<"u", "du", "dm", "h", "dd", "tw">>
SameProf(a, b) ==
    a.k = b.k /\ (a.k = "ok" => \A k \in 1..Len(ProfCols) : CloseSeq(a[ProfCols[k]], b[ProfCols[k]], "1e-8", "1e-14"))
LikeFresh(r) ==
    IF r.fresh.k = "none" THEN {}
    ELSE V("result differs from that of a fresh object", SameResult(r, r.fresh))
         \cup V("profile differs from that of a fresh object",
                (r.prof.k = "none" /\ r.fresh.prof.k = "none") \/ SameProf(r.prof, r.fresh.prof))

----------------------------------------------------------------------------
(* C01: velocity queries                                                    *)
At(xs, v) == CHOOSE k \in 1..Len(xs) : FEq(xs[k], v)
VelScale(v, xs) == LET d(x) == FAbs(FEval(v.u, x)) \oplus FAbs(FEvalD(v.u, x)) \oplus FAbs(FEvalD2(v.u, x))
                   IN "1" \oplus FMaxOf([k \in 1..Len(xs) |-> d(xs[k])])
FunVelOk(v, q) ==
    LET sc == VelScale(v, q.x)
        exd == v.nd >= 1 \/ v.deriv = "u"
        ex2 == v.nd = 2 \/ v.deriv \in {"u", "du"}
        td == IF exd THEN "1e-12" ELSE "1e-6"
        t2 == IF ex2 THEN "1e-12" ELSE IF exd THEN "1e-6" ELSE "1e-4"
        n == Len(q.x)
    IN V("edge velocity is not the function given", \A k \in 1..n : Close(q.arr.u[k], FEval(v.u, q.x[k]), "0", sc \otimes "1e-12"))
       \cup V("first derivative is not that of the function given", \A k \in 1..n : Close(q.arr.du[k], FEvalD(v.u, q.x[k]), "0", sc \otimes td))
       \cup V("second derivative is not that of the function given", \A k \in 1..n : Close(q.arr.d2[k], FEvalD2(v.u, q.x[k]), "0", sc \otimes t2))
\* values between their neighbours, in the order of the samples: no overshoot
Between(a, b, v, tol) == (FMin(a, b) \ominus tol) \preceq v /\ v \preceq (FMax(a, b) \oplus tol)
PtsVelOk(v, q) ==
    LET n == Len(v.x)
        pos(j, r) == 5*(j - 1) + 1 + r            \* see Fine in GenSolver
        uu(j) == q.arr.u[pos(j, 0)]
        dd(j) == q.arr.du[pos(j, 0)]
        sc == FMaxAbs(v.y) \oplus "1e-3"
        hh(j) == v.x[j + 1] \ominus v.x[j]
        seg(j, r) == Herm(v.x[j], v.x[j+1], v.y[j], v.y[j+1], dd(j), dd(j+1), q.x[pos(j, r)])
    IN V("sample not reproduced", \A j \in 1..n : Close(q.arr.u[pos(j, 0)], v.y[j], "0", sc \otimes "1e-11"))
       \cup V("overshoot between samples", \A j \in 1..(n - 1) : \A r \in 0..4 :
                Between(q.arr.u[pos(j, r)], v.y[j + 1], q.arr.u[pos(j, r + 1)], sc \otimes "1e-10")
                /\ Between(v.y[j], v.y[j + 1], q.arr.u[pos(j, r)], sc \otimes "1e-10"))
       \cup V("velocity is not a smooth piecewise cubic", \A j \in 1..(n - 1) : \A r \in 1..4 :
                Close(q.arr.u[pos(j, r)], seg(j, r).v, "0", sc \otimes "1e-9"))
       \cup V("first derivative is not that of the velocity", \A j \in 1..(n - 1) : \A r \in 1..4 :
                Close(q.arr.du[pos(j, r)], seg(j, r).d, "0", (sc \otimes "1e-9") \oslash hh(j)))
       \cup V("second derivative is not that of the velocity", \A j \in 1..(n - 1) : \A r \in 1..4 :
                Close(q.arr.d2[pos(j, r)], seg(j, r).d2, "0", (sc \otimes "1e-8") \oslash FSq(hh(j))))
DptsVelOk(v, q) ==
    LET n == Len(v.x)
        pos(j, r) == 5*(j - 1) + 1 + r
        d2(j) == q.arr.d2[pos(j, 0)]
        sc == FMaxAbs(v.y) \oplus "1e-3"
        hh(j) == v.x[j + 1] \ominus v.x[j]
        \* slope at the right end of the interval: continuous unless at the last knot
        seg(j, x) == Herm(v.x[j], v.x[j+1], v.y[j], v.y[j+1], d2(j), d2(j+1), x)
        mid(j, r) == (v.x[j] \oplus q.x[pos(j, r)]) \oslash "2"
        span == v.x[n] \ominus v.x[1]
        usc == FAbs(v.u0) \oplus (sc \otimes span)
    IN V("velocity does not start at the scalar", Close(q.arr.u[1], v.u0, "0", usc \otimes "1e-11"))
       \cup V("derivative sample not reproduced", \A j \in 1..n : Close(q.arr.du[pos(j, 0)], v.y[j], "0", sc \otimes "1e-11"))
       \cup V("derivative overshoots", \A j \in 1..(n - 1) : \A r \in 0..4 :
                Between(q.arr.du[pos(j, r)], v.y[j + 1], q.arr.du[pos(j, r + 1)], sc \otimes "1e-10"))
       \cup V("derivative is not a smooth piecewise cubic", \A j \in 1..(n - 1) : \A r \in 1..4 :
                /\ Close(q.arr.du[pos(j, r)], seg(j, q.x[pos(j, r)]).v, "0", sc \otimes "1e-9")
                /\ Close(q.arr.d2[pos(j, r)], seg(j, q.x[pos(j, r)]).d, "0", (sc \otimes "1e-9") \oslash hh(j)))
       \cup V("velocity is not the integral of its derivative", \A j \in 1..(n - 1) : \A r \in 1..5 :
                LET xr == IF r = 5 THEN v.x[j + 1] ELSE q.x[pos(j, r)]
                    xm == (v.x[j] \oplus xr) \oslash "2"
                IN Close(q.arr.u[pos(j, r)] \ominus q.arr.u[pos(j, 0)],
                         Simpson(v.x[j], xr, v.y[j], seg(j, xm).v, seg(j, xr).v), "0", usc \otimes "1e-10"))
VelOk(v, q) ==
    IF ~(AllNum(q.arr.u) /\ AllNum(q.arr.du) /\ AllNum(q.arr.d2)
         /\ Len(q.arr.u) = Len(q.x) /\ Len(q.arr.du) = Len(q.x) /\ Len(q.arr.d2) = Len(q.x))
    THEN {"velocity query has no finite answer"}
    ELSE CASE v.form = "fun" -> FunVelOk(v, q)
           [] v.form = "pts" -> PtsVelOk(v, q)
           [] v.form = "dpts" -> DptsVelOk(v, q)

----------------------------------------------------------------------------
(* C08: arrays and scalars                                                  *)
\* where terms cancel (shear at separation, transpiration where it changes sign) the last bits of
\* a power or a sine, which NumPy does not round alike for arrays and scalars, are all that is left
ArrScaTol(c, op, t, n) ==
    IF n \notin {"tw", "ve"} \/ ~({"u", "du", "d2", "dm", "dd"} \subseteq DOMAIN t) THEN [k \in 1..Len(t[n]) |-> "1e-300"]
    ELSE [k \in 1..Len(t[n]) |->
        IF ~(Num(t.u[k]) /\ Num(t.du[k]) /\ Num(t.d2[k]) /\ Num(t.dm[k]) /\ Num(t.dd[k])) THEN "0"
        ELSE LET rt == c.nu \oslash FAbs(t.dm[k])  z == FSq(t.dm[k]) \oslash c.nu
             IN IF n = "tw" THEN "1e-9" \otimes op.rho \otimes FAbs(t.u[k]) \otimes rt
                ELSE "1e-10" \otimes (FAbs(t.du[k] \otimes t.dd[k]) \oplus (rt \otimes ("10" \oplus ("100" \otimes
                       ((z \otimes FAbs(t.du[k])) \oplus (FSq(z) \otimes FAbs(t.u[k] \otimes t.d2[k])))))))]
ArrSca(e, c) ==
    UNION {LET a == e.resp.arr[n]  b == e.resp.sca[n]  tol == TLCEval(ArrScaTol(c, e.op, e.resp.sca, n)) IN
           V("array query differs from scalar queries: " \o n,
             Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k]) \/ Close(a[k], b[k], "1e-10", tol[k])) : n \in DOMAIN e.resp.sca}
(* C07: arrays of the caller                                                *)
ArraysKept(e) ==
    UNION {V("array of the caller was changed: " \o e.arrs[k].name, SameSeq(e.arrs[k].before, e.arrs[k].after))
             : k \in 1..Len(e.arrs)}
(* C13: the fit at any lambda                                               *)
QProf(op, q, src) ==
    LET t == IF src = "arr" THEN q.arr ELSE q.sca
    IN [k |-> "ok", rho |-> op.rho, x |-> q.x, u |-> t.u, du |-> t.du, d2 |-> t.d2, dm |-> t.dm, h |-> t.h, dd |-> t.dd,
        ve |-> t.ve, tw |-> t.tw]
FitOkAt(c, p) ==
    IF ~GoodProf(p) THEN {"fit has no finite value"}
    ELSE Closure(c, p, P({"C13"}))

----------------------------------------------------------------------------
SolveClauses(e, c) ==
    LET r == e.resp p == [rho |-> e.op.rho] @@ r.prof IN
    (IF SolveClass(r) # "ok" \/ e.op.ns = 0 \/ ~StagOk(c, e.op.x0) THEN {}
     ELSE IF ~GoodProf(p)
     THEN V("no finite profile after a successful solve", VelT(c.vel) \in {"nan", "raise"})
     ELSE (IF P({"C09"}) /\ Laminar(c) THEN Closure(c, p, FALSE) ELSE {})
          \cup (IF P({"C10"}) /\ Laminar(c) THEN Momentum(c, p, r) ELSE {})
          \cup (IF P({"C11"}) /\ Laminar(c) THEN LamSeparation(c, p, r) ELSE {})
          \cup (IF P({"C12"}) /\ ~Laminar(c) THEN Turbulent(c, p, r) ELSE {})
          \cup (IF P({"C15"}) THEN Start(c, p) ELSE {})
          \cup (IF P({"C04", "C05"}) THEN Ending(c, e.op, r, p) ELSE {}))
    \cup (IF P({"C04"}) /\ SolveClass(r) = "fail" THEN Ending(c, e.op, r, p) ELSE {})
    \cup (IF P({"C05", "C07"}) THEN V("list of events was changed", r.before = r.after) ELSE {})
    \cup (IF P({"C02", "C05", "C06", "C07"}) THEN LikeFresh(r) ELSE {})
    \cup (IF e.op.fresh THEN V("script and specification disagree on the configuration", e.op.cfg = c) ELSE {})

\* C03: results by array and scalar queries alike
ResNames == {"dm", "dd", "h", "tw", "ve"}
QueryResults(w0, e) ==
    LET o == e.op.o
        all(n, ok(_)) == (\A k \in 1..Len(e.resp.arr[n]) : ok(e.resp.arr[n][k]))
                         /\ (n \in DOMAIN e.resp.sca => \A k \in 1..Len(e.resp.sca[n]) : ok(e.resp.sca[n][k]))
        ns == ResNames \cap DOMAIN e.resp.arr
    IN V("results without a successful solve", ~w0[o].sol => \A n \in ns : all(n, IsVE))
       \cup V("edge velocity that was never set",
              w0[o].cfg.vel.form = "none" => \A n \in {"u", "du", "d2"} \cap DOMAIN e.resp.arr : all(n, IsVE))
       \cup V("no result after a successful solve",
              (w0[o].sol /\ Finite(w0, o)) => \A n \in ns : all(n, IsAns))

QueryClauses(e, c) ==
    (IF P({"C01"}) THEN VelOk(c.vel, e.resp) ELSE {})
    \cup (IF P({"C08"}) THEN ArrSca(e, c) ELSE {})
    \cup (IF P({"C09", "C13"}) THEN FitOkAt(c, QProf(e.op, e.resp, "arr")) ELSE {})
    \cup (IF P({"C09", "C13"}) /\ "tw" \in DOMAIN e.resp.sca THEN FitOkAt(c, QProf(e.op, e.resp, "sca")) ELSE {})

ObsClauses(e, w0, w1, prev) ==
    IF e.obs = <<>> THEN {}
    ELSE IF "k" \in DOMAIN e.obs THEN {"queries did not return"}
    ELSE (IF P({"C02"}) THEN Refused(e, w0, prev) ELSE {})
         \cup (IF P({"C06", "C07", "C02"}) THEN Untouched(e, w0, prev) ELSE {})
         \cup (IF P({"C02", "C06"}) THEN ReadBack(w1, e.obs) ELSE {})
         \cup (IF P({"C03"}) THEN Results(w1, e.obs) ELSE {})

Bad(e, w0, w1, prev) ==
    IF e.resp.k = "skip" THEN {}
    ELSE Response(e, w0)
         \cup (IF e.op.op = "solve" THEN SolveClauses(e, w0[e.op.o].cfg) ELSE {})
         \cup (IF e.op.op = "q" /\ e.resp.k = "ok" THEN QueryClauses(e, w0[e.op.o].cfg) ELSE {})
         \cup (IF e.op.op = "q" /\ e.resp.k = "ok" /\ P({"C03"}) THEN QueryResults(w0, e) ELSE {})
         \cup ObsClauses(e, w0, w1, prev)
         \cup (IF P({"C07"}) THEN ArraysKept(e) ELSE {})

----------------------------------------------------------------------------
Init == sid \in 1..Len(Logs) /\ i = 0 /\ w = EmptyWorld
Next ==
    LET L == Logs[sid].log IN
    /\ i < Len(L)
    /\ i' = i + 1 /\ sid' = sid
    /\ LET e == L[i + 1]
           prev == IF i = 0 THEN <<>> ELSE L[i].obs
       IN /\ w' = Step(e, w)
          /\ \A b \in Bad(e, w, w', prev) :
                PrintT("VIOL|" \o Prop \o "|" \o b \o "|" \o ToString(Logs[sid].sid) \o "|" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================

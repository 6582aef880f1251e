----------------------------- MODULE TraceClosure -----------------------------
(* Recorded calls of the skin-friction relations and initial conditions,     *)
(* judged against Closure.tla.                                               *)
EXTENDS Closure, Json, IOUtils
Logs == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
P(s) == Prop \in s
VARIABLES sid, i, w
vars == <<sid, i, w>>
V(name, ok) == IF ok THEN {} ELSE {name}

CfClauses(op, r) ==
    IF r.k # "ok" THEN {"skin friction refused"}
    ELSE LET n == Count(op)
             at(k) == CfAt(op.fn, Elem(op.re, op.rem, k), Elem(op.h, op.hm, k))
             sep(k) == op.fn = "felsch" /\ FelschSep \preceq Elem(op.h, op.hm, k)
         IN V("shape of the answer", r.shape = r.want /\ Len(r.v) = n)
            \cup (IF Len(r.v) # n THEN {}
                  ELSE V("skin friction is not the published formula", \A k \in 1..n : Close(r.v[k], at(k), "1e-10", "1e-16"))
                       \cup V("skin friction beyond separation", \A k \in 1..n : sep(k) => (FIsNum(r.v[k]) /\ FAbs(r.v[k]) \preceq "1e-16"))
                       \cup V("negative skin friction", \A k \in 1..n : FIsNum(r.v[k]) /\ "0" \preceq r.v[k]))
            \cup V("arguments changed", r.kept)

IcOk(c, q) ==
    /\ Same(q.nu, c.nu) /\ (c.t = "fs" \/ TRUE) /\ Same(q.du, c.du)
    /\ Close(q.dm, IcDm(c), "1e-12", "0") /\ Close(q.hd, IcHd(c), "1e-12", "0") /\ Close(q.hk, IcHk(c), "1e-12", "0")
    /\ Close(q.dd, IcDd(c), "1e-12", "0") /\ Close(q.dk, IcDk(c), "1e-12", "0")
IcClauses(e, w1) ==
    V("invalid viscosity not refused with ValueError", IcAccepts(e.op) \/ (e.resp.k = "exc" /\ e.resp.ve))
    \cup V("valid value refused", ~IcAccepts(e.op) \/ e.resp.k = "ok")
    \cup V("initial condition answers wrongly", \A o \in DOMAIN w1 : o \in DOMAIN e.obs /\ IcOk(w1[o], e.obs[o]))

Bad(e, w1) ==
    IF e.resp.k = "skip" THEN {}
    ELSE IF e.op.op = "cf" THEN CfClauses(e.op, e.resp) ELSE IcClauses(e, w1)
Init == sid \in 1..Len(Logs) /\ i = 0 /\ w = EmptyWorld
Next ==
    LET L == Logs[sid].log IN
    /\ i < Len(L) /\ i' = i + 1 /\ sid' = sid
    /\ LET e == L[i + 1] IN
       /\ w' = IF e.op.op = "cf" \/ e.resp.k # "ok" \/ ~IcAccepts(e.op) THEN w ELSE IcAfter(w, e.op)
       /\ \A b \in Bad(e, w') : PrintT("VIOL|" \o Prop \o "|" \o b \o "|" \o ToString(Logs[sid].sid) \o "|" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE TraceSim -------------------------------
(* Recorded runs of the similarity solutions, judged against Similarity.tla. *)
EXTENDS Similarity, Json, IOUtils
Logs == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
P(s) == Prop \in s
VARIABLES sid, i, w
vars == <<sid, i, w>>
V(name, ok) == IF ok THEN {} ELSE {name}

OkResp(r) == r.k = "ok"
IsVErr(r) == r.k = "exc" /\ r.ve

(* C18: all or nothing *)
Outcome(e, w0) ==
    IF ~Changes(e.op) THEN V("query refused", OkResp(e.resp))
    ELSE V("invalid value not refused with ValueError", Invalid(e.op) => IsVErr(e.resp))
         \cup V("valid value refused", Must(w0, e.op) => OkResp(e.resp))
         \cup V("refusal is not a ValueError", OkResp(e.resp) \/ IsVErr(e.resp))
SameAns(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
NearAns(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k]) \/ Close(a[k], b[k], tol, "0")
Kept(e, w0, prev) ==
    IF prev = <<>> THEN {}
    ELSE V("refused operation changed an answer",
           (Changes(e.op) /\ ~OkResp(e.resp)) => \A o \in DOMAIN prev : SameAns(prev[o], e.obs[o]))
         \cup V("query changed an answer", ~Changes(e.op) => \A o \in DOMAIN prev : SameAns(prev[o], e.obs[o]))
         \cup V("operation changed another object", \A o \in DOMAIN prev \ {e.op.o} : SameAns(prev[o], e.obs[o]))
Num1(q) == q[1]
\* positions in the observation: u_ref nu_ref beta m fw_pp eta_inf eta_d eta_m eta_k eta_s ...
SameCfg(c, d) ==
    /\ FEq(c.beta, d.beta) /\ FEq(c.u, d.u) /\ FEq(c.nu, d.nu)
    /\ (c.eta = d.eta) /\ (c.fw = d.fw)
Skip34(q) == <<q[1], q[2]>> \o SubSeq(q, 5, Len(q))   \* Blasius has no wedge parameter to ask for
ReadBack(e, w1) ==
    V("value does not read back", \A o \in DOMAIN w1 :
        LET c == w1[o] q == e.obs[o] IN
        /\ Same(q[1], c.u) /\ Same(q[2], c.nu)
        /\ (c.kind = "FS" => /\ Close(q[3], c.beta, "1e-13", "0") \/ FEq(q[3], c.beta)
                             /\ (FEq(c.beta, "2") => q[4] = "inf")
                             /\ (FEq(c.beta, "2") \/ Same(q[4], MOf(c.beta)) \/ Close(q[4], MOf(c.beta), "1e-13", "0")))
        /\ (~Free(c.eta) => Same(q[6], c.eta))
        /\ (~Free(c.fw) => Close(q[5], c.fw, "1e-13", "0")))
    \cup V("differs from an object built with the same values", \A o \in DOMAIN w1 : \A p \in DOMAIN w1 \ {o} :
        SameCfg(w1[o], w1[p]) =>
            IF w1[o].kind = w1[p].kind /\ w1[o].kind = "FS" THEN NearAns(e.obs[o], e.obs[p], "1e-7")
            ELSE NearAns(Skip34(e.obs[o]), Skip34(e.obs[p]), "1e-6"))

(* C16: the solution *)
B5(h, s, k) == \* Boole's rule on the points k..k+4
    (h \otimes (("7" \otimes (s[k] \oplus s[k+4])) \oplus ("32" \otimes (s[k+1] \oplus s[k+3])) \oplus ("12" \otimes s[k+2])))
        \otimes ("2" \oslash "45")
Panels(n) == {4 * j + 1 : j \in 0..(((n - 1) \div 4) - 1)}
Field(c, r) ==
    LET n == Len(r.eta)
        h == r.eta[2]
        whole(s) == FSum([j \in 1..((n - 1) \div 4) |-> B5(h, s, 4 * j - 3)])
        fine == Len(r.f) = n /\ Len(r.p) = n /\ Len(r.pp) = n /\ AllNum(r.f) /\ AllNum(r.p) /\ AllNum(r.pp) /\ AllNum(r.eta)
        rhs == TLCEval([k \in 1..n |-> FNeg((r.f[k] \otimes r.pp[k]) \oplus (c.beta \otimes ("1" \ominus FSq(r.p[k]))))])
        dd == TLCEval([k \in 1..n |-> "1" \ominus r.p[k]])
        mm == TLCEval([k \in 1..n |-> r.p[k] \otimes ("1" \ominus r.p[k])])
        kk == TLCEval([k \in 1..n |-> r.p[k] \otimes ("1" \ominus FSq(r.p[k]))])
        q == r.props
        edge1 == FAbs("1" \ominus r.p[n]) \preceq "1e-5"
        edge2 == FAbs(r.pp[n]) \preceq "1e-5"
        big == FMax("1", FMaxAbs(r.pp))
    IN IF ~fine THEN {"solution is not finite"}
       ELSE V("f is not the integral of f'", \A k \in Panels(n) : Close(r.f[k+4] \ominus r.f[k], B5(h, r.p, k), "1e-6", "1e-6" \otimes big))
            \cup V("f' is not the integral of f''", \A k \in Panels(n) : Close(r.p[k+4] \ominus r.p[k], B5(h, r.pp, k), "1e-6", "1e-6" \otimes big))
            \cup V("equation is not satisfied", \A k \in Panels(n) :
                     Close(r.pp[k+4] \ominus r.pp[k], B5(h, rhs, k), "1e-6", "2e-6" \otimes big))
            \cup V("wall conditions", FAbs(r.f[1]) \preceq "1e-12" /\ FAbs(r.p[1]) \preceq "1e-12" /\ Close(r.pp[1], q.fw_pp, "1e-12", "0"))
            \cup V("velocity does not reach the edge velocity", Free(c.fw) => edge1)
            \cup V("shear does not vanish at the edge", Free(c.eta) => edge2)
            \cup V("prescribed value not used", (Free(c.eta) \/ Same(q.eta_inf, c.eta)) /\ (Free(c.fw) \/ Close(q.fw_pp, c.fw, "1e-13", "0")))
            \cup V("built-in values of the Blasius solution", ~c.def \/ (edge1 /\ edge2))
            \cup V("solution is not the attached one", SolvedBoth(c) => Pos(q.eta_inf) /\ Pos(q.fw_pp) /\ \A k \in 1..n : "-1e-6" \preceq r.p[k] /\ r.p[k] \preceq "1.00001")
            \cup V("displacement thickness", Close(q.eta_d, whole(dd), "1e-5", "1e-6"))
            \cup V("momentum thickness", (edge1 /\ edge2) => Close(q.eta_m, whole(mm), "1e-4", "1e-5"))
            \cup V("kinetic-energy thickness", (edge1 /\ edge2) => Close(q.eta_k, whole(kk), "1e-4", "1e-5"))
            \cup V("shear thickness", Close(r.fs, "0.99", "1e-9", "0") /\ Pos(q.eta_s) /\ q.eta_s \preceq q.eta_inf)

(* C17, C08, C07 *)
OfX == {"u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k", "tau_w", "dissipation"}
All == OfX \cup {"eta", "u", "v", "f", "f_p", "f_pp"}
PhysClauses(c, r, op) ==
    LET n == Len(r.x)
        q == r.props
        m == Exponent(c)
        a == Spread(c)
        good(fn) == r.fn[fn].k = "ok" /\ Len(r.fn[fn].v) = n
        at(fn, k) == r.fn[fn].v[k]
        cl(x, y) == Close(x, y, "1e-10", "0")
        solved == SolvedBoth(c) \/ c.def
        d(k) == at("u_e", k) \otimes at("delta_d", k)
        \* identities of the integral boundary-layer equations
        mom(k) == (FSq(at("u_e", k)) \oslash r.x[k]) \otimes
                  (((("2" \otimes m) \oplus a) \otimes at("delta_m", k)) \oplus (m \otimes at("delta_d", k)))
        \* the terms cancel where the wall shear is small
        momsize(k) == (FSq(at("u_e", k)) \oslash r.x[k]) \otimes FAbs(m) \otimes at("delta_d", k)
        kin(k) == (("0.5" \otimes FCube(at("u_e", k))) \oslash r.x[k]) \otimes ((("3" \otimes m) \oplus a) \otimes at("delta_k", k))
        tra(k) == ((m \oplus a) \otimes d(k)) \oslash r.x[k]
        etay(k) == r.y[k] \otimes G(c, r.x[k])
    IN IF ~\A fn \in All : good(fn) THEN {"query refused or of the wrong size"}
       ELSE (IF ~P({"C17"}) THEN {}
             ELSE UNION {V(fn \o " is not the transformed similarity value",
                       \A k \in 1..n : cl(at(fn, k), Phys(c, q, fn, r.x[k], op.rho))) : fn \in OfX}
                  \cup V("similarity coordinate", \A k \in 1..n : cl(at("eta", k), etay(k)))
                  \cup V("velocity along the wall", \A k \in 1..n : Close(at("u", k), UAt(c, r.x[k], r.py[k]), "1e-10", "0"))
                  \cup V("velocity away from the wall", \A k \in 1..n :
                         Close(at("v", k), VAt(c, r.x[k], etay(k), r.fy[k], r.py[k]), "1e-9",
                               "1e-12" \otimes c.nu \otimes G(c, r.x[k]) \otimes q.eta_inf))
                  \cup V("momentum integral equation", \A k \in 1..n : solved => Close(at("tau_w", k), op.rho \otimes mom(k), "1e-6", "1e-9" \otimes op.rho \otimes momsize(k)))
                  \cup V("kinetic-energy integral equation", \A k \in 1..n : solved => Close(at("dissipation", k), op.rho \otimes kin(k), "1e-6", "0"))
                  \cup V("transpiration velocity is not the derivative of velocity times displacement thickness",
                         \A k \in 1..n : Close(at("v_e", k), tra(k), "1e-6", "0")))
            \cup (IF ~P({"C08"}) THEN {}
                  ELSE V("shape of an array answer", \A fn \in All : r.fn[fn].shape = r.fn[fn].want)
                       \cup V("array and scalar answers differ", \A fn \in All : \A k \in 1..n :
                              Same(at(fn, k), r.fn[fn].s[k]) \/ Close(at(fn, k), r.fn[fn].s[k], "1e-12", "1e-15")))
            \cup (IF ~P({"C07"}) THEN {} ELSE V("arguments changed", r.kept))

Bad(e, w0, w1, prev) ==
    IF e.resp.k = "skip" THEN {}
    ELSE (IF P({"C18"}) THEN Outcome(e, w0) \cup Kept(e, w0, prev) \cup ReadBack(e, w1) ELSE {})
         \cup (IF P({"C16"}) THEN IF Changes(e.op) THEN V("solution refused", Must(w0, e.op) => OkResp(e.resp)) \cup ReadBack(e, w1)
                                  ELSE {} ELSE {})
         \cup (IF P({"C17", "C08", "C07"}) THEN V("operation refused", (Changes(e.op) => Must(w0, e.op)) => OkResp(e.resp)) ELSE {})
         \cup (IF ~OkResp(e.resp) THEN IF Changes(e.op) THEN {} ELSE {"query refused"}
               ELSE IF e.op.op = "field" /\ P({"C16"}) THEN Field(w0[e.op.o], e.resp)
               ELSE IF e.op.op = "phys" THEN PhysClauses(w0[e.op.o], e.resp, e.op)
               ELSE {})

Init == sid \in 1..Len(Logs) /\ i = 0 /\ w = EmptyS
Next ==
    LET L == Logs[sid].log IN
    /\ i < Len(L) /\ i' = i + 1 /\ sid' = sid
    /\ LET e == L[i + 1]
           prev == IF i = 0 THEN <<>> ELSE L[i].obs
           \* an object appears with its first accepted construction
           old == IF prev = <<>> THEN <<>> ELSE IF e.op.op = "new" /\ e.op.o \in DOMAIN prev /\ OkResp(e.resp)
                  THEN [o \in DOMAIN prev \ {e.op.o} |-> prev[o]] ELSE prev
       IN /\ w' = IF Changes(e.op) /\ OkResp(e.resp) /\ ~Invalid(e.op) THEN AfterS(w, e.op) ELSE w
          /\ \A b \in Bad(e, w, w', old) : PrintT("VIOL|" \o Prop \o "|" \o b \o "|" \o ToString(Logs[sid].sid) \o "|" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================

"""Driver for the similarity solutions."""
import common
from common import F, FL, guarded, num, nums, np

from ibl.analytic import Blasius, FalknerSkan

PROPS = ("u_ref", "nu_ref", "beta", "m", "fw_pp", "eta_inf", "eta_d", "eta_m", "eta_k", "eta_s")
OF_X = ("u_e", "v_e", "delta_d", "delta_m", "delta_k", "delta_s", "shape_d", "shape_k")
OF_RHO = ("tau_w", "dissipation")
OF_XY = ("eta", "u", "v")
OF_ETA = ("f", "f_p", "f_pp")
FLAT = OF_ETA + ("u", "v")


def opt(t):
    return None if t == "none" else F(t)


def form(vals, mode):
    v = list(vals)
    if mode == "float":
        return v[0]
    if mode == "npfloat":
        return np.float64(v[0])
    if mode == "int":
        return int(v[0])
    if mode == "zerod":
        return np.array(v[0])
    if mode == "ints":
        return np.array([int(t) for t in v])
    if mode == "strided":
        return np.repeat(np.array(v), 3)[1::3]
    if mode == "array2":
        return np.array(v).reshape(2, -1)
    return np.array(v)


def yform(mode):
    return {"int": "float", "ints": "array"}.get(mode, mode)


def tok(f):
    try:
        return num(f())
    except common.Timeout:
        raise
    except Exception as e:  # noqa: BLE001
        return "exc:" + type(e).__name__


class World:
    def __init__(self):
        self.o = {}

    def do_new(self, op):
        kw = {"fw_pp": opt(op["fw"]), "eta_inf": opt(op["eta"])}
        if op["kind"] == "B":
            o = Blasius(F(op["u"]), F(op["nu"]), **kw)
        else:
            o = FalknerSkan(F(op["beta"]), F(op["u"]), F(op["nu"]), **kw)
        self.o[op["o"]] = o
        return {"k": "ok"}

    def do_set_u(self, op):
        self.o[op["o"]].u_ref = F(op["v"])
        return {"k": "ok"}

    def do_set_nu(self, op):
        self.o[op["o"]].nu_ref = F(op["v"])
        return {"k": "ok"}

    def do_set_par(self, op):
        self.o[op["o"]].set_solution_parameters(eta_inf=opt(op["eta"]), fw_pp=opt(op["fw"]))
        return {"k": "ok"}

    def do_reset_beta(self, op):
        self.o[op["o"]].reset_beta(F(op["beta"]), eta_inf=opt(op["eta"]), fw_pp=opt(op["fw"]))
        return {"k": "ok"}

    def do_reset_m(self, op):
        self.o[op["o"]].reset_m(F(op["m"]), eta_inf=opt(op["eta"]), fw_pp=opt(op["fw"]))
        return {"k": "ok"}

    def do_field(self, op):
        o = self.o[op["o"]]
        n = min(max(int(op["n"]), int(4*o.eta_inf)), 500)
        eta = np.linspace(0.0, o.eta_inf, n*4+1)
        return {"k": "ok", "eta": nums(eta), "f": nums(o.f(eta)), "p": nums(o.f_p(eta)),
                "pp": nums(o.f_pp(eta)), "fs": num(o.f_p(o.eta_s)),
                "props": {n: tok(lambda n=n: getattr(o, n)) for n in PROPS}}

    def do_phys(self, op):
        o = self.o[op["o"]]
        x = form(FL(op["x"]), op["mode"])
        xs = np.asarray(x, dtype=float).ravel()
        scale = o.eta_inf/o.eta_d
        y = form([F(t)*scale*float(o.delta_d(t2)) for t, t2 in zip(op["fr"], xs)], yform(op["mode"]))
        eta = form([F(t)*o.eta_inf for t in op["fr"]], yform(op["mode"]))
        args = [x, y, eta]
        old = [np.array(a, copy=True) for a in args]
        if op["frozen"]:
            for a in args:
                if isinstance(a, np.ndarray):
                    a.flags.writeable = False
        rho = F(op["rho"])
        calls = {n: (lambda a, b, c, n=n: getattr(o, n)(a)) for n in OF_X}
        calls.update({n: (lambda a, b, c, n=n: getattr(o, n)(a, rho)) for n in OF_RHO})
        calls.update({n: (lambda a, b, c, n=n: getattr(o, n)(a, b)) for n in OF_XY})
        calls.update({n: (lambda a, b, c, n=n: getattr(o, n)(c)) for n in OF_ETA})
        ys = np.ravel(y)
        es = np.ravel(eta)
        r = {"k": "ok", "x": nums(xs), "y": nums(ys), "eta": nums(es), "fn": {},
             "props": {n: tok(lambda n=n: getattr(o, n)) for n in PROPS}}
        for n, c in calls.items():
            try:
                # the solution itself takes locations in a row only
                flat = op["mode"] == "array2" and n in FLAT
                arg = [t.ravel() if flat else t for t in args]
                a = c(*arg)
                b = np.asarray(a)
                d = {"k": "ok", "shape": list(b.shape), "want": list(np.shape(arg[0])), "v": [num(t) for t in b.ravel()]}
            except Exception as e:  # noqa: BLE001
                d = {"k": "exc", "shape": [], "want": [], "v": ["exc:" + type(e).__name__]}
            if op["scalars"]:
                d["s"] = [tok(lambda k=k: c(float(xs[k]), float(ys[k]), float(es[k]))) for k in range(len(xs))]
            r["fn"][n] = d
        ey = [float(o.eta(float(a), float(b))) for a, b in zip(xs, ys)]
        r["fy"] = [tok(lambda t=t: o.f(t)) for t in ey]
        r["py"] = [tok(lambda t=t: o.f_p(t)) for t in ey]
        r["kept"] = bool(all(np.array_equal(a, b) for a, b in zip(args, old)))
        return r

    def look(self):
        r = {}
        for name, o in self.o.items():
            q = [tok(lambda n=n: getattr(o, n)) for n in PROPS]
            q += [tok(lambda n=n: getattr(o, n)(0.25)) for n in OF_ETA]
            q += [tok(lambda n=n: getattr(o, n)(0.7)) for n in OF_X]
            q += [tok(lambda n=n: getattr(o, n)(0.7, 1.3)) for n in OF_RHO]
            y = 0.1
            try:
                y = 0.1*o.delta_d(0.7)
            except Exception:  # noqa: BLE001
                pass
            q += [tok(lambda n=n: getattr(o, n)(0.7, y)) for n in OF_XY]
            r[name] = q
        return r


def run_session(s):
    w = World()
    log = []
    for op in s["ops"]:
        if op["op"] != "new" and op["o"] not in w.o:
            log.append({"op": op, "resp": {"k": "skip"}, "obs": w.look()})
            continue
        resp = guarded(lambda: getattr(w, "do_" + op["op"])(op))
        log.append({"op": op, "resp": resp, "obs": guarded(w.look)})
    return {"sid": s["sid"], "log": log}


if __name__ == "__main__":
    common.main(run_session)

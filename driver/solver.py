"""Driver for the boundary-layer models."""
import common
from common import F, FL, exc, guarded, num, nums, np

from ibl.ibl_method import TermEvent, TermReason
from ibl.head_method import HeadMethod
from ibl.thwaites_method import ThwaitesMethodLinear, ThwaitesMethodNonlinear
from ibl.initial_condition import (FalknerSkanStagCondition, InitialCondition,
                                   ManualCondition)

KINDS = {"TL": ThwaitesMethodLinear, "TN": ThwaitesMethodNonlinear,
         "HD": HeadMethod}
REASONS = {"Completed": TermReason.REACHED_END,
           "Separated": TermReason.SEPARATED,
           "Transition": TermReason.TRANSITIONED,
           "Unknown Event": TermReason.UNKNOWN}


class UserEvent(TermEvent):
    """A terminating event of the caller; all of them share one class."""

    def __init__(self, e):
        super().__init__()
        self.e = e

    def _call_impl(self, x, f):
        e = self.e
        if e["e"] == "x":
            return x - F(e["a"])
        if e["e"] == "nx":
            return F(e["a"]) - x
        if e["e"] == "f1":
            return float(f[1]) - F(e["a"])
        if e["e"] == "f0":
            return float(f[0]) - F(e["a"])
        if e["e"] == "raise":
            raise RuntimeError("user event")
        return 1.0

    def event_info(self):
        return REASONS[self.e["reason"]], self.e["msg"]


class UserCondition(InitialCondition):
    """An initial condition of the caller."""

    def __init__(self, k, h):
        super().__init__(-4.0, 0.7)
        self.k = k
        self.h = h

    def shape_d(self):
        return self.h

    def shape_k(self):
        return 1.6

    def delta_m(self):
        return self.k*np.sqrt(self.nu/(1.0 + self.du_e*self.du_e))

    def delta_d(self):
        return self.delta_m()*self.h

    def delta_k(self):
        return self.delta_m()*1.6


# ---------------------------------------------------------------- functions
def polyval(c, x):
    r = 0.0*x
    for v in reversed(c):
        r = r*x + v
    return r


def make_fun(f):
    """A Python callable for a catalogue function."""
    t = f["t"]
    if t == "poly":
        c = FL(f["c"])
        return lambda x: polyval(c, x)
    if t == "sin":
        a, b, k, p = F(f["a"]), F(f["b"]), F(f["k"]), F(f["p"])
        return lambda x: a + b*np.sin(k*x + p)
    if t == "exp":
        a, b, k = F(f["a"]), F(f["b"]), F(f["k"])
        return lambda x: a + b*np.exp(k*x)
    if t == "rat":
        a, b, k, n = F(f["a"]), F(f["b"]), F(f["k"]), F(f["n"])
        return lambda x: a + b/(k + x)**n
    if t == "pow":
        a, k = F(f["a"]), F(f["k"])
        return lambda x: a*x**k
    if t == "ident":
        return lambda x: x
    if t == "sc":
        g, v, xo, sl = make_fun(f["f"]), F(f["v"]), F(f["x"]), F(f["l"])
        return lambda x: v*g((x - xo)/sl)
    if t == "nan":
        c, at = FL(f["c"]), F(f["at"])
        return lambda x: np.where(np.asarray(x) > at, np.nan, polyval(c, x))
    if t == "raise":
        c, at = FL(f["c"]), F(f["at"])

        def rf(x):
            if np.any(np.asarray(x) > at):
                raise RuntimeError("user function")
            return polyval(c, x)
        return rf
    if t == "spike":
        base = F(f["base"])
        table = dict(zip(FL(f["xs"]), FL(f["vs"])))

        def sf(x):
            if np.ndim(x) == 0:
                return table.get(float(x), base)
            return np.array([table.get(float(v), base) for v in x])
        return sf
    raise AssertionError(t)


class DerivFun:
    """Callable with a derivative method, like SciPy's interpolants."""

    def __init__(self, funs):
        self._funs = funs

    def __call__(self, x):
        return self._funs[0](x)

    def derivative(self, nu=1):
        return DerivFun(self._funs[nu:])


class Keep:
    """Callable that hands out an array it keeps."""

    def __init__(self, fun, reg, name):
        self._fun, self._reg, self._name = fun, reg, name

    def __call__(self, x):
        r = self._fun(x)
        if isinstance(r, np.ndarray) and r.ndim == 1:
            r = np.array(r, dtype=float)
            self._reg.append([self._name, r, r.copy()])
        return r


def points(seq, how):
    if how == "list":
        return FL(seq)
    if how == "tuple":
        return tuple(FL(seq))
    if how == "mixed":      # whole numbers as int, the rest as float
        return [int(F(v)) if F(v) == int(F(v)) else F(v) for v in seq]
    if how == "ints":       # all numbers are whole
        return np.array([int(F(v)) for v in seq])
    return np.array(FL(seq))


def bad_velocity(name):
    x = [0.0, 1.0, 2.0]
    y = [1.0, 1.5, 1.75]
    fun = make_fun({"t": "poly", "c": ["3", "1"]})
    return {
        "tuple3": ((x, y, y), None, None),
        "tuple1": ((x,), None, None),
        "empty": ((), None, None),
        "len_mismatch": ((x, y[:2]), None, None),
        "x2d": ((np.array([x, x]), y), None, None),
        "y2d": ((x, np.array([y, y, y])), None, None),
        "one_point": (([0.0], [1.0]), None, None),
        "no_point": (([], []), None, None),
        "zero_d": ((1.0, 2.0), None, None),
        "unsorted": (([0.0, 2.0, 1.0], y), None, None),
        "dup_x": (([0.0, 1.0, 1.0], y), None, None),
        "none": (None, None, None),
        "object": (object(), None, None),
        "scalar_none": (2.0, None, None),
        "scalar_float": (2.0, 5.0, None),
        "scalar_call": (2.0, fun, None),
        "scalar_3": (2.0, (x, y, y), None),
        "scalar_len": (2.0, (x, y[:2]), None),
        "scalar_2d": (2.0, (x, np.array([y, y, y])), None),
        "scalar_one": (2.0, ([0.0], [1.0]), None),
        "scalar_unsorted": (2.0, ([0.0, 2.0, 1.0], y), None),
        "call_du": (fun, 1.0, None),
        "call_du_pts": (fun, (x, y), None),
        "call_du_d2": (fun, 1.0, fun),
        "call_d2": (fun, fun, 1.0),
        "call_d2_pts": (fun, fun, (x, y)),
        "call_d2_only": (fun, None, fun),
        "du_only": (None, fun, None),
        "d2_only": (None, None, fun),
        "zero_array": (np.array(2.0), None, None),
        "one_array": (np.array([2.0]), (x, y), None),
        "dict": ({"x": x, "u": y}, None, None),
        "set": ({1.0, 2.0}, None, None),
        "text": ("ab", None, None),
        "scalar_zero_array": (2.0, np.array(2.0), None),
        "scalar_dict": (2.0, {"x": x, "u": y}, None),
        "scalar_set": (2.0, {1.0, 2.0}, None),
        "text_pts": ((["a", "b", "c"], y), None, None),
        "none_pts": ((x, [None, None, None]), None, None),
        "scalar_none_pts": (2.0, (x, [None, None, None]), None),
    }[name]


def bad_fit(name):
    f = lambda lam: 0.2 + lam  # noqa: E731
    return {"unknown": "Thwaites", "case": "spline", "blank": "", "cb": "Cebeci",
            "tuple1": (f,), "tuple4": (f, f, f, f), "list2": [f, f],
            "none": None, "callable": f, "nc1": (1.0, f), "nc2": (f, 1.0),
            "nc3_1": (1.0, f, f), "nc3_2": (f, 2.0, f), "nc3_3": (f, f, 3.0),
            "tuple0": (), "number": 3.0}[name]


def number(op, token):
    """The number of an operation, handed over as a float or something like it."""
    v = F(token)
    if op.get("nf") == "int" and v == np.floor(v) and abs(v) < 1e6:
        return int(v)
    return np.float64(v) if op.get("nf") == "np" else v


class World:
    """Live objects of one session."""

    def __init__(self):
        self.objs = {}
        self.solved = {}     # object -> interval of last successful solve
        self.ics = {}
        self.lists = {}
        self.buf = {}
        self.passed = []     # every list of events passed
        self.events = {}
        self.funs = {}
        self.arrs = []       # [name, the array, copy before]
        self.keep = []       # arrays handed out by callables
        self.vels = {}

    # -------------------------------------------------------- arguments
    def fun(self, f, keep=False, name="u"):
        if f["t"] == "none":
            return None
        g = make_fun(f)
        if keep:
            g = Keep(g, self.keep, name)
        return g

    def velocity(self, v):
        """Arguments u_e, du_e, d2u_e."""
        form = v["form"]
        if form == "none":
            return None, None, None
        if form == "bad":
            return bad_velocity(v["name"])
        key = v.get("share")
        if key and key in self.vels:
            return self.vels[key]
        if form == "pts":
            x, y = points(v["x"], v["how"]), points(v["y"], v["how"])
            self.note("vel.x", x)
            self.note("vel.y", y)
            pair = [x, y] if v.get("pair") == "list" else (x, y)
            if v.get("pair") == "array":
                pair = np.array([x, y])
                self.note("vel.pair", pair)
            r = pair, None, None
        elif form == "dpts":
            x, y = points(v["x"], v["how"]), points(v["y"], v["how"])
            self.note("vel.x", x)
            self.note("vel.y", y)
            u0 = F(v["u0"])
            kind = v["u0as"]
            if kind == "float32":
                u0 = np.float32(u0) if np.float32(u0) == u0 else u0
            elif kind == "npfloat":
                u0 = np.float64(u0)
            elif kind != "float" and u0 == int(u0):
                u0 = {"int": int, "npint": np.int64, "int32": np.int32}[kind](u0)
            r = u0, (x, y), None
        else:
            keep = v.get("keep", False)
            if v["deriv"] == "u":
                r = (DerivFun([make_fun(v["u"]), make_fun(v["du"]),
                               make_fun(v["d2"])]), None, None)
            elif v["deriv"] == "du":
                r = (make_fun(v["u"]),
                     DerivFun([make_fun(v["du"]), make_fun(v["d2"])]), None)
            else:
                r = (self.fun(v["u"], keep, "u"),
                     self.fun(v["du"], keep, "du") if v["nd"] >= 1 else None,
                     self.fun(v["d2"], keep, "d2") if v["nd"] >= 2 else None)
        if key:
            self.vels[key] = r
        return r

    def note(self, name, arr):
        if isinstance(arr, (np.ndarray, list)):
            self.arrs.append([name, arr, np.array(arr, copy=True)])

    def fit(self, f):
        if f["t"] == "bad":
            return bad_fit(f["name"])
        if f["t"] == "custom":
            t = (make_fun(f["sh"]), make_fun(f["hh"]))
            if f["hp"]["t"] != "none":
                t = t + (make_fun(f["hp"]),)
            return t
        return f["t"]

    def ic(self, c):
        key = c.get("share")
        if key and key in self.ics:
            return self.ics[key]
        if c["t"] == "fs":
            r = FalknerSkanStagCondition(F(c["du0"]), F(c["nu0"]))
        elif c["t"] == "usr":
            r = UserCondition(F(c["k"]), F(c["h"]))
        else:
            r = ManualCondition(delta_d=F(c["dd"]), delta_m=F(c["dm"]),
                                delta_k=F(c["dk"]))
        if key:
            self.ics[key] = r
        return r

    def event(self, e):
        key = e["id"]
        if key in self.events:
            return self.events[key]
        ev = UserEvent(e)
        ev.terminal = e["term"]
        if e.get("dir"):
            ev.direction = e["dir"]
        self.events[key] = ev
        ev.tag = key
        return ev

    # ----------------------------------------------------- observations
    def observe(self, o):
        m = self.objs[o]
        q = lambda fun: self.one(fun)  # noqa: E731
        cfg = [q(lambda: m.nu), q(lambda: m.initial_delta_m)]
        if isinstance(m, HeadMethod):
            cfg.append(q(lambda: m.initial_shape_d))
        vel = []
        for x in (0.125, 0.25):
            vel += [q(lambda: m.u_e(x)), q(lambda: m.du_e(x)),
                    q(lambda: m.d2u_e(x))]
        lo, hi = self.solved.get(o, (0.125, 0.25))
        prof = []
        for w in (0.0, 0.375, 1.0):
            x = lo + w*(hi - lo)
            prof += [q(lambda: m.delta_m(x)), q(lambda: m.delta_d(x)),
                     q(lambda: m.shape_d(x)), q(lambda: m.tau_w(x, 1.5)),
                     q(lambda: m.v_e(x))]
        return {"cfg": cfg, "vel": vel, "prof": prof}

    @staticmethod
    def one(fun):
        try:
            return num(fun())
        except common.Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            return "exc:" + ("ValueError" if isinstance(e, ValueError)
                             else type(e).__name__)

    # ------------------------------------------------------- operations
    def build(self, cfg):
        """A fresh object with a complete configuration."""
        kind = cfg["kind"]
        u, du, d2 = self.velocity(cfg["vel"])
        args = {"nu": F(cfg["nu"]), "U_e": u, "dU_edx": du, "d2U_edx2": d2}
        if kind == "HD":
            args["shape_d_crit"] = F(cfg["crit"])
        else:
            args["data_fits"] = self.fit(cfg["fit"])
        m = KINDS[kind](**args)
        if cfg["ic"]["t"] != "own":
            m.set_initial_condition(self.ic(cfg["ic"]))
        else:
            if cfg["dm"] != "inf":
                m.initial_delta_m = F(cfg["dm"])
            if kind == "HD" and cfg["h"] != "inf":
                m.initial_shape_d = F(cfg["h"])
        return m

    def do_new(self, op):
        u, du, d2 = self.velocity(op["vel"])
        args = {"nu": number(op, op["nu"])}
        if op["via"] == "ctor":
            args.update(U_e=u, dU_edx=du, d2U_edx2=d2)
        if op["kind"] == "HD":
            if op["crit"] != "default":
                args["shape_d_crit"] = number(op, op["crit"])
        elif op["fit"]["t"] != "default":
            args["data_fits"] = self.fit(op["fit"])
        m = KINDS[op["kind"]](**args)
        if op["via"] == "set":
            if du is None:
                m.set_velocity(u)
            elif d2 is None:
                m.set_velocity(u, du)
            else:
                m.set_velocity(u, du, d2)
        self.objs[op["o"]] = m
        self.solved.pop(op["o"], None)
        return {"k": "ok"}

    def setter(self, op):
        m = self.objs[op["o"]]
        n = op["op"]
        if n == "set_nu":
            m.nu = number(op, op["v"])
        elif n == "set_dm":
            m.initial_delta_m = number(op, op["v"])
        elif n == "set_h":
            m.initial_shape_d = number(op, op["v"])
        elif n == "set_init":
            m.initial_delta_m = number(op, op["v"])
            m.initial_shape_d = number(op, op["h"])
        elif n == "set_crit":
            m.set_shape_d_critical(number(op, op["v"]))
        elif n == "set_fit":
            m.set_data_fits(self.fit(op["fit"]))
        elif n == "set_ic":
            m.set_initial_condition(self.ic(op["ic"]))
        elif n == "set_vel":
            u, du, d2 = self.velocity(op["vel"])
            if du is None and d2 is None:
                m.set_velocity(u)
            else:
                m.set_velocity(u, du, d2)
        else:
            raise AssertionError(n)
        return {"k": "ok"}

    @staticmethod
    def grid(lo, hi, ns, how):
        # ns panels of two intervals each
        knots = np.linspace(0.0, 1.0, ns + 1)
        if how == "geom":        # dense at the start
            k = ns//2
            knots = np.concatenate(([0.0], np.geomspace(1e-5, 0.03, k),
                                    np.linspace(0.03, 1.0, ns - k + 1)[1:]))
        w = np.empty(2*ns + 1)
        w[0::2], w[1::2] = knots, 0.5*(knots[1:] + knots[:-1])
        x = lo + w*(hi - lo)
        x[0], x[-1] = lo, hi
        return x

    def profile(self, m, lo, hi, ns, how, rho):
        x = self.grid(lo, hi, ns, how)
        r = {"k": "ok", "x": nums(x)}
        for name, fun in (("u", m.u_e), ("du", m.du_e), ("d2", m.d2u_e),
                          ("dm", m.delta_m), ("h", m.shape_d),
                          ("dd", m.delta_d), ("ve", m.v_e),
                          ("tw", lambda t: m.tau_w(t, rho))):
            v = nums(np.asarray(fun(np.array(x)), float)*np.ones_like(x))
            r[name] = v
        return r

    def run_solve(self, m, op, lists):
        mode = op["mode"]
        evs = [self.event(e) for e in op["ev"]]
        if mode == "none":
            arg = None
        elif mode == "single":
            arg = evs[0]
        else:
            key = op.get("list", "")
            if lists is not None and key and key in lists:
                arg = lists[key]
            else:
                arg = list(evs)
                if lists is not None and key:
                    lists[key] = arg
                if lists is not None:
                    self.passed.append(arg)
        before = [e.tag for e in arg] if isinstance(arg, list) else []
        r = {}
        try:
            if mode == "none" and op.get("omit", True):
                res = m.solve(number(op, op["x0"]), number(op, op["xe"]))
            else:
                res = m.solve(number(op, op["x0"]), number(op, op["xe"]),
                              arg)
            r = {"k": "ok", "status": str(res.status), "x_end": num(res.x_end),
                 "f_end": nums(np.atleast_1d(res.f_end)),
                 "msg": str(res.message), "success": bool(res.success)}
        except common.Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            r = exc(e)
        r["before"] = before
        r["after"] = ([getattr(e, "tag", "model") for e in arg]
                      if isinstance(arg, list) else [])
        return r

    def sampled(self, m, op, r):
        if r["k"] == "ok" and r["success"] and op["ns"] > 0:
            try:
                r["prof"] = self.profile(m, F(op["x0"]), float(r["x_end"]),
                                         op["ns"], op["grid"], F(op["rho"]))
            except common.Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                r["prof"] = exc(e)
        else:
            r["prof"] = {"k": "none"}

    def do_solve(self, op):
        o = op["o"]
        m = self.objs[o]
        self.solved.pop(o, None)
        r = self.run_solve(m, op, self.lists)
        self.sampled(m, op, r)
        if r["k"] == "ok" and r["success"]:
            try:
                self.solved[o] = (F(op["x0"]), float(r["x_end"]))
            except ValueError:
                pass
        r["fresh"] = {"k": "none"}
        if op["fresh"]:
            try:
                w = World()
                if op.get("shareobjs"):
                    w.ics, w.vels = self.ics, self.vels
                f = w.build(op["cfg"])
                r["fresh"] = w.run_solve(f, op, None)
                w.sampled(f, op, r["fresh"])
            except common.Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                r["fresh"] = exc(e)
                r["fresh"]["prof"] = {"k": "none"}
        return r

    def do_query(self, op):
        """Array query and scalar queries at the same points."""
        m = self.objs[op["o"]]
        rho = F(op["rho"])
        x = np.array(FL(op["xs"]))
        if op["rel"] and op["o"] in self.solved:
            lo, hi = self.solved[op["o"]]
            x = lo + x*(hi - lo)
        if op["how"] == "ints" and op["rel"] and np.floor(hi) > np.ceil(lo):
            x = np.clip(np.round(x), np.ceil(lo), np.floor(hi))
        funs = {"u": m.u_e, "du": m.du_e, "d2": m.d2u_e, "dm": m.delta_m,
                "dd": m.delta_d, "h": m.shape_d, "ve": m.v_e,
                "tw": lambda t: m.tau_w(t, rho), "dk": m.delta_k,
                "hk": m.shape_k, "di": lambda t: m.dissipation(t, rho)}
        r = {"k": "ok", "x": nums(x), "arr": {}, "sca": {}}
        as_scalar = {"float": float, "npfloat": np.float64, "zerod": np.array,
                     "int": lambda t: int(t) if t == int(t) else float(t)}
        for n in op["names"]:
            arg = x.copy()
            if op["how"] == "ints" and np.all(x == np.round(x)):
                arg = x.astype(int)
            if op["how"] == "strided":
                arg = np.repeat(x, 2)[::2]
            elif op["how"] == "frozen":
                arg.setflags(write=False)
            elif op["how"] == "again":     # one array, filled anew each time
                arg = self.buf.setdefault(len(x), np.empty(len(x)))
                arg[:] = x
            try:
                got = funs[n](arg)
                r["arr"][n] = nums(got)
                if op["how"] == "again" and isinstance(got, np.ndarray) \
                        and got.flags.writeable and not any(
                            np.shares_memory(got, k[1]) for k in self.keep):
                    got *= -5.0      # what was answered belongs to the caller
            except common.Timeout:
                raise
            except Exception as e:  # noqa: BLE001
                r["arr"][n] = ["exc:" + type(e).__name__]
            self.arrs.append(["q." + n, arg.copy() if op["how"] == "again"
                              else arg, x.copy()])
            if op["scalar"]:
                r["sca"][n] = [self.one(lambda t=t: funs[n](
                                   as_scalar[op["howsca"]](t)))
                               for t in x]
        return r

    def do_mutate(self, _op):
        """The caller edits every array it has handed in."""
        for name, arr, copy in self.arrs:
            if name.startswith("vel."):
                if isinstance(arr, np.ndarray):
                    arr *= -3.0
                    arr += 7.0
                else:
                    for i, v in enumerate(arr):
                        arr[i] = 7 - 3*v
        self.arrs = []
        return {"k": "ok"}

    def do_edit_lists(self, op):
        """The caller edits every list of events it has passed."""
        for arg in self.passed:
            arg.clear()
            if op["how"] != "clear":
                arg.append(self.event({"id": "edit-" + op["how"],
                                       "e": "raise" if op["how"] == "raise" else "x", "a": "0.35",
                                       "term": True, "reason": "Transition", "msg": "edited"}))
        self.passed, self.lists = [], {}
        return {"k": "ok"}

    def arrays(self):
        r = []
        for name, arr, copy in self.arrs + self.keep:
            r.append({"name": name, "before": nums(copy),
                      "after": nums(np.array(arr))})
        self.keep.clear()
        return r


def run_session(s):
    w = World()
    log = []
    obs = s["obs"]
    for op in s["ops"]:
        n = op["op"]
        if n != "new" and op["o"] not in w.objs:
            # constructor was refused
            log.append({"op": op, "resp": {"k": "skip"}, "obs": {}, "arrs": []})
            continue
        fun = {"new": w.do_new, "solve": w.do_solve, "q": w.do_query,
               "mutate": w.do_mutate, "edit_lists": w.do_edit_lists,
               "look": lambda op: {"k": "ok"}}.get(n, w.setter)
        resp = guarded(lambda: fun(op))
        e = {"op": op, "resp": resp, "obs": {}, "arrs": []}
        if obs:
            e["obs"] = guarded(lambda: {o: w.observe(o) for o in w.objs})
        if s["arrs"]:
            e["arrs"] = guarded(w.arrays)
        log.append(e)
    return {"sid": s["sid"], "log": log}


if __name__ == "__main__":
    common.main(run_session)

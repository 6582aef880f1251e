"""Driver for the skin-friction relations and the initial conditions."""
import common
from common import F, FL, guarded, num, np

from ibl import skin_friction
from ibl.initial_condition import FalknerSkanStagCondition, ManualCondition

FUN = {"lt": skin_friction.ludwieg_tillman, "felsch": skin_friction.felsch,
       "white": skin_friction.white}


def arg(vals, mode):
    v = FL(vals)
    if mode == "float":
        return v[0]
    if mode == "npfloat":
        return np.float64(v[0])
    if mode == "int":
        return int(v[0])
    if mode == "zerod":
        return np.array(v[0])
    if mode == "ints":
        return np.array([int(t) for t in v])
    if mode == "array2":
        return np.array(v).reshape(2, -1)
    if mode == "strided":
        return np.repeat(np.array(v), 3)[1::3]
    return np.array(v)


class World:
    def __init__(self):
        self.ics = {}

    def do_cf(self, op):
        re, h = arg(op["re"], op["rem"]), arg(op["h"], op["hm"])
        re0, h0 = np.array(re, copy=True), np.array(h, copy=True)
        for a in (re, h):
            if isinstance(a, np.ndarray) and op["frozen"]:
                a.flags.writeable = False
        v = FUN[op["fn"]](re, h)
        a = np.asarray(v)
        r = {"k": "ok", "shape": list(a.shape), "v": [num(t) for t in a.ravel()],
             "kept": bool(np.array_equal(re, re0) and np.array_equal(h, h0)),
             "want": list(np.broadcast(np.asarray(re), np.asarray(h)).shape)}
        return r

    def do_ic(self, op):
        if op["t"] == "fs":
            self.ics[op["o"]] = FalknerSkanStagCondition(F(op["du"]), F(op["nu"]))
        else:
            self.ics[op["o"]] = ManualCondition(F(op["dd"]), F(op["dm"]), F(op["dk"]))
        return {"k": "ok"}

    def do_set(self, op):
        setattr(self.ics[op["o"]], op["field"], F(op["v"]))
        return {"k": "ok"}

    def look(self):
        r = {}
        for o, c in self.ics.items():
            d = {}
            for n, f in (("nu", lambda: c.nu), ("du", lambda: c.du_e), ("hd", c.shape_d),
                         ("hk", c.shape_k), ("dd", c.delta_d), ("dm", c.delta_m),
                         ("dk", c.delta_k)):
                try:
                    d[n] = num(f())
                except Exception as e:  # noqa: BLE001
                    d[n] = "exc:" + type(e).__name__
            r[o] = d
        return r


def run_session(s):
    w = World()
    log = []
    for op in s["ops"]:
        if op["op"] == "set" and op["o"] not in w.ics:
            log.append({"op": op, "resp": {"k": "skip"}, "obs": w.look()})
            continue
        fun = {"cf": w.do_cf, "ic": w.do_ic, "set": w.do_set}[op["op"]]
        resp = guarded(lambda: fun(op))
        log.append({"op": op, "resp": resp, "obs": guarded(w.look)})
    return {"sid": s["sid"], "log": log}


if __name__ == "__main__":
    common.main(run_session)

"""Driver for the XFoil dump reader and its records.

Files are written to a scratch directory that is removed at the end."""
import os
import shutil
import sys
import tempfile

import common
from common import F, guarded, num, nums

from ibl.reference import XFoilAirfoilData, XFoilReader, XFoilWakeData

AIR = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "c_f", "shape_d", "shape_k", "mom_defect", "mass_defect",
       "ke_defect")
WAKE = ("s", "x", "y", "u_e_rel", "delta_d", "delta_m", "shape_d")
CASE = ("alpha", "u_ref", "c", "reynolds", "n_trans", "x_trans_upper", "x_trans_lower")
BOTH = ("s", "x", "y", "u_e", "delta_d", "delta_m", "delta_k", "shape_d", "shape_k", "c_f", "mass_defect",
        "mom_defect", "ke_defect")
BEHIND = ("s", "x", "y", "u_e", "delta_d", "delta_m", "shape_d")
SHIPPED = {"inviscid": "tests/data/xfoil_inviscid_dump.txt", "viscous": "tests/data/xfoil_viscous_dump.txt",
           "turbulent": "examples/data/xfoil_0012_turbulent_dump.txt", "natural": "examples/data/xfoil_natural_dump.txt"}
SCRATCH = [""]
REPO = os.environ.get("IBL_REPO", "/repo")


def tok(f):
    try:
        return num(f())
    except common.Timeout:
        raise
    except Exception as e:  # noqa: BLE001
        return "exc:" + type(e).__name__


class World:
    def __init__(self, sid):
        self.sid = sid
        self.o = {}
        self.rec = {}
        self.paths = {"": ""}

    def path(self, f):
        """Write the file (again) and return its name and rows."""
        if f["t"] == "none":
            return "", [], []
        if f["t"] == "shipped":
            p = os.path.join(REPO, SHIPPED[f["name"]])
            self.paths[p] = f["name"]
            with open(p, encoding="utf8") as h:
                rows = [r.split() for r in h if not r.startswith("#")]
            return p, [r for r in rows if len(r) == 12], [r for r in rows if len(r) == 8]
        p = os.path.join(SCRATCH[0], "%s-%s.txt" % (self.sid, f["name"]))
        self.paths[p] = f["name"]
        if f["t"] == "missing":
            if os.path.exists(p):
                os.remove(p)
            return p, [], []
        lines = ["#    s        x        y     Ue/Vinf    Dstar     Theta      Cf       H       H*        P"
                 "         m          K          tau         Di"] if f["head"] else []
        lines += ["".join(" " + t.rjust(10) for t in r) for r in f["air"]]
        lines += ["".join(" " + t.rjust(8) for t in r) for r in f["wake"]]
        with open(p, "w", encoding="utf8") as h:
            h.write("\n".join(lines) + ("\n" if f["nl"] else ""))
        return p, f["air"], f["wake"]

    def do_new(self, op):
        p, air, wake = self.path(op["file"])
        try:
            self.o[op["o"]] = XFoilReader(p) if op["arg"] else XFoilReader()
        except Exception as e:  # noqa: BLE001
            return dict(common.exc(e), air=air, wake=wake)
        return {"k": "ok", "air": air, "wake": wake}

    def do_load(self, op):
        p, air, wake = self.path(op["file"])
        try:
            self.o[op["o"]].filename = p
        except Exception as e:  # noqa: BLE001
            return dict(common.exc(e), air=air, wake=wake)
        return {"k": "ok", "air": air, "wake": wake}

    def do_set(self, op):
        v = op["v"] if op["field"] == "name" else F(op["v"])
        setattr(self.o[op["o"]], op["field"], v)
        return {"k": "ok"}

    def do_touch(self, op):
        o = self.o[op["o"]]
        if op["side"] == "wake" and o.wake_count() < op["i"]:
            return {"k": "skip"}
        r = getattr(o, op["side"])(op["i"] - 1)
        setattr(r, op["field"], F(op["v"]))
        return {"k": "ok"}

    def do_scribble(self, op):
        o = self.o[op["o"]]
        for n in BOTH:
            for side in ("upper", "lower"):
                a = getattr(o, n + "_" + side)()
                if a.size:
                    a[0] = 77.0
        for n in BEHIND:
            a = getattr(o, n + "_wake")()
            if a.size:
                a[-1] = 77.0
        return {"k": "ok"}

    # records on their own
    def do_rec(self, op):
        cls = XFoilAirfoilData if op["t"] == "air" else XFoilWakeData
        self.rec[op["o"]] = (op["t"], cls(" ".join(op["row"])))
        return {"k": "ok"}

    def do_recreset(self, op):
        self.rec[op["o"]][1].reset("  ".join(op["row"]))
        return {"k": "ok"}

    def do_recset(self, op):
        setattr(self.rec[op["o"]][1], op["field"], F(op["v"]))
        return {"k": "ok"}

    def look(self):
        r = {"rec": {}, "o": {}}
        for n, (t, c) in self.rec.items():
            r["rec"][n] = [tok(lambda f=f: getattr(c, f)) for f in (AIR if t == "air" else WAKE)]
        for n, o in self.o.items():
            fn = o.filename
            d = {"file": self.paths[fn] if fn in self.paths else "other:" + str(fn), "name": str(o.name),
                 "case": [tok(lambda f=f: getattr(o, f)) for f in CASE]}
            for side, count, cols in (("upper", o.upper_count, AIR), ("lower", o.lower_count, AIR),
                                      ("wake", o.wake_count, WAKE)):
                d[side] = [[tok(lambda f=f: getattr(getattr(o, side)(i), f)) for f in cols] for i in range(count())]
            d["arr"] = {}
            for q in BOTH:
                for side in ("upper", "lower"):
                    d["arr"][q + "_" + side] = nums(getattr(o, q + "_" + side)())
            for q in BEHIND:
                d["arr"][q + "_wake"] = nums(getattr(o, q + "_wake")())
            r["o"][n] = d
        return r


def run_session(s):
    w = World(s["sid"])
    log = []
    for op in s["ops"]:
        have = {"new": True, "rec": True, "recset": op["o"] in w.rec, "recreset": op["o"] in w.rec}.get(
            op["op"], op["o"] in w.o)
        if not have:
            log.append({"op": op, "resp": {"k": "skip"}, "obs": guarded(w.look)})
            continue
        resp = guarded(lambda: getattr(w, "do_" + op["op"])(op))
        log.append({"op": op, "resp": resp, "obs": guarded(w.look)})
    return {"sid": s["sid"], "log": log}


if __name__ == "__main__":
    SCRATCH[0] = tempfile.mkdtemp(prefix="iblx")
    try:
        common.main(run_session)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)

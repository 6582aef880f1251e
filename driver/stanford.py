"""Driver for the Stanford cases and their station records.

Generated case files have to lie next to the shipped ones, so every worker
imports its own copy of the package, in a scratch directory that is removed at
the end."""
import os
import shutil
import sys
import tempfile

import common
from common import F, FL, guarded, np, num, nums

REPO = os.environ.get("IBL_REPO", "/repo")
SCRATCH = [""]
MINE = {}
SCALARS = ("x", "u_e", "du_e", "delta_m", "shape_d", "shape_k", "shape_eq", "c_f", "c_f_lt", "c_f_exp", "beta_eq",
           "u_star", "nu", "delta_d", "delta_k", "delta_c", "re_delta_m", "re_delta_d")
ARRAYS = ("y_plus", "u_plus", "y", "u", "y_c", "u_defect")
HEADS = {"summ": ("Summary data", "X UI DUI THETA H HS G CF CFLT CFE BETA"),
         "smooth": ("Edge velocity plot", "X UI DUI"),
         "stat": ("Stations summary", "X US UI V THETA DELS ENTH CLTH H G HS RTHETA RDELS")}


def mine():
    """This worker's package; returns its module and its directory of case files."""
    pid = os.getpid()
    if pid not in MINE:
        d = os.path.join(SCRATCH[0], str(pid))
        shutil.copytree(os.path.join(REPO, "ibl"), os.path.join(d, "ibl"), ignore=shutil.ignore_patterns("__pycache__"))
        sys.path.insert(0, d)
        import ibl.reference as ref
        if not ref.__file__.startswith(d):
            raise RuntimeError("the scratch copy is not the one imported")
        MINE[pid] = (ref, os.path.join(d, "ibl", "data", "stanford_olympics", "1968"))
    return MINE[pid]


def tok(f):
    try:
        return num(f())
    except Exception as e:  # noqa: BLE001
        return "exc:" + type(e).__name__


def toks(f):
    try:
        return nums(f())
    except Exception as e:  # noqa: BLE001
        return ["exc:" + type(e).__name__]


def parse(path):
    """The rows of a shipped file, by the number of columns and the order of the blocks."""
    blocks, new = [], True
    with open(path, encoding="utf8") as h:
        for line in h:
            if line.startswith("#"):
                new = True
            elif line.strip():
                if new:
                    blocks.append([])
                    new = False
                blocks[-1].append(line.split())
    nu = blocks[0][1][-1]
    return {"nu": nu, "summ": blocks[1], "smooth": blocks[2], "stat": blocks[3] if len(blocks) > 3 else [],
            "det": blocks[4:]}


def write(path, f):
    other = "1777" if f["si"] else "2777"
    flaw = f["flaw"]
    eq = {"spaced": " = ", "tight": "=", "wide": "   =\t", "lower": " = "}[f["style"]]
    end = "  " if f["style"] == "wide" else ""
    ident, visc = ("ident", "v") if f["style"] == "lower" else ("IDENT", "V")
    name = {"ident": other, "longer": f["id"] + "1", "shorter": f["id"][:-1], "before": "1" + f["id"]}.get(flaw, f["id"])
    out = ["# A case", ("CASE" if flaw == "label" else ident) + eq + name + end]
    if flaw == "noeq":
        out[1] = ident + " " + name
    if flaw in ("nueq", "nuempty"):
        out.append(visc + (" " + f["nu"] if flaw == "nueq" else eq))
    elif flaw != "nonu":
        out.append(("NU" if flaw == "nulabel" else visc) + eq + f["nu"] + end)
    out.append("")
    blocks = [HEADS["summ"] + (f["summ"],)]
    if flaw != "cut":
        blocks.append(HEADS["smooth"] + (f["smooth"],))
        if f["stat"]:
            blocks.append(HEADS["stat"] + (f["stat"],))
            for k, rows in enumerate(f["det"]):
                blocks.append(("Station %d data" % (k + 1), "Y+ U+ Y U/UI Y/CD UDEF", rows))
    for title, cols, rows in blocks:
        out += ["# " + title, "# " + "  ".join(cols.split())]
        gap = {"wide": "\t ", "tight": " "}.get(f["style"], "  ")
        out += [" " + gap.join(r) + end for r in rows] + [""]
    text = "\n".join(out).encode("utf8")
    if flaw == "nohash":
        text = text.replace(b"#", b"")
    elif flaw == "nothing":
        text = b""
    elif flaw == "bytes":
        text += b"\xff\xfe"
    with open(path, "wb") as h:
        h.write(text)


class World:
    def __init__(self, sid):
        self.sid = sid
        self.ref, self.dir = mine()
        self.o = {}
        self.rec = {}
        self.made = set()

    def place(self, f):
        """Put the file where the code looks for it; returns the answer to give along."""
        path = os.path.join(self.dir, "case %s.txt" % f["id"])
        if f["t"] == "gen":
            write(path, f)
            self.made.add(path)
        elif f["t"] == "missing":
            if os.path.exists(path) and path in self.made:
                os.remove(path)
        elif f["t"] == "shipped":
            return {"file": parse(path)}
        return {}

    def cleanup(self):
        for p in self.made:
            if os.path.exists(p):
                os.remove(p)

    def do_new(self, op):
        more = self.place(op["file"])
        try:
            self.o[op["o"]] = (self.ref.StanfordOlympics1968(op["file"]["id"]) if op["arg"]
                               else self.ref.StanfordOlympics1968())
        except Exception as e:  # noqa: BLE001
            return dict(common.exc(e), **more)
        return dict({"k": "ok"}, **more)

    def do_select(self, op):
        more = self.place(op["file"])
        try:
            self.o[op["o"]].case = op["file"]["id"]
        except Exception as e:  # noqa: BLE001
            return dict(common.exc(e), **more)
        return dict({"k": "ok"}, **more)

    def do_touch(self, op):
        setattr(self.o[op["o"]].station(op["i"] - 1), op["field"], F(op["v"]))
        return {"k": "ok"}

    def do_scribble(self, op):
        for f in SCALARS:
            a = getattr(self.o[op["o"]], f)()
            if a.size:
                a[0] = 77.0
        return {"k": "ok"}

    def make(self, op, fun):
        return fun(si_unit=op["si"], summ_data=" ".join(op["summ"]), stat_summ="  ".join(op["stat"]),
                   stat_data=["  ".join(r) for r in op["det"]])

    def do_rec(self, op):
        self.rec[op["o"]] = self.make(op, self.ref.StanfordOlympics1968StationData)
        return {"k": "ok"}

    def do_recreset(self, op):
        self.make(op, self.rec[op["o"]].reset)
        return {"k": "ok"}

    def do_recset(self, op):
        setattr(self.rec[op["o"]], op["field"], F(op["v"]))
        return {"k": "ok"}

    def do_recarr(self, op):
        setattr(self.rec[op["o"]], op["field"], np.array(FL(op["v"])))
        return {"k": "ok"}

    @staticmethod
    def station(s):
        return {"v": {f: tok(lambda f=f: getattr(s, f)) for f in SCALARS},
                "a": {f: toks(lambda f=f: getattr(s, f)) for f in ARRAYS}, "n": str(s.sample_count())}

    def look(self):
        r = {"o": {}, "rec": {n: self.station(s) for n, s in self.rec.items()}}
        for n, o in self.o.items():
            k = o.station_count()
            r["o"][n] = {"case": str(o.case), "nu": tok(lambda: o.nu_ref), "n": str(k),
                         "st": [self.station(o.station(i)) for i in range(k)],
                         "arr": {f: toks(lambda f=f: getattr(o, f)()) for f in SCALARS},
                         "prof": [{f: toks(lambda f=f, i=i: getattr(o, f)(i)) for f in ARRAYS} for i in range(k)],
                         "sx": toks(o.x_smooth), "su": toks(o.u_e_smooth), "sd": toks(o.du_e_smooth)}
        return r


def run_session(s):
    w = World(s["sid"])
    log = []
    for op in s["ops"]:
        have = {"new": True, "rec": True}.get(op["op"], op["o"] in (w.rec if op["op"].startswith("rec") else w.o))
        if not have:
            log.append({"op": op, "resp": {"k": "skip"}, "obs": guarded(w.look)})
            continue
        resp = guarded(lambda: getattr(w, "do_" + op["op"])(op))
        log.append({"op": op, "resp": resp, "obs": guarded(w.look)})
    w.cleanup()
    return {"sid": s["sid"], "log": log}


if __name__ == "__main__":
    SCRATCH[0] = tempfile.mkdtemp(prefix="ibls")
    try:
        common.main(run_session)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)

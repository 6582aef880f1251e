#!/usr/bin/env python3
"""Runner: check.py PROPERTY quick|thorough      decide one property
           check.py --setup                      compile what TLC needs
           check.py --replay FILE                rerun one reported session
           check.py --selftest [PROPERTY...]     change recorded answers; report how often the judges object

For every component of a property TLC writes scripts from the specification
(gen), the driver runs them on the code under /repo (driver), and TLC judges
the recorded runs against the specification (trace).  Design models (mc) are
explored exhaustively as well.  Everything the verdict rests on is in spec/.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
WORK = os.path.join(HERE, "work")
TLA = "/opt/veriftools/tla"
CP = ":".join([BUILD, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
PY = "/opt/venv/bin/python"
CORES = 8


def S(n, quick, thorough, gen="GenSolver", driver="solver", trace="TraceSolver", **env):
    """A component: generator, driver, judge; sizes of a quick and a thorough batch."""
    return {"name": n, "q": quick, "t": thorough, "gen": gen, "driver": driver,
            "trace": trace, "env": env}


def life(mode, quick, thorough, keepq=1, keept=1):
    c = S("life-" + mode, quick, thorough, gen="GenLife", MODE=mode)
    c["keep"] = (keepq, keept)
    c["again"] = mode != "sweep"
    return c


def rel(quick, thorough):
    return S("relations", quick, thorough, gen="GenClosure", driver="closure", trace="TraceClosure")


def sim(quick, thorough):
    return S("similarity", quick, thorough, gen="GenSim", driver="similarity", trace="TraceSim")


def xfoil(quick, thorough):
    return S("xfoil", quick, thorough, gen="GenXFoil", driver="xfoil", trace="TraceXFoil")


def stanford(quick, thorough):
    return S("stanford", quick, thorough, gen="GenStanford", driver="stanford", trace="TraceStanford")


READER_MC = {"model": "ReaderMC", "q": {}, "t": {}}
SIM_MC = {"model": "SimMC", "q": {}, "t": {}}
SOLVER_MC = {"model": "SolverMC", "q": {"DEPTH": "6"}, "t": {"DEPTH": "99"}}

CHECKS = {
    "C01": {"mc": [], "comps": [S("velocity", 700, 2000)]},
    "C02": {"mc": [SOLVER_MC], "comps": [life("sweep", 1, 1), life("walks", 250, 800), life("edges", 1, 1, 60, 8)]},
    "C03": {"mc": [SOLVER_MC], "comps": [life("walks", 250, 800), life("edges", 1, 1, 30, 8)]},
    "C04": {"mc": [], "comps": [S("endings", 900, 2500)]},
    "C05": {"mc": [SOLVER_MC], "comps": [life("walks", 300, 800), life("edges", 1, 1, 40, 8)]},
    "C06": {"mc": [SOLVER_MC], "comps": [life("walks", 300, 800), life("edges", 1, 1, 40, 8)]},
    "C07": {"mc": [SOLVER_MC], "comps": [S("arrays", 300, 1000), rel(300, 1500), sim(60, 300)]},
    "C08": {"mc": [], "comps": [S("arrays", 500, 1500), rel(300, 1500), sim(80, 400)]},
    "C09": {"mc": [], "comps": [S("closure", 500, 1200)]},
    "C10": {"mc": [], "comps": [S("momentum", 500, 1200)]},
    "C11": {"mc": [], "comps": [S("separation", 800, 2000)]},
    "C12": {"mc": [], "comps": [S("head", 500, 1200)]},
    "C13": {"mc": [], "comps": [S("fits", 500, 1200)]},
    "C14": {"mc": [], "comps": [rel(800, 4000)]},
    "C15": {"mc": [], "comps": [S("start", 400, 1000), rel(500, 2000)]},
    "C16": {"mc": [], "comps": [sim(300, 800)]},
    "C17": {"mc": [SIM_MC], "comps": [sim(250, 800)]},
    "C18": {"mc": [SIM_MC], "comps": [sim(150, 400)]},
    "C19": {"mc": [], "comps": [xfoil(700, 3000)]},
    "C20": {"mc": [READER_MC], "comps": [xfoil(600, 2500)]},
    "C21": {"mc": [], "comps": [stanford(600, 3000)]},
    "C22": {"mc": [READER_MC], "comps": [stanford(500, 2000)]},
    "C23": {"mc": [], "comps": [xfoil(300, 1500), stanford(500, 2000)]},
    "C24": {"mc": [], "comps": [stanford(700, 3000)]},
}

ASSUMPTIONS = [
    "TLC and its Java runtime evaluate the specification correctly; Float64 operators are IEEE-754 doubles with"
    " decimal-string arguments",
    "the driver records what the public API answered (it makes no judgement)",
    "inputs stay inside the domain named in DESIGN.md (no NaN input, queries inside the solved interval)",
]


class ToolError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w", encoding="utf8") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return None


def setup():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "java", "Float64.java")
    cls = os.path.join(BUILD, "Float64.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", BUILD, src], check=True)


def tlc(module, env, workers, out, timeout, heap="4g"):
    meta = out + ".meta"
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", module + ".cfg", module + ".tla"]
    rc = sh(cmd, env, SPEC, timeout, out)
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, encoding="utf8", errors="replace") as f:
        text = f.read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    n = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, text, n


DRIVER_ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_CORETYPE": "Haswell",
              "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}


def generate(prop, c, n, seed, keep, d):
    src = os.path.join(d, "in.ndjson")
    env = {"SEED": seed, "PROP": prop, "N": str(n), "OUT": src, "KEEP": str(keep), "MODE": "", **c["env"]}
    rc, text, states = tlc(c["gen"], env, 1, os.path.join(d, "gen.out"), 600)
    if rc != 0 or not os.path.exists(src):
        raise ToolError("generator failed:\n" + text[-3000:])
    return src, states


def drive(c, src, d, timeout=600):
    log = os.path.join(d, "log.ndjson")
    rc = sh([PY, os.path.join(HERE, "driver", c["driver"] + ".py"), src, log, str(CORES)], DRIVER_ENV,
            os.path.join(HERE, "driver"), timeout, os.path.join(d, "drv.out"))
    if rc != 0:
        with open(os.path.join(d, "drv.out"), encoding="utf8") as f:
            raise ToolError("driver failed (%s):\n%s" % (rc, f.read()[-3000:]))
    return log


def judge(prop, c, log, d):
    """(violations [(clause, sid, step)], states, sessions)"""
    rc, text, states = tlc(c["trace"], {"PROP": prop, "LOG": log, **c["env"]}, CORES,
                           os.path.join(d, "trace.out"), 800, "8g")
    viol = []
    for line in text.splitlines():
        m = re.match(r'^"?VIOL\|([^|]*)\|(.*)\|([^|]*)\|(\d+)"?$', line.strip())
        if m:
            viol.append((m.group(2), m.group(3), int(m.group(4))))
    with open(log, encoding="utf8") as f:
        steps = [len(json.loads(line)["log"]) for line in f if line.strip()]
    want = sum(steps) + len(steps)
    if (rc != 0 or states[1] != want) and not viol:
        # the judge could not make sense of what the code answered
        m = re.findall(r"^/\\ sid = (\d+)|^sid = (\d+)", text, re.M)
        viol.append(("recorded run is not one the specification can evaluate: "
                     + " ".join(re.findall(r"(?:Error|evaluat)[^\n]*", text)[:2])[:200],
                     (m[-1][0] or m[-1][1]) if m else "1", 1))
    return viol, states, steps


def save_replay(prop, c, src, log, viol, seed):
    clause, sid, step = viol
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    rec = {"property": prop, "clause": clause, "session": sid, "step": step, "component": c["name"], "seed": seed}
    for key, path in (("script", src), ("run", log)):
        with open(path, encoding="utf8") as f:
            for line in f:
                if line.strip():
                    j = json.loads(line)
                    if str(j["sid"]) == str(sid):
                        rec[key] = j
                        break
    path = os.path.join(d, "%s-%s-%s.json" % (prop, c["name"], sid))
    with open(path, "w", encoding="utf8") as f:
        json.dump(rec, f, indent=1)
    return path


def sample_of(log, count=2):
    res = []
    with open(log, encoding="utf8") as f:
        for line in f:
            if len(res) == count:
                break
            j = json.loads(line)
            t = json.dumps([{"op": e["op"], "resp": e["resp"]} for e in j["log"]])
            res.append({"session": j["sid"], "run": t[:1500]})
    return res


def run(prop, tier):
    t0 = time.time()
    seed0 = os.environ.get("VERIF_SEED", "1")
    budget = 60 if tier == "quick" else 600
    chk = CHECKS[prop]
    base = os.path.join(WORK, "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "models": [], "components": []}
    found = []
    pool = ThreadPoolExecutor(4)

    def mc(m):
        out = os.path.join(base, m["model"] + ".out")
        rc, text, st = tlc(m["model"], m["q" if tier == "quick" else "t"], 1, out, 600)
        if rc != 0:
            raise ToolError("design model %s failed:\n%s" % (m["model"], text[-3000:]))
        return m["model"], st

    try:
        mcs = [pool.submit(mc, m) for m in chk["mc"]]
        batch = 0
        while True:
            seed = seed0 if batch == 0 else "%s.%d" % (seed0, batch)

            def gen(c):
                d = os.path.join(base, c["name"] + "-" + str(batch))
                os.makedirs(d)
                keep = c.get("keep", (1, 1))[0 if tier == "quick" else 1]
                src, st = generate(prop, c, c["q" if tier == "quick" else "t"], seed, keep, d)
                return c, d, src, st
            gens = [pool.submit(gen, c) for c in chk["comps"]
                    if batch == 0 or c.get("again", True)]
            for g in gens:
                c, d, src, gst = g.result()
                log = drive(c, src, d)
                viol, st, steps = judge(prop, c, log, d)
                cov["states"] += st[1]
                cov["transitions"] += sum(steps)
                cov["traces_validated_against_impl"] += len(steps)
                cov["components"].append({"component": c["name"], "seed": seed, "traces": len(steps),
                                          "steps": sum(steps), "generator_states": gst[1]})
                if not cov["samples"]:
                    cov["samples"] = sample_of(log)
                seen = set()
                for v in viol:
                    if v[0] not in seen and len(seen) < 5:
                        seen.add(v[0])
                        found.append((v, save_replay(prop, c, src, log, v, seed), c))
                shutil.rmtree(d, ignore_errors=True)
            batch += 1
            used = time.time() - t0
            if found or tier == "quick" or used + used/batch > budget:
                break
        for f in mcs:
            name, st = f.result()
            cov["models"].append({"model": name, "states": st[1], "transitions": st[0]})
            cov["states"] += st[1]
            cov["transitions"] += st[0]
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(re.sub(r"\D", "", seed0) or 0), "level": "model_checking",
          "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(found)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1)
    if found:
        for (clause, sid, step), path, c in found:
            print("  %s: %s (component %s, session %s, step %s)" % (prop, clause, c["name"], sid, step))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d runs of the code (%d operations) judged, %d states, %.1f s" % (
        prop, cov["traces_validated_against_impl"], sum(c["steps"] for c in cov["components"]), cov["states"], time.time() - t0))
    return 0


def replay(path):
    with open(path, encoding="utf8") as f:
        rec = json.load(f)
    c = next(c for c in CHECKS[rec["property"]]["comps"] if c["name"] == rec["component"])
    d = os.path.join(WORK, "replaying")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = os.path.join(d, "in.ndjson")
    with open(src, "w", encoding="utf8") as f:
        f.write(json.dumps(rec["script"]) + "\n")
    log = drive(c, src, d)
    viol, _, _ = judge(rec["property"], c, log, d)
    for v in viol:
        print("%s at step %d" % (v[0], v[2]))
    print("violated" if viol else "held")
    shutil.rmtree(d, ignore_errors=True)
    return 1 if viol else 0


def leaves(v, path, out):
    """Paths of the numbers (as text) in an answer."""
    if isinstance(v, dict):
        for k in v:
            leaves(v[k], path + (k,), out)
    elif isinstance(v, list):
        for k, x in enumerate(v):
            leaves(x, path + (k,), out)
    elif isinstance(v, str) and re.fullmatch(r"-?\d+(\.\d+)?([eE][-+]?\d+)?", v):
        out.append(path)


def selftest(props, count=60):
    """Change one recorded number by a per cent of itself; the judges should object."""
    import random
    rnd = random.Random(1)
    for prop in props:
        for c in CHECKS[prop]["comps"]:
            d = os.path.join(WORK, "selftest-%s-%s" % (prop, c["name"]))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            src, _ = generate(prop, c, count, "1", 200, d)
            log = drive(c, src, d)
            kinds = {}
            bad = os.path.join(d, "bad.ndjson")
            with open(log, encoding="utf8") as f, open(bad, "w", encoding="utf8") as g:
                sid = 0
                for line in f:
                    if not line.strip():
                        continue
                    j = json.loads(line)
                    for _ in range(3):
                        k = json.loads(line)
                        paths = []
                        for n, e in enumerate(j["log"]):
                            leaves(e["resp"], (n, "resp"), paths)
                        by = {}
                        for p in paths:
                            by.setdefault(re.sub(r"\b\d+\b", "*", ".".join(map(str, p[1:]))), []).append(p)
                        if not by:
                            continue
                        name = rnd.choice(sorted(by))
                        p = rnd.choice(by[name])
                        v = k["log"]
                        for x in p[:-1]:
                            v = v[x]
                        v[p[-1]] = repr(float(v[p[-1]]) * 1.01 + (0.01 if float(v[p[-1]]) == 0 else 0))
                        sid += 1
                        k["sid"] = sid
                        kinds[sid] = j["log"][p[0]]["op"]["op"] + ":" + name
                        g.write(json.dumps(k) + "\n")
            viol, _, _ = judge(prop, c, bad, d)
            hit = {str(v[1]) for v in viol}
            tab = {}
            for sid, name in kinds.items():
                t = tab.setdefault(name, [0, 0])
                t[1] += 1
                t[0] += str(sid) in hit
            print("%s %s: %d of %d" % (prop, c["name"], sum(t[0] for t in tab.values()), len(kinds)))
            for name in sorted(tab):
                if tab[name][0] < tab[name][1]:
                    print("    %-40s %d of %d" % (name, *tab[name]))
            sys.stdout.flush()
            shutil.rmtree(d, ignore_errors=True)
    return 0


def main():
    os.makedirs(WORK, exist_ok=True)
    setup()
    if sys.argv[1] == "--setup":
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--selftest":
        return selftest(sys.argv[2:] or sorted(CHECKS))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return run(sys.argv[1], tier)
    except ToolError as e:
        print("ERROR %s: %s" % (sys.argv[1], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

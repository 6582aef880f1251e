"""Shared parts of the drivers.  Drivers execute scripts against the code under
test through its public API and log what happened; they never judge."""
import json
import os
import signal
import sys
import warnings
from multiprocessing import Pool, Value

sys.path.insert(0, os.environ.get("IBL_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


class Timeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise Timeout()


def num(v):
    """A double (or anything claimed to be one) as a token."""
    try:
        a = np.asarray(v)
        if a.shape != ():
            return "shape:" + str(a.shape)
        if a.dtype.kind not in "fiu":
            return "type:" + str(a.dtype)
        return repr(float(a))
    except Exception as e:  # noqa: BLE001
        return "bad:" + type(e).__name__


def nums(v):
    """A one-dimensional array as a list of tokens."""
    try:
        a = np.asarray(v)
        if a.ndim != 1:
            return ["shape:" + str(a.shape)]
        return [num(t) for t in a]
    except Exception as e:  # noqa: BLE001
        return ["bad:" + type(e).__name__]


def F(s):
    return float(s)


def FL(s):
    return [float(t) for t in s]


def exc(e):
    return {"k": "exc", "t": type(e).__name__, "ve": isinstance(e, ValueError),
            "m": str(e)[:200].replace("|", "/").replace("\n", " ")}


_hung = Value("i", 0)
LIMIT = 20               # seconds of processor time for one operation
WALL = 4                 # times that in real time, should it be waiting
MAX_HUNG = 8             # after that many overruns the remaining sessions are not run


def guarded(fun, seconds=LIMIT):
    """Run fun; an exception or an overrun is a response like any other."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(WALL*seconds)
    try:
        return fun()
    except Timeout:
        with _hung.get_lock():
            _hung.value += 1
        return {"k": "exc", "t": "Timeout", "ve": False, "m": "no answer"}
    except RecursionError as e:
        return exc(e)
    except Exception as e:  # noqa: BLE001
        return exc(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


_run = None


def _one(session):
    if _hung.value >= MAX_HUNG:
        return {"sid": session["sid"], "log": []}
    return _run(session)


def main(run_session):
    """driver.py IN.ndjson OUT.ndjson PROCS"""
    global _run  # noqa: PLW0603
    _run = run_session
    src, dst, procs = sys.argv[1], sys.argv[2], int(sys.argv[3])
    with open(src, encoding="utf8") as f:
        sessions = [json.loads(line) for line in f if line.strip()]
    with Pool(procs) as pool, open(dst, "w", encoding="utf8") as out:
        for res in pool.imap(_one, sessions, chunksize=4):
            out.write(json.dumps(res) + "\n")

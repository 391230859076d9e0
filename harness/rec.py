"""Recording helpers for the drivers (run in the repository's interpreter).

Numbers are logged as the shortest decimal text that round-trips (repr), so the
specification sees exactly the value the code produced."""
import json
import os
import random
import signal
import sys

import numpy as np

if os.environ.get("VERIF_NONUMBA"):
    # pystrata without its optional accelerator (its dependencies keep theirs)
    import pykooh  # noqa: F401
    import pyrvt  # noqa: F401
    sys.modules["numba"] = None

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORK = os.environ.get("VERIF_WORK", "/tmp")


def histories():
    """Histories generated from the specification (one JSON list of operations per line), or None."""
    path = os.environ.get("HISTORIES")
    if not path:
        return None
    with open(path) as fp:
        return [json.loads(x) for x in fp]


def n(quick, thorough):
    return quick if TIER == "quick" else thorough


def rng(tag=""):
    return random.Random(f"{SEED}/{tag}")


def F(x):
    """A real number."""
    if x is None:
        return "None"
    try:
        x = float(x)
    except (TypeError, ValueError):
        return "nan"
    return repr(x)


def FS(xs):
    """A sequence of reals (anything array-like of rank 1; scalars become length 1)."""
    if xs is None:
        return []
    return [F(x) for x in np.atleast_1d(np.asarray(xs, dtype=object) if _ragged(xs) else np.asarray(xs)).ravel()]


def _ragged(xs):
    try:
        np.asarray(xs, dtype=float)
        return False
    except Exception:
        return True


def C(z):
    z = complex(z)
    return [repr(float(z.real)), repr(float(z.imag))]


def CS(zs):
    return [C(z) for z in np.atleast_1d(zs).ravel()]


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *a, secs=20, **k):
    """Run fn; returns (value, raised) with raised "" or the exception type's name."""
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn(*a, **k), ""
    except Timeout:
        return None, "Timeout"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as ex:  # noqa: BLE001 - the outcome of the call is data
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        return None, type(ex).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _crash(tp, ex, tb):
    """An exception the driver did not expect: when it comes out of pystrata, it is an observation."""
    import traceback
    frames = traceback.extract_tb(tb)
    traceback.print_exception(tp, ex, tb)
    if any("/src/pystrata/" in f.filename for f in frames):
        at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in frames]
        for t in Trace.all[-1:] or [Trace()]:
            t.ev("crash", error=f"{tp.__name__}: {ex}"[:300], at=at[-6:])
            t.close()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)


sys.excepthook = _crash


class Trace:
    all = []

    def __init__(self, path=None):
        Trace.all.append(self)
        self.path = path or sys.argv[1]
        self.fp = open(self.path, "w")
        self.case = None
        self.count = 0

    def new(self, case):
        self.case = case

    def ev(self, ev, **kw):
        d = {"case": str(self.case), "ev": ev}
        d.update(kw)
        self.fp.write(json.dumps(d) + "\n")
        self.count += 1

    def close(self):
        self.fp.close()


def logu(r, a, b):
    return float(np.exp(r.uniform(np.log(a), np.log(b))))

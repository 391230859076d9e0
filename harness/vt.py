"""Shared machinery of the checks: run drivers against /repo, run TLC on the
recorded traces and on the design models, turn the outcome into a verdict and
an evidence file.

Exit status of a check: 0 held, 1 violated (VIOLATION line), 2 machinery failure.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
TLA = VERIF / "tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """The check itself failed (not the code under test)."""


def classes_dir(work):
    """Compile the Num override (about one second)."""
    out = work / "classes"
    out.mkdir(exist_ok=True)
    p = subprocess.run(
        ["javac", "-nowarn", "-cp", TLAJAR, "-d", str(out), str(VERIF / "java" / "NumOverrides.java")],
        capture_output=True, text=True, timeout=300,
    )
    if p.returncode or not (out / "NumOverrides.class").exists():
        raise Machinery("javac failed: " + p.stderr[-2000:])
    return out


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0


def run_tlc(classes, module, cfg, work, env=None, workers=1, timeout=800, heap="3g", extra=(), props=()):
    """Run TLC on tla/<module>.tla with tla/<cfg>; metadata under work."""
    meta = Path(tempfile.mkdtemp(prefix="tlc-", dir=work))
    cmd = [
        "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={2 if workers == 1 else 4}",
        "-cp", f"{classes}:{TLAJAR}:{CMJAR}",
        "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.CommunityModules:NumOverrides",
        f"-DTLA-Library={TLA}", f"-Djava.io.tmpdir={meta}", *props,
        "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", str(meta / "states"),
        "-fp", "1", "-config", str(TLA / cfg), *extra, str(TLA / module),
    ]
    e = dict(os.environ)
    e["DATA"] = str(VERIF / "data")
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"TLC timeout on {module}/{cfg} after {timeout}s") from ex
    finally:
        shutil.rmtree(meta / "states", ignore_errors=True)
    return TLCResult(p.returncode, p.stdout + "\n" + p.stderr, time.time() - t0)


def driver_env(work, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "NUMBA"))}
    cache = work / "numba"
    cache.mkdir(exist_ok=True)
    e.update(
        HOME=str(work), MPLBACKEND="Agg", MPLCONFIGDIR=str(work / "mpl"), PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_CACHE_DIR=str(cache), PYTHONHASHSEED="0",
        PYTHONPATH=f"{REPO / 'src'}:{VERIF / 'harness'}", PYTHONWARNINGS="ignore",
        VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_WORK=str(work),
    )
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run_driver(script, trace, work, args=(), timeout=600, **env):
    """Run a driver (in the repository's interpreter); it writes ndjson to trace."""
    cmd = [PY, str(VERIF / "harness" / "drivers" / script), str(trace), *map(str, args)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=driver_env(work, **env), cwd=work)
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"driver {script} timeout") from ex
    if p.returncode not in (0, 3):      # 3: pystrata raised unexpectedly, recorded as a "crash" event
        raise Machinery(f"driver {script} failed rc={p.returncode}: {p.stdout[-800:]} {p.stderr[-3000:]}")
    return p.stdout


def read_nd(path):
    with open(path) as fp:
        return [json.loads(x) for x in fp if x.strip()]


def write_nd(path, events):
    with open(path, "w") as fp:
        for e in events:
            fp.write(json.dumps(e) + "\n")


def split_cases(events, k):
    """Split a trace into at most k traces, keeping the events of a case together.

    A case is a maximal run of events with equal "case"."""
    groups = []
    for e in events:
        if groups and groups[-1][-1]["case"] == e["case"]:
            groups[-1].append(e)
        else:
            groups.append([e])
    k = max(1, min(k, len(groups)))
    size = [0] * k
    out = [[] for _ in range(k)]
    for g in sorted(groups, key=lambda g: -sum(len(json.dumps(e)) for e in g)) if k > 1 else groups:
        i = size.index(min(size))
        out[i].extend(g)
        size[i] += sum(len(json.dumps(e)) for e in g)
    return [o for o in out if o]


FAIL = re.compile(r'<<\s*"FAIL",\s*(-?\d+),\s*\{(.*?)\}\s*>>', re.S)
DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(classes, module, cfg, events, work, chunks=NCPU, timeout=800, name="trace", heap="2g"):
    """Validate events with a trace specification; returns (failures, stats).

    failures: list of (event, [clause, ...]).  Total: an event on which the
    specification cannot even be evaluated counts as rejected (clause
    "TraceNotExplained")."""
    parts = split_cases(events, chunks) if events else []
    stats = {"generated": 0, "distinct": 0, "events": len(events), "wall": 0.0, "printed": []}

    def one(i_part):
        i, part = i_part
        path = work / f"{name}-{i}.ndjson"
        fails = []
        todo = part
        gen = dist = 0
        for attempt in range(40):
            write_nd(path, todo)
            r = run_tlc(classes, module, cfg, work, env={"TRACE": str(path)}, timeout=timeout, heap=heap)
            gen += r.generated
            dist += r.distinct
            fails += [(todo[int(m.group(1)) - 1], re.findall(r'"([^"]*)"', m.group(2)) or ["Unnamed"]) for m in FAIL.finditer(r.out)]
            for m in re.finditer(r'<<\s*"RESULT",\s*"(\w+)"', r.out):
                stats["printed"].append(m.group(1))
            d = DONE.search(r.out)
            if d and int(d.group(1)) == len(todo) and r.rc == 0:
                break
            # not completed: find the event at which evaluation stopped
            if "Error: " not in r.out or "OutOfMemory" in r.out or "Parsing or semantic analysis failed" in r.out \
                    or "StackOverflow" in r.out or "unknown operator" in r.out.lower():
                raise Machinery(f"TLC failed on {module} rc={r.rc}: " + r.out[-3000:])
            ls = re.findall(r"^/?\\?\s*/?\\?\s*l = (\d+)", r.out, re.M)
            pos = int(ls[-1]) if ls else 1
            if os.environ.get("VERIF_DEBUG"):
                print(r.out[-2500:])
            if pos > len(todo):
                raise Machinery(f"TLC failed on {module} rc={r.rc}: " + r.out[-3000:])
            err = " ".join(r.out[r.out.index("Error: "):].split())[:300]
            bad = todo[pos - 1]
            fails.append((bad, ["TraceNotExplained: " + err.replace('"', "'")]))
            # drop the rest of that case, keep validating the others
            todo = [e for k, e in enumerate(todo) if k >= pos and e["case"] != bad["case"]]
            if not todo or len([f for f in fails if f[1] and f[1][0].startswith("TraceNot")]) > 5:
                break
        return fails, gen, dist, r.wall

    failures = []
    with cf.ThreadPoolExecutor(max_workers=max(1, min(NCPU, len(parts)))) as ex:
        for fails, gen, dist, wall in ex.map(one, enumerate(parts)):
            failures += fails
            stats["generated"] += gen
            stats["distinct"] += dist
            stats["wall"] = max(stats["wall"], wall)
    seen, uniq = set(), []
    for e, c in failures:
        k = (json.dumps(e, sort_keys=True), tuple(c))
        if k not in seen:
            seen.add(k)
            uniq.append((e, c))
    return uniq, stats


class Check:
    """One property's check."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.work = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.failures = []      # (key, text, payload)
        self.classes = None
        self.printed = {}       # results announced by the trace specification

    def quick(self):
        return TIER == "quick"

    def n(self, quick, thorough):
        return quick if TIER == "quick" else thorough

    def setup(self):
        self.classes = classes_dir(self.work)

    # ---- design model: exhaustive TLC run
    def model(self, module, cfg, workers=4, timeout=600, min_distinct=1, label=None, env=None, heap="4g", extra=()):
        r = run_tlc(self.classes, module, cfg, self.work, workers=workers, timeout=timeout, env=env, heap=heap, extra=extra)
        if r.rc != 0:
            raise Machinery(f"design model {module}/{cfg} not accepted by TLC (rc={r.rc}):\n" + r.out[-3000:])
        if r.distinct < min_distinct:
            raise Machinery(f"design model {module}/{cfg}: only {r.distinct} states (vacuous)")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append(
            {"module": module, "config": cfg, "distinct": r.distinct, "generated": r.generated, "depth": r.depth,
             "wall_s": round(r.wall, 1)})
        return r

    # ---- conformance: validate recorded events
    def conform(self, module, cfg, events, need=(), chunks=NCPU, name="trace", ncases=None, timeout=800, heap="2g"):
        kinds = {}
        for e in [e for e in events if e["ev"] == "crash"]:
            self.fail(f"{module.replace('.tla', '')}:crash:CallRaised", f"call raised {e['error']} at {' '.join(e['at'])} (case {e['case']})",
                      {"module": module, "clause": "CallRaised", "failing_event": e})
        crashed = {e["case"] for e in events if e["ev"] == "crash"}
        if crashed:
            events = [e for e in events if e["case"] not in crashed]
            need = ()
        for e in events:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        fails, st = validate(self.classes, module, cfg, events, self.work, chunks=chunks, name=name, timeout=timeout, heap=heap)
        cases = len({e["case"] for e in events})
        for p in st["printed"]:
            self.printed[p] = self.printed.get(p, 0) + 1
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov["traces_validated_against_impl"] += cases
        self.cov.setdefault("events", {})
        for k, v in kinds.items():
            self.cov["events"][k] = self.cov["events"].get(k, 0) + v
        for e in events[:: max(1, len(events) // 3)][:3]:
            s = json.dumps(e)
            self.cov["samples"].append(s if len(s) < 500 else s[:500] + "...")
        for e, clauses in fails:
            hist = [x for x in events if x["case"] == e["case"]]
            for c in clauses:
                self.fail(f"{module.replace('.tla', '')}:{e['ev']}:{c}", f"{e['ev']}: {c} (case {e['case']})",
                          {"module": module, "config": cfg, "clause": c, "failing_event": e, "history": hist})
        for k in need:
            if not kinds.get(k):
                raise Machinery(f"{self.pid}: no event of kind {k} recorded (vacuous)")
        return fails

    def fail(self, key, text, payload):
        self.failures.append((key, text, payload))

    # ---- verdict
    def finish(self):
        known = load_known(self.pid)
        unlisted = []
        listed = {}
        for key, text, payload in self.failures:
            k = next((k for k in known if k["match"](key, payload)), None)
            if k:
                listed.setdefault(k["what"], 0)
                listed[k["what"]] += 1
            else:
                unlisted.append((key, text, payload))
        for k in known:
            # a listed finding is announced on every run; the count says whether it was seen again
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} (seen {listed.get(k['what'], 0)} times)")
        rc = 0
        self.cov["clause_failures"] = len(self.failures)
        if unlisted:
            rc = 1
            rdir = VERIF / "evidence" / "replay"
            rdir.mkdir(parents=True, exist_ok=True)
            path = rdir / f"{self.pid}.json"
            path.write_text(json.dumps(
                [{"key": k, "what": t, **p} for k, t, p in unlisted[:20]], indent=1))
            keys = {}
            for k, t, _ in unlisted:
                keys.setdefault(k, t)
            for k, t in list(keys.items())[:10]:
                print("  failed clause:", t[:400])
            print(f"VIOLATION property={self.pid} replay={path}")
        self.evidence(len(unlisted))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def evidence(self, violations):
        cov = dict(self.cov)
        cov["samples"] = cov["samples"][:12]
        d = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        p = VERIF / "evidence" / f"{self.pid}.json"
        p.parent.mkdir(exist_ok=True)
        p.write_text(json.dumps(d, indent=1))


def load_known(pid):
    """Entries of known_findings.txt:  KNOWN-FINDING: property=<id> match=<regex> what=<text>

    The regular expression is matched against "<clause key> <case id>"."""
    out = []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) what=(.+)", line)
            if m and m.group(1) == pid:
                rx = re.compile(m.group(2))
                out.append({"what": m.group(3), "match": lambda key, pl, rx=rx: bool(
                    rx.fullmatch(f"{key}@{(pl.get('failing_event') or {}).get('case', '')}"))})
    return out


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        c.setup()
        fn(c)
        return c.finish()
    except Machinery as ex:
        print(f"MACHINERY-FAILURE {pid}: {ex}", file=sys.stderr)
        if c.failures:      # something was rejected before the machinery stopped
            return c.finish() or 2
        shutil.rmtree(c.work, ignore_errors=True)
        return 2

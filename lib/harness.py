"""Runtime-monitoring harness: runs the real lumos code under generated workloads in worker
processes, feeds what it does to monitors (oracles), and turns their verdicts into the
exit code, the VIOLATION lines and the evidence file.

A check module (checks/<ID>.py) defines
    PROPERTY  the property id
    RULE      how cases are made and what makes one non-trivial
    FAMILIES  list of Family: name, case function, quick / thorough number of cases
    MIN       {counter: minimum}: what the monitors must have observed at least, otherwise
              the run is inconclusive (exit 2), never "held"
A case function takes a Case (its own seeded generator, counters, verdict methods).
"""
import argparse
import importlib
import json
import logging
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

from lib import keep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUMOS_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
MAX_REPORTED = 5

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "JAX_PLATFORMS": "cpu",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


class Violated(Exception):
    def __init__(self, message, mech=None, data=None):
        super().__init__(message)
        self.message, self.mech, self.data = message, mech, data


class Skip(Exception):
    """The generated case is not a valid one for the property (counted apart)."""


class Family:
    def __init__(self, name, fn, quick, thorough, cost=1.0):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.cost = cost


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 60 else f"array{x.shape}"
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Case:
    def __init__(self, prop, family, index, seed, tier):
        import numpy as np

        self.prop, self.family, self.index, self.seed, self.tier = (
            prop, family, index, seed, tier,
        )
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(prop.encode()), zlib.crc32(family.encode()), index]
        )
        # the library itself draws from numpy's global generator at a few places
        np.random.seed(
            (seed * 1000003 + zlib.crc32(f"{prop}/{family}/{index}".encode())) % 2**32
        )
        self.counters = {}
        self.signature = None
        self.description = {}
        self.trace = []

    def describe(self, **kw):
        """What this case is; two cases with the same description are not distinct."""
        self.description.update(_jsonable(kw))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def event(self, *what):
        """Record an operation of a history (kept for the witness)."""
        self.trace.append(_jsonable(what))

    def violate(self, message, mech=None, **data):
        raise Violated(message, mech, _jsonable(data))

    def require(self, cond, message, mech=None, counter="comparisons", **data):
        self.count(counter)
        if not bool(cond):
            self.violate(message, mech, **data)

    def close(self, got, want, what, rtol=1e-9, atol=1e-11, mech=None,
              counter="comparisons", scale=None, **data):
        """got == want up to rounding; shapes must agree."""
        import numpy as np

        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violate(f"{what}: shape {g.shape}, expected {w.shape}", mech, **data)
        self.count(counter, max(g.size, 1))
        if g.size == 0:
            return
        if scale is None:
            tol = atol + rtol * np.maximum(np.abs(w), np.abs(g))
        else:
            tol = atol + rtol * scale
        with np.errstate(invalid="ignore"):
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            bad = ~(same | (np.abs(g - w) <= tol))
        if bad.any():
            k = np.unravel_index(
                np.argmax(np.where(bad, np.nan_to_num(np.abs(g - w), nan=1e300), -1)),
                g.shape,
            ) if g.ndim else ()
            self.violate(
                f"{what}: got {g[k]!r}, expected {w[k]!r} at {tuple(int(i) for i in k)} "
                f"({int(bad.sum())} of {g.size} entries differ)", mech, **data)

    def equal(self, got, want, what, mech=None, counter="comparisons", **data):
        self.count(counter)
        if got != want:
            self.violate(f"{what}: got {got!r:.300}, expected {want!r:.300}", mech, **data)

    def raises(self, fn, what, exc=Exception, mech=None, counter="rejections", **data):
        self.count(counter)
        try:
            fn()
        except exc:
            return
        self.violate(f"{what}: was accepted", mech, **data)


# --------------------------------------------------------------------------- worker
def _classify(exc):
    """-> ("violation" | "inconclusive", message) for an exception out of a case."""
    tb = traceback.extract_tb(exc.__traceback__)
    repo_frames = [f for f in tb if os.path.abspath(f.filename).startswith(REPO + os.sep)]
    last = tb[-1] if tb else None
    where = ""
    if repo_frames:
        f = repo_frames[-1]
        where = f" (at {os.path.relpath(f.filename, REPO)}:{f.name})"
    msg = f"{type(exc).__name__}: {str(exc)[:300]}{where}"
    if isinstance(exc, (MemoryError, ImportError)):
        return "inconclusive", msg
    if isinstance(exc, OSError) and not isinstance(exc, (FileNotFoundError, FileExistsError)):
        return "inconclusive", msg
    if repo_frames:
        return "violation", "valid use raised " + msg
    if isinstance(exc, (AttributeError, NameError)):
        # the harness asked for something that is not there: not a verdict on behaviour
        return "inconclusive", msg + f" in {last.filename}:{last.lineno}"
    return "violation", (
        "the oracle could not digest the library's result: " + msg
        + f" in {os.path.basename(last.filename)}:{last.lineno}")


class CaseTimeout(BaseException):
    pass


def run_case(prop, fam, index, seed, tier, timeout=300):
    import numpy as np

    case = Case(prop, fam.name, index, seed, tier)
    rec = {"family": fam.name, "index": index, "verdict": "held"}
    t0 = time.time()

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="case_", dir=os.environ.get("VERIF_SCRATCH"))
    os.chdir(scratch)
    case.scratch = scratch
    watch = sys.modules.get("lib.watch")
    if watch:
        watch.COUNT.clear()
    keep.reset()
    keep.install()
    try:
        with np.errstate(all="ignore"):
            fam.fn(case)
        for what, how in keep.problems():
            raise Violated(f"a result of {what} changed when it was called again: {how}")
    except Violated as e:
        rec.update(verdict="violation", message=e.message, mech=e.mech, data=e.data)
    except Skip as e:
        rec.update(verdict="skip", message=str(e))
    except CaseTimeout:
        rec.update(verdict="inconclusive", message="case timed out")
    except Exception as e:
        verdict, msg = _classify(e)
        rec.update(verdict=verdict, message=msg, mech=None,
                   data={"traceback": traceback.format_exc()[-3000:]})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    watch = sys.modules.get("lib.watch")
    if watch:
        for k, n in watch.COUNT.items():
            case.count(k, n)
    for k, n in keep.COUNT.items():
        case.count(k, n)
    rec["wall"] = round(time.time() - t0, 3)
    rec["counters"] = case.counters
    rec["description"] = case.description
    if rec["verdict"] != "held" or index < 2:
        rec["trace"] = case.trace[-200:]
    return rec


def _setup_library():
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import lumos

    here = os.path.abspath(lumos.__file__)
    if not here.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit(f"lumos comes from {here}, not from {REPO}")
    for module in keep.WHERE:
        try:
            importlib.import_module(module)
        except Exception:  # the checks which need it tell
            pass


def worker_main(prop, shard, nshards, seed, tier, out, deadline):
    _setup_library()
    mod = importlib.import_module(f"checks.{prop}")
    plan = case_plan(mod, tier)
    with open(out, "a") as f:
        for k, (fam, index) in enumerate(plan):
            if k % nshards != shard:
                continue
            if time.time() > deadline:
                f.write(json.dumps({"stopped": True}) + "\n")
                break
            f.write(json.dumps({"starting": [fam.name, index]}) + "\n")
            f.flush()
            rec = run_case(prop, fam, index, seed, tier)
            f.write(json.dumps(rec) + "\n")
            f.flush()
        f.write(json.dumps({"finished": True}) + "\n")


def case_plan(mod, tier):
    """Interleave the families so that every one gets its share before a deadline."""
    items = []
    for fi, fam in enumerate(mod.FAMILIES):
        n = fam.quick if tier == "quick" else fam.thorough
        for i in range(n):
            items.append(((i + 0.5) / n, fi, i, fam))
    # the most expensive ones first within the same slot, for a balanced finish
    items.sort(key=lambda t: (t[0], -t[3].cost, t[1]))
    return [(fam, i) for _, _, i, fam in items]


# --------------------------------------------------------------------------- runner
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def main(prop, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None, help="seconds")
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--worker")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.path.insert(0, VERIF)

    if a.worker:
        shard, n = map(int, a.worker.split("/"))
        worker_main(prop, shard, n, a.seed, a.tier, a.out, a.deadline)
        return 0

    if a.replay or a.family:
        for k, v in ENV.items():
            os.environ.setdefault(k, v)
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            a.family, a.index, a.seed, a.tier = r["family"], r["index"], r["seed"], r["tier"]
        _setup_library()
        mod = importlib.import_module(f"checks.{prop}")
        fam = next(f for f in mod.FAMILIES if f.name == a.family)
        rec = run_case(prop, fam, a.index or 0, a.seed, a.tier, timeout=3000)
        print(json.dumps(rec, indent=1)[:20000])
        return 1 if rec["verdict"] == "violation" else 0

    t0 = time.time()
    budget = a.budget or (400 if a.tier == "quick" else 3000)
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_SCRATCH"] = scratch
    env["LUMOS_REPO"] = REPO
    procs = []
    for s in range(a.jobs):
        wd = os.path.join(scratch, f"w{s}")
        os.mkdir(wd)
        out = os.path.join(scratch, f"out{s}.jsonl")
        log = open(os.path.join(scratch, f"log{s}"), "wb")
        cmd = [PYTHON, "-W", "ignore", os.path.join(VERIF, "run.py"), prop,
               "--worker", f"{s}/{a.jobs}", "--seed", str(a.seed), "--tier", a.tier,
               "--out", out, "--deadline", str(t0 + budget)]
        procs.append((s, subprocess.Popen(cmd, cwd=wd, env=env, stdout=log, stderr=log,
                                          start_new_session=True), out, log))
    records, problems = [], []
    hard = t0 + budget + 250
    for s, p, out, log in procs:
        try:
            p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            problems.append(f"worker {s} hit the watchdog")
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        log.close()
        finished, started = False, None
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "verdict" in r:
                    records.append(r)
                    started = None
                elif "finished" in r:
                    finished = True
                elif "starting" in r:
                    started = r["starting"]
        if not finished:
            tail = open(log.name, "rb").read()[-600:].decode("utf8", "replace")
            if p.returncode is not None and p.returncode < 0 and started and \
                    -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                      signal.SIGFPE, signal.SIGILL):
                records.append({
                    "family": started[0], "index": started[1], "verdict": "violation",
                    "message": f"the process crashed with signal {-p.returncode}",
                    "mech": None, "data": {"log": tail}, "counters": {},
                    "description": {}, "wall": 0})
            else:
                problems.append(f"worker {s} ended early (rc {p.returncode}) at {started}: "
                                + tail[-300:])
    shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, a, records, problems, time.time() - t0)


def report(prop, a, records, problems, wall):
    sys.path.insert(0, VERIF)
    spec = _static_spec(prop)
    known = {f["mech"]: f for f in known_findings()
             if f.get("property") == prop and f.get("status") == "known"}
    counters, fam_counts, verdicts = {}, {}, {}
    distinct = set()
    samples = []
    violations, known_hits = [], {}
    for r in sorted(records, key=lambda r: (r["family"], r["index"])):
        verdicts[r["verdict"]] = verdicts.get(r["verdict"], 0) + 1
        fam_counts[r["family"]] = fam_counts.get(r["family"], 0) + 1
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        if r["verdict"] in ("held", "violation") and sum(r.get("counters", {}).values()):
            distinct.add(r["family"] + json.dumps(r.get("description"), sort_keys=True))
        if r["verdict"] == "held" and r["index"] == 0:
            samples.append({"family": r["family"], "case": r.get("description"),
                            "observed": r.get("counters"),
                            "history": (r.get("trace") or [])[:20]})
        if r["verdict"] == "violation":
            if r.get("mech") in known:
                known_hits.setdefault(r["mech"], []).append(r)
            else:
                violations.append(r)
        if r["verdict"] == "inconclusive":
            problems.append(f"{r['family']}[{r['index']}]: {r.get('message')}")

    rep_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rep_dir, exist_ok=True)
    for mech, rs in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[mech]['what']}"
              f" (mechanism {mech}, {len(rs)} cases)")
    for n, r in enumerate(violations):
        if n >= MAX_REPORTED:
            print(f"... and {len(violations) - n} more violating cases")
            break
        path = os.path.join(rep_dir, f"{prop}_{r['family']}_{r['index']}_s{a.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "tier": a.tier, **r}, f, indent=1)
        print(f"{prop} {r['family']}[{r['index']}]: {r['message']}")
        print(f"VIOLATION property={prop} replay={path}")

    too_few = {k: (counters.get(k, 0), v) for k, v in spec["MIN"].items()
               if counters.get(k, 0) < v}
    planned = spec["planned"][a.tier]
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(records),
            "distinct_nontrivial": len(distinct),
            "rule": spec["RULE"],
            "samples": samples[:12],
            "planned": planned,
            "families": fam_counts,
            "verdicts": verdicts,
            "observed_events": counters,
            "required_events": spec["MIN"],
            "problems": problems[:20],
            "known_findings": {m: len(v) for m, v in known_hits.items()},
        },
        "assumptions": spec["ASSUMPTIONS"],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(f"{path}.{os.getpid()}.tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(f"{path}.{os.getpid()}.tmp", path)

    print(f"{prop} {a.tier} seed={a.seed}: {len(records)}/{planned} cases {verdicts}, "
          f"observed {counters}, {wall:.1f}s")
    if violations:
        return 1
    if problems or too_few or not records:
        for p in problems[:10]:
            print("INCONCLUSIVE:", p)
        if too_few:
            print("INCONCLUSIVE: too few observed events (got, needed):", too_few)
        # a worker that stopped at the soft deadline is no problem if enough was observed
        return 2
    return 0


def _static_spec(prop):
    """RULE, MIN etc. of a check without importing the library in this process."""
    mod = importlib.import_module(f"checks.{prop}")
    return {
        "RULE": mod.RULE, "MIN": mod.MIN,
        "ASSUMPTIONS": list(getattr(mod, "ASSUMPTIONS", [])),
        "planned": {
            "quick": sum(f.quick for f in mod.FAMILIES),
            "thorough": sum(f.thorough for f in mod.FAMILIES),
        },
    }

"""The compiled-function cache never gives a wrong or broken function."""
import copy
import gc
import json
import os
import signal
import stat
import sys
import time

import numpy as np

from checks.C13 import against_reference
from lib import models
from lib.harness import Case, Family, Violated
from lib.ocps import RandomOCP

PROPERTY = "C17"
RULE = ("histories of building several models (near-identical ones that differ in one "
        "coefficient, one order or only in default parameters) in one directory, with deleted "
        "libraries in between; real processes building at the same time in one directory with "
        "a compiler that writes its output slowly and in pieces; builds killed at a random "
        "point of the compilation, or whose compilation fails, followed by other builds; every "
        "function built is compared with its reference; distinct by models and schedule")
MIN = {"comparisons": 20000, "builds": 400, "races": 40, "overlaps": 60, "kills": 20,
       "mid_write": 4, "large_kb": 800, "failed_compilations": 20, "after_kill": 30, "variants": 150}
ASSUMPTIONS = ["the compiler is called by its name (a wrapper on PATH delays it); otherwise "
               "processes still race and get killed at random times"]

WRAPPER = r"""#!/bin/bash
# gcc, with an output that appears slowly, as told by the files in $GCC_CTL
ctl="$GCC_CTL"
args=("$@"); out=""
for ((i=0;i<$#;i++)); do [ "${args[$i]}" = "-o" ] && { out="${args[$((i+1))]}"; oi=$((i+1)); }; done
[ -z "$out" ] && exec @GCC@ "$@"
log() { echo "$1 $$ $EPOCHREALTIME" >> "$ctl/events"; }
read -r mode d1 d2 d3 < "$ctl/mode.$GCC_WHO" 2>/dev/null || mode=plain
[ "$mode" = plain ] && { log start; @GCC@ "$@"; rc=$?; log end; exit $rc; }
log start
sleep "$d1"
tmp=$(mktemp -d "$ctl/gcc.XXXXXX")
args[$oi]="$tmp/out"
@GCC@ "${args[@]}"; rc=$?
[ $rc -ne 0 ] && { log end; exit $rc; }
size=$(stat -c %s "$tmp/out")
[ "$mode" = fail_early ] && { log end; rm -f "$tmp/out"; exit 1; }
rm -f "$out"
head -c $((size*2/3)) "$tmp/out" > "$out"
log half; [ "$mode" = kill_half ] && : > "$ctl/kill.$GCC_WHO" && sleep 3
[ "$mode" = fail_half ] && { log end; rm -f "$tmp/out"; exit 1; }
sleep "$d2"
tail -c +$((size*2/3+1)) "$tmp/out" >> "$out"
chmod 755 "$out"
log full; [ "$mode" = kill_full ] && : > "$ctl/kill.$GCC_WHO" && sleep 3
sleep "$d3"
rm -f "$tmp/out"; rmdir "$tmp"
log end
exit 0
"""


def install(case):
    """A gcc of our own, before the real one on the PATH of the builders."""
    import shutil

    ctl = os.path.join(case.scratch, "ctl")
    bin_ = os.path.join(case.scratch, "bin")
    os.makedirs(ctl)
    os.makedirs(bin_)
    real = shutil.which("gcc")
    for name in ("gcc", "cc"):
        p = os.path.join(bin_, name)
        with open(p, "w") as f:
            f.write(WRAPPER.replace("@GCC@", real))
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    return ctl, bin_


def variants(rng, n):
    """n problems whose models are nearly the same."""
    base = RandomOCP(rng, backend="casadi", build=False, max_intervals=2, max_states=2,
                     max_inputs=2, with_scales=False, nonsmooth=False,
                     transcription="ForwardEuler", fixed=False, step=False)
    if rng.random() < 0.5:
        base.spec["class_name"] = "Vehicle"
    out = [base]
    while len(out) < n:
        o = copy.copy(out[rng.integers(len(out))])
        o.spec = copy.deepcopy(o.spec)
        o.spec["uid"] = 100000 + len(out)
        k = rng.choice(["coef"] * 5 + ["params", "order", "con"])
        if k == "coef":
            keys = [e for e in o.spec["eqs"] if o.spec["eqs"][e]]
            e = keys[rng.integers(len(keys))]
            i = int(rng.integers(len(o.spec["eqs"][e])))
            t = list(o.spec["eqs"][e][i])
            old = t[1]
            c = rng.integers(6)
            if c <= 1:
                t[1] = float(np.round(old + rng.choice([0.001, -0.5, 1.0]), 3))
            elif c == 2:
                t[1] = -old
            elif c == 3:  # digits far down the number
                t[1] = old * (1 + 10 ** rng.uniform(-7, -3))
            elif abs(old) > 1e-3 and c == 4:  # another size, in the same or new digits
                t[1] = old * float(10.0 ** rng.choice([-6, -5, -4, 4, 5]))
            else:
                t[1] = float(np.round(rng.uniform(1, 9), 2)) * 10.0 ** int(rng.choice([-6, -5]))
            o.spec["eqs"][e][i] = type(o.spec["eqs"][e][i])(t)
        elif k == "params":
            o.spec["params"]["k"] = float(np.round(rng.uniform(0.5, 1.5), 3))
        elif k == "order":
            o.con_outputs = [str(c) for c in rng.permutation(o.con_outputs)]
        else:
            o.con_outputs = o.con_outputs[1:]
        from lib import models

        o.ref = models.Reference(o.spec)
        out.append(o)
    return out


def builder(case, o, who, cwd, ctl, bin_, seed, repeat=1):
    """Build o in another process; -> pid"""
    pid = os.fork()
    if pid:
        return pid
    try:
        signal.alarm(0)
        os.setsid()
        os.chdir(cwd)
        os.environ["PATH"] = bin_ + os.pathsep + os.environ["PATH"]
        os.environ["GCC_CTL"], os.environ["GCC_WHO"] = ctl, str(who)
        null = os.open(os.path.join(ctl, f"out.{who}"), os.O_CREAT | os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        c = Case(case.prop, case.family, case.index, seed, case.tier)
        try:
            for _ in range(repeat):
                o.build()
                against_reference(c, o, f"built by {who}")
            res = {"ok": True, "comparisons": c.counters["comparisons"]}
        except Violated as e:
            res = {"ok": False, "wrong": True, "why": e.message}
        except BaseException as e:
            res = {"ok": False, "wrong": False, "why": f"{type(e).__name__}: {e}"[:500]}
        with open(os.path.join(ctl, f"res.{who}.tmp"), "w") as f:
            json.dump(res, f)
        os.replace(os.path.join(ctl, f"res.{who}.tmp"), os.path.join(ctl, f"res.{who}"))
    finally:
        os._exit(0)


def result(ctl, who):
    p = os.path.join(ctl, f"res.{who}")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return json.load(f)


def wait_for(pids, timeout=100):
    """-> exit status by pid; kills the groups that don't end"""
    out, end = {}, time.time() + timeout
    left = set(pids)
    while left:
        for p in list(left):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                out[p] = st
                left.discard(p)
        if time.time() > end:
            for p in left:
                kill_group(p)
            raise TimeoutError("builders don't end")
        time.sleep(0.005)
    return out


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def mode(ctl, who, m, *delays):
    d = list(delays) + [0.0] * (3 - len(delays))
    with open(os.path.join(ctl, f"mode.{who}"), "w") as f:
        f.write(f"{m} {d[0]:.3f} {d[1]:.3f} {d[2]:.3f}\n")


def events(ctl):
    p = os.path.join(ctl, "events")
    return [l.split() for l in open(p)] if os.path.exists(p) else []


def good(case, ctl, who, status, what):
    r = result(ctl, who)
    if r is None:
        case.violate(f"{what}: the process died (status {status})")
    if not r["ok"]:
        case.violate(f"{what}: {r['why']}")
    case.count("comparisons", r["comparisons"])
    case.count("builds")


def history(case):
    """One process, many builds in one directory."""
    rng = case.rng
    os_ = variants(rng, int(rng.integers(3, 7)))
    case.describe(n=len(os_), **os_[0].describe())
    case.count("variants", len(os_))
    built, last = [], None
    for step in range(int(rng.integers(4, 9))):
        if rng.random() < 0.3:  # libraries may disappear
            for f in sorted(os.listdir(".")):
                if f.endswith(".so") and rng.random() < 0.5:
                    os.remove(f)
                    case.event("deleted")
        if rng.random() < 0.3:  # and other files may be there
            for f in ("nlpfunctions.c", "nlpfunctions.so", "nlpfunctions.o"):
                with open(f, "w") as g:
                    g.write("int forward(void) { return 1; }")
            case.event("foreign files")
        if rng.random() < 0.3:  # the functions are not needed any more
            built.clear()
            o = b = None
            gc.collect()
            case.event("forgotten")
            for f in sorted(os.listdir(".")):
                if f.endswith(".so") and rng.random() < 0.7:
                    os.remove(f)
        if rng.random() < 0.3:  # work goes on in another directory
            d = os.path.join(case.scratch, f"d{rng.integers(3)}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            case.event("directory", d[-1])
        i = int(rng.integers(len(os_))) if last is None or rng.random() < 0.6 else last
        last = i
        o = copy.copy(os_[i])
        o.model = None
        o.build()
        case.event("build", i)
        case.count("builds")
        built.append(o)
        for b in [o] + [built[j] for j in rng.integers(len(built), size=1)]:
            against_reference(case, b, "in one process")
    for b in built:
        against_reference(case, b, "at the end")


def large(case):
    """Models with a lot of code that differ in one place, anywhere in it."""
    rng = case.rng
    base = RandomOCP(rng, backend="casadi", build=False, max_intervals=1, max_states=2,
                     max_inputs=1, with_scales=False, nonsmooth=False,
                     transcription="ForwardEuler", fixed=False, step=False)
    sp, nz = base.spec, len(base.spec["states"]) + len(base.spec["inputs"])
    for e in sp["eqs"]:
        if e.startswith(("dot:", "out:")):
            for _ in range(int(rng.integers(60, 120))):
                sp["eqs"][e] += models._terms(rng, nz, 1, sp["mesh"], False, None, False)
    out = [base]
    for k in range(2):
        o = copy.copy(base)
        o.spec = copy.deepcopy(sp)
        o.spec["uid"] = 100000 + k
        e = list(sp["eqs"])[-1 if rng.random() < 0.6 else 0]
        i = int(rng.integers(len(sp["eqs"][e]))) if rng.random() < 0.4 else -1
        t = list(o.spec["eqs"][e][i])
        t[1] = float(t[1] + rng.uniform(0.5, 1.5))
        o.spec["eqs"][e][i] = tuple(t)
        out.append(o)
    for o in out:
        o.ref = models.Reference(o.spec)
    case.describe(terms={e: len(t) for e, t in sp["eqs"].items()})
    case.count("variants", len(out))
    for o in out:
        o.build()
        case.count("builds")
        against_reference(case, o, "a large model")
    sizes = [os.path.getsize(f) for f in os.listdir(".") if f.endswith(".so")]
    case.event("built", len(sizes))
    case.count("large_kb", int(max(sizes, default=0)) // 1000)
    for o in out:
        against_reference(case, o, "at the end, a large model")


def race(case):
    """Several processes at once."""
    rng = case.rng
    ctl, bin_ = install(case)
    cwd = os.path.join(case.scratch, "cwd")
    os.makedirs(cwd)
    n = int(rng.integers(2, 5))
    os_ = variants(rng, n)
    # some of them build the same model
    plan = [int(rng.integers(n)) for _ in range(int(rng.integers(3, 7)))]
    if rng.random() < 0.5:
        plan[1] = plan[0]
    case.describe(plan=plan, **os_[0].describe())
    case.count("variants", n)
    pids = {}
    for w, i in enumerate(plan):
        mode(ctl, w, "plain" if rng.random() < 0.2 else "slow", *rng.uniform(0, 0.25, 3))
        pids[w] = builder(case, copy.copy(os_[i]), w, cwd, ctl, bin_, case.seed, repeat=2)
        if rng.random() < 0.4:
            time.sleep(float(rng.uniform(0, 0.3)))
    st = wait_for(pids.values())
    ev = events(ctl)
    runs = {}
    for name, pid, t in ev:
        runs.setdefault(pid, {})[name] = float(t)
    iv = [(r["start"], r["end"]) for r in runs.values() if "start" in r and "end" in r]
    case.count("overlaps", sum(a[0] < b[1] and b[0] < a[1] for k, a in enumerate(iv)
                               for b in iv[:k]))
    case.event("schedule", [e[0] + ":" + str(sorted(runs).index(e[1])) for e in ev])
    for w, p in pids.items():
        good(case, ctl, w, st[p], f"process {w} of a race")
    case.count("races")


def kill(case):
    """Builds killed at some moment, or that fail, and then others."""
    rng = case.rng
    ctl, bin_ = install(case)
    cwd = os.path.join(case.scratch, "cwd")
    os.makedirs(cwd)
    os_ = variants(rng, 2)
    case.count("variants", 2)
    kinds = []
    who = 0
    for _ in range(int(rng.integers(1, 4))):
        kind = ["time", "kill_half", "kill_full", "fail_half", "fail_early"][rng.integers(5)]
        kinds.append(kind)
        i = int(rng.integers(2))
        if kind == "time":
            mode(ctl, who, "slow", 0.1, 0.1, 0.05)
        else:
            mode(ctl, who, kind, 0, 0.05, 0.05)
        group = rng.random() < 0.5
        pid = builder(case, copy.copy(os_[i]), who, cwd, ctl, bin_, case.seed)
        if kind.startswith("fail"):
            wait_for([pid])
            r = result(ctl, who)
            if r is None or r.get("wrong"):
                case.violate(f"a failing compilation: {r and r['why'] or 'the process died'}")
            case.count("failed_compilations")
        else:
            end = time.time() + (float(rng.uniform(0, 0.9)) if kind == "time" else 30)
            flag = os.path.join(ctl, f"kill.{who}")
            done = False
            while time.time() < end and not os.path.exists(flag):
                q, _st = os.waitpid(pid, os.WNOHANG)
                if q:
                    done = True
                    break
                time.sleep(0.002)
            if not done:
                os.kill(pid, signal.SIGKILL)
                if group:  # its compiler, too
                    kill_group(pid)
                os.waitpid(pid, 0)
                case.count("kills")
                if kind == "kill_half" and os.path.exists(flag):
                    case.count("mid_write")
            if not group and rng.random() < 0.5:
                time.sleep(0.3)  # the orphaned compiler goes on
        who += 1
        case.event(kind, i, group)
        for j in rng.permutation(2):
            mode(ctl, who, "plain")
            p = builder(case, copy.copy(os_[j]), who, cwd, ctl, bin_, case.seed)
            st = wait_for([p])
            good(case, ctl, who, st[p], f"building after {kinds}")
            case.count("after_kill")
            who += 1
    case.describe(kinds=kinds, **os_[0].describe())


FAMILIES = [
    Family("history", history, 50, 500, cost=3), Family("race", race, 48, 500, cost=4),
    Family("large", large, 12, 60, cost=8), Family("kill", kill, 100, 900, cost=4),
]

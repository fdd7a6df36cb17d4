"""Logs record the solve they belong to, faithfully."""
import os

import numpy as np

from lib.harness import Family, Skip
from lib import models, real
from lib.ocps import RandomOCP

PROPERTY = "C16"
RULE = ("random problems (every backend, transcription, fixed or free mesh, condensed, cyclic, "
        "scaled) solved with logging, several solves per problem with changes of parameters, "
        "scales, bounds and mesh between them, interleaved with other problems of the same name "
        "in the same second, with solves that stop early, raise or never start; every table "
        "compared with iterates recorded independently and with the reference model; distinct "
        "by problem, logging settings and history")
MIN = {"comparisons": 150000, "solves": 200, "tables": 1500, "iterations": 2000, "twins": 60,
       "directories": 100, "restoration": 20, "raised": 6, "not_started": 3, "untouched": 60,
       "max_violations": 1000, "real": 3}
ASSUMPTIONS = ["the iterate of an iteration is the last point at which the objective was "
               "evaluated, and it must have the objective and infeasibility IPOPT reports"]

OPTS = dict(fixed_variable_treatment="make_parameter", print_level=0, sb="yes",
            print_timing_statistics="no")
SIM_NAMES = ["simulation", "run[1]", "a b", "x*y", "lap_con.2", "ünï", "iter_1"]


class Recorder:
    """What the solver asks and reports, apart from what the library keeps."""

    def __init__(self, ocp):
        self.ocp, self.reports, self.x = ocp, [], None
        self.obj, self.inter = ocp.objective, ocp.intermediate
        ocp.objective, ocp.intermediate = self.objective, self.intermediate

    def objective(self, x):
        self.x = np.array(x, dtype=float)
        return self.obj(x)

    def intermediate(self, *args):
        self.reports.append((args, self.x))
        return self.inter(*args)

    def reset(self):
        self.reports, self.x = [], None


def read(path):
    import pandas as pd

    return pd.read_parquet(path) if path.endswith("parquet") else pd.read_csv(path)


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def check_table(case, o, df, x_hat, it, what):
    """One result table against the reference at one iterate."""
    S = o.num_stages
    case.count("tables")
    case.equal(len(df), S, f"{what}: number of rows")
    case.equal(set(df["iter"]), {it}, f"{what}: iteration")
    x = x_hat * o.dec_scales
    T = o.T if o.fixed else x[o.i_mesh]
    mesh = o.ref_mesh() * T
    seen = {"iter", "mesh"}
    case.close(df["mesh"].values, mesh, f"{what}: mesh", rtol=1e-12)
    for g, names in o.groups().items():
        for j, n in enumerate(names):
            col = f"{g}.{n}"
            case.require(col in df, f"{what}: no column {col}")
            case.close(df[col].values, x[o.idx[g][:, j]], f"{what}: {col}", rtol=1e-12,
                       atol=1e-13)
            seen.add(col)
    f, outs = o.ref.forward(x[o.idx["states"]], x[o.idx["inputs"]], mesh)
    for n in models.all_outputs(o.spec):
        case.require("outputs." + n in df, f"{what}: no output {n}")
        w = np.broadcast_to(np.real(outs[n]), S)
        case.close(df["outputs." + n].values, w, f"{what}: output {n}", rtol=1e-9,
                   atol=1e-10 * (1 + np.abs(w).max()))
        seen.add("outputs." + n)
    b = o.ref_blocks(x_hat)
    big = 1 + max(np.abs(v).max(initial=0) for v in b.values())
    tol = dict(rtol=1e-9, atol=1e-10 * big)
    m = len(o.pts) - 1
    cont = np.vstack([np.zeros((1, len(o.spec["states"]))),
                      b["cont"].reshape(o.N * m, -1)])
    for j, n in enumerate(o.spec["states"]):
        case.close(df["interval_con." + n].values, cont[:, j], f"{what}: interval_con.{n}", **tol)
        seen.add("interval_con." + n)
    parts = [(o.con_outputs, b["con"]), (o.spec["residuals"], b["res"])]
    if not o.condensed:
        parts.append((o.spec["states"], b["dyn"]))
    # a residual that is also a constrained output has the same name twice
    both = set(o.con_outputs) & set(o.spec["residuals"])
    for names, val in parts:
        for j, n in enumerate(names):
            if n in both:
                continue
            # outputs and states can share a name too
            if sum(n in ns for ns, _ in parts) > 1:
                continue
            case.close(df["stage_con." + n].values, val[:, j], f"{what}: stage_con.{n}", **tol)
    if o.cyclic:
        for j, v in enumerate(o.cyclic_vars):
            c = np.zeros(S)
            c[-1] = b["cyclic"][j]
            case.close(df["cyclic_con." + v].values, c, f"{what}: cyclic_con.{v}", **tol)
    return seen


def check_logs(case, o, rec, sol, info, log_every, d, what):
    ocp = o.ocp
    files = set(os.listdir(d))
    want = {"results.csv", "metrics_history.csv"}
    if log_every > 0:
        want.add("all_iters.parquet")
    case.equal(files, want, f"{what}: files")
    case.count("directories")
    # the iterations, one per number
    its = {}
    for args, x in rec.reports:
        its.setdefault(int(args[1]), (args, x))
    last = max(its, default=0)
    case.equal(sorted(its), list(range(last + 1)) if its else [], "iteration numbers")
    for k, (a, x) in its.items():  # that what we recorded is the iterate
        f = float(np.real(o.ref_objective(x)))
        c = np.abs(o.ref_constraints(x)).max(initial=0)
        if abs(f - a[2]) > 1e-7 * (1 + abs(f)) or abs(c - a[3]) > 1e-6 * (1 + abs(c)):
            raise Skip("recorded points are not the iterates")
    case.count("restoration", sum(1 for a, _ in rec.reports if a[0] == 1))
    case.count("iterations", len(its))
    # the result
    df = read(os.path.join(d, "results.csv"))
    check_table(case, o, df, sol / o.dec_scales, last, f"{what}: results")
    # the history of the metrics
    names = ["alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm",
             "regularization_size", "alpha_du", "alpha_pr", "ls_trials"]
    if its:
        mh = read(os.path.join(d, "metrics_history.csv"))
        case.equal(len(mh), len(its), f"{what}: rows of the history")
        for j, n in enumerate(names):
            case.close(mh[n].values, [float(its[k][0][j]) for k in range(last + 1)],
                       f"{what}: history of {n}", rtol=1e-12, atol=1e-300)
    if log_every <= 0:
        return
    al = read(os.path.join(d, "all_iters.parquet"))
    logged = sorted({k for k in its if k % log_every == 0} | {last})
    case.equal(sorted(set(al["iter"])), logged, f"{what}: logged iterations")
    S = o.num_stages
    case.equal(len(al), S * len(logged), f"{what}: rows of all iterations")
    for pos, k in enumerate(logged):
        t = al.iloc[pos * S:(pos + 1) * S].reset_index(drop=True)
        x = sol / o.dec_scales if k == last else its[k][1]
        check_table(case, o, t, x, k, f"{what}: iteration {k}")
        if not its:
            continue
        cons = [c for c in t.columns if c.split(".")[0] in (
            "interval_con", "stage_con", "cyclic_con")]
        v = np.abs(t[cons].values)
        row = mh.loc[k]
        case.require(row["max_violation_con_name"] in cons,
                     f"{what}: the largest violation is of {row['max_violation_con_name']}")
        at = np.flatnonzero(np.abs(t["mesh"].values - row["max_violation_mesh"])
                            <= 1e-12 * (1 + abs(row["max_violation_mesh"])))
        case.require(len(at) == 1, f"{what}: mesh of the largest violation")
        got = v[at[0], [i for i, c in enumerate(cons) if c == row["max_violation_con_name"]]]
        case.close(got.max(), v.max(), f"{what}: largest violation", rtol=1e-12)
        case.count("max_violations")
    if its:
        rest = [k for k in its if k not in logged]
        case.require((mh.loc[rest, "max_violation_con_name"] == "NotRecorded").all(),
                     f"{what}: violations of iterations that are not logged")


def make(case, rng, log_every=None, name=None, hard=None, cls=None, **kw):
    from lumos.optimal_control.config import (BoundConfig, BoundaryConditionConfig,
                                              LoggingConfig)

    o = RandomOCP(rng, build=False, max_intervals=4, nonsmooth=False, max_states=3, step=False,
                  T=float(rng.uniform(0.3, 1.5)), backend=kw.pop(
                      "backend", ["casadi", "custom", "custom", "jax"][rng.integers(4)]
                      if rng.random() < 0.4 else "custom"), **kw)
    if set(o.con_outputs) & set(o.spec["residuals"]) and rng.random() < 0.5:
        o.con_outputs = [c for c in o.con_outputs if c not in o.spec["residuals"]]
        o.scales = {k: v for k, v in o.scales.items()
                    if k[0] != "con_outputs" or k[1] in o.con_outputs}
    sp = o.spec
    b = [BoundConfig("states", n, (-6.0, 6.0)) for n in sp["states"]]
    b += [BoundConfig("inputs", n, (-2.0, 2.0)) for n in sp["inputs"]]
    if not o.fixed:
        b.append(BoundConfig("global", "mesh_scale", (0.2, 3.0)))
    bcs = []
    if not o.cyclic:
        ends = (0, -1) if (rng.random() < 0.5 if hard is None else hard) else (0,)
        bcs = [BoundaryConditionConfig(st, "states", n, float(rng.uniform(-1.5, 1.5)))
               for n in sp["states"] for st in ends if n != "time" or st == 0]
    o.log_every = int(rng.choice([0, 1, 1, 2, 3, 7])) if log_every is None else log_every
    o.sim_name = name or SIM_NAMES[rng.integers(len(SIM_NAMES))]
    o.results_dir = ["results", os.path.join("deep", "er", "out"), "res[ab]"][rng.integers(3)]
    o.extra = dict(bounds=tuple(b), boundary_conditions=tuple(bcs))
    o.log = LoggingConfig(sim_name=o.sim_name, results_dir=o.results_dir,
                          log_every_nth_iter=o.log_every)
    o.build(cls, logging_config=o.log)
    o.rec = Recorder(o.ocp)
    return o


def guess(o, rng):  # (a random one, which mostly does not satisfy anything)
    g = rng.uniform(-2, 2, o.n)
    if o.i_mesh is not None:
        g[o.i_mesh] = 1.0
    return g


def solve(case, o, g, **kw):
    o.rec.reset()
    opts = dict(OPTS, max_iter=40)
    opts.update(kw)
    sol, info = o.ocp.solve(init_guess=g, **opts)
    case.count("solves")
    case.event(o.sim_name, int(info["status"]), info["num_iter"])
    return np.array(sol, dtype=float), info


def histories(case):
    """Several problems, several solves each, changes in between."""
    from lumos.optimal_control.config import ScaleConfig

    rng = case.rng
    name = SIM_NAMES[rng.integers(len(SIM_NAMES))]
    os_ = [make(case, rng, name=name if rng.random() < 0.7 else None)
           for _ in range(int(rng.integers(1, 4)))]
    case.describe(problems=[o.describe() for o in os_], log=[o.log_every for o in os_],
                  names=[(o.sim_name, o.results_dir) for o in os_])
    dirs = [os.path.abspath(o.ocp.logging_dir) for o in os_]
    case.equal(len(set(dirs)), len(dirs), "different logging directories")
    for o, d in zip(os_, dirs):
        case.require(os.path.isdir(d) and os.path.basename(d).find(o.sim_name) >= 0
                     and os.path.dirname(d) == os.path.abspath(o.results_dir),
                     "place of the logging directory")
    kept = {}
    for step in range(int(rng.integers(2, 5))):
        i = int(rng.integers(len(os_)))
        o = os_[i]
        if i in kept and rng.random() < 0.7:  # a change first
            k = rng.integers(4)
            if k == 0:
                v = float(np.round(rng.uniform(0.5, 1.5), 3))
                o.ocp.modify_model_param("k", v)
                o.ref.params["k"] = v
                case.event("param", i, v)
            elif k == 1:
                n = o.spec["states"][0]
                v = float(np.round(10 ** rng.uniform(-1, 1), 3))
                o.scales = {("states", n): v}
                o.ocp.set_scales((ScaleConfig("states", n, v),))
                o.dec_scales = o.ref_dec_scales()
                case.event("scale", i, v)
            elif k == 2:
                from lib.ocps import random_points

                o.points = random_points(rng, o.N)
                o.ocp.set_normalized_mesh(o.points)
                case.event("mesh", i)
        sol, info = solve(case, o, guess(o, rng), max_iter=int(rng.choice([1, 3, 8, 40])))
        if info["num_iter"] is None:
            continue
        check_logs(case, o, o.rec, sol, info, o.log_every, dirs[i], f"solve {step} of {i}")
        kept[i] = snapshot(dirs[i])
        case.equal(os.path.abspath(o.ocp.logging_dir), dirs[i], "logging directory")
        for j, snap in kept.items():
            case.require(snapshot(dirs[j]) == snap, f"logs of {j} changed by solving {i}",
                         counter="untouched")


def twins(case):
    """The same solve with and without logging."""
    rng = case.rng
    o = make(case, rng)
    case.describe(log=o.log_every, **o.describe())
    g = guess(o, rng)
    before = g.copy()
    sol, info = solve(case, o, g)
    case.require(np.array_equal(before, g), "the guess changed")
    ocp = o.ocp_class()(model=o.model, sim_config=o.make_config(o.ocp_class()),
                        **({"mesh_scale": o.T} if o.fixed else {}))
    listed = sorted(os.listdir("."))
    sol2, info2 = ocp.solve(init_guess=g, **dict(OPTS, max_iter=40))
    case.require(ocp.logging_dir is None, "a logging directory without logging")
    case.equal([f for f in sorted(os.listdir(".")) if not f.endswith((".so", ".c"))],
               [f for f in listed if not f.endswith((".so", ".c"))],
               "files made without logging")
    case.close(sol, sol2, "solution with and without logging", rtol=0, atol=0)
    for k in ("status", "num_iter", "obj_val"):
        case.equal(info[k], info2[k], f"{k} with and without logging")
    case.close(info["mult_g"], info2["mult_g"], "multipliers", rtol=0, atol=0)
    case.count("twins")
    if info["num_iter"] is not None:
        check_logs(case, o, o.rec, sol, info, o.log_every, o.ocp.logging_dir, "logged twin")


def raising(case):
    """A solve that raises leaves nothing in the log of the next one."""
    from lumos.optimal_control.nlp import BaseObjective

    rng = case.rng
    o = make(case, rng, log_every=int(rng.choice([1, 1, 2, 3])), hard=False, condensed=False)
    case.describe(log=o.log_every, **o.describe())
    calls, after = [0], int(rng.integers(2, 8))
    armed = [True]

    def grad(x):
        calls[0] += 1
        if armed[0] and calls[0] > after:
            return np.full(o.n, np.nan)
        return np.zeros(o.n)

    o.ocp.add_objective("sometimes", BaseObjective(
        num_in=o.n, objective=lambda x: 0.0, gradient=grad, hessian=lambda x: np.zeros(0),
        hessian_structure=(np.zeros(0, int),) * 2))
    g = guess(o, rng)
    try:
        _, info = solve(case, o, g)
        if info["num_iter"] is None:
            raise Skip("no degrees of freedom")
    except RuntimeError:
        case.count("raised")
    armed[0] = False
    sol, info = solve(case, o, g, max_iter=int(rng.integers(1, 5)))
    check_logs(case, o, o.rec, sol, info, o.log_every, o.ocp.logging_dir, "after raising")


def not_started(case):
    """Too few degrees of freedom: the solver returns before the first iteration."""
    from lumos.optimal_control.config import BoundConfig

    rng = case.rng
    o = make(case, rng, log_every=int(rng.integers(0, 3)), cyclic=False, condensed=False)
    case.describe(log=o.log_every, **o.describe())
    fix = [BoundConfig(g, n, (0.3, 0.3)) for g in ("states", "inputs", "states_dot",
                                                   "con_outputs") for n in o.groups()[g]]
    o.ocp.update_bounds(tuple(fix if rng.random() < 0.4 else fix[1:]))
    g = guess(o, rng)
    sol, info = solve(case, o, g)
    if info["num_iter"] is not None:
        raise Skip("the solver started")
    case.count("not_started")
    d = o.ocp.logging_dir
    check_table(case, o, read(os.path.join(d, "results.csv")), sol / o.dec_scales, 0,
                "not started")
    case.require(not [f for f in os.listdir(d) if f.startswith("iter")], "iterations left")


def shipped(case):
    """The drone and lap time problems, few iterations."""
    from lumos.optimal_control.config import LoggingConfig

    rng = case.rng
    n = int(rng.integers(1, 4))
    log = LoggingConfig(sim_name="s", results_dir="r", log_every_nth_iter=n)
    if case.index % 2:
        ocp = real.drone(num_intervals=8, backend="casadi", logging_config=log,
                         is_condensed=bool(rng.integers(2)))
    else:
        ocp = real.laptime(num_intervals=6, logging_config=log,
                           is_condensed=bool(rng.integers(2)))
    case.describe(n=n, kind=type(ocp).__name__, condensed=ocp.is_condensed)
    rec = Recorder(ocp)
    sol, info = ocp.solve(init_guess=ocp.get_init_guess(), **OPTS, max_iter=6)
    its = {}
    for a, x in rec.reports:
        its.setdefault(int(a[1]), x)
    last = max(its)
    al = read(os.path.join(ocp.logging_dir, "all_iters.parquet"))
    res = read(os.path.join(ocp.logging_dir, "results.csv"))
    logged = sorted({k for k in its if k % n == 0} | {last})
    case.equal(sorted(set(al["iter"])), logged, "logged iterations")
    op = ocp.dec_var_operator
    for k in logged:
        x = sol if k == last else its[k] * real.scales(ocp)
        for t in [al[al["iter"] == k]] + ([res] if k == last else []):
            case.count("tables")
            mesh = np.asarray(ocp.get_mesh_from_dec_var(x)) if hasattr(
                ocp, "get_mesh_from_dec_var") else t["mesh"].values
            case.close(t["mesh"].values, mesh, "mesh", rtol=1e-12)
            S = ocp.num_stages
            st = np.zeros((S, ocp.model.num_states))
            inp = np.zeros((S, ocp.model.num_inputs))
            for g in ("states", "inputs", "states_dot", "con_outputs"):
                if not getattr(ocp.model.names, g):
                    continue
                for j, nm in enumerate(getattr(ocp.model.names, g)):
                    v = x[op.get_var_index_in_dec(g, nm)]
                    case.close(t[f"{g}.{nm}"].values, v, f"{g}.{nm}", rtol=1e-12, atol=1e-14)
                    if g == "states":
                        st[:, j] = v
                    if g == "inputs":
                        inp[:, j] = v
            for s in (0, S // 2, S - 1):
                r = ocp.model.forward(dict(zip(ocp.model.names.states, st[s])),
                                      dict(zip(ocp.model.names.inputs, inp[s])),
                                      float(mesh[s]))
                for nm, v in r.outputs.items():
                    case.close(t["outputs." + nm].values[s], float(v), f"output {nm}",
                               rtol=1e-8, atol=1e-8)
    case.count("real")


FAMILIES = [
    Family("histories", histories, 135, 900, cost=2), Family("twins", twins, 120, 700),
    Family("raising", raising, 36, 150), Family("not_started", not_started, 60, 200),
    Family("shipped", shipped, 6, 18, cost=20),
]

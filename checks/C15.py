"""A reported solution really solves the problem, in any formulation."""
import copy

import numpy as np

from lib.harness import Family, Skip
from lib import models, real
from lib.ocps import RandomOCP, dense

PROPERTY = "C15"
RULE = ("convex problems (random linear models on a fixed mesh with random convex quadratic "
        "objectives, bounds and boundary conditions, feasible by construction) solved in several "
        "formulations; random nonlinear problems, the drone, brachistochrones (against the cycloid) and "
        "feasibility problems solved and "
        "solved again, warm started; every reported success is judged with an independent "
        "discretisation and an independent KKT check; distinct by problem and configuration")
MIN = {"comparisons": 20000, "solves": 180, "successes": 120, "kkt": 120, "convex": 25,
       "warm": 20, "feasibility": 8, "failures_reported": 6, "same_optimum": 60, "drone": 4,
       "cycloids": 10}
ASSUMPTIONS = ["IPOPT with tol 1e-9: equations to 1e-6, stationarity to 1e-5 relative",
               "fixed variables are removed by make_parameter (the default "
               "make_parameter_nodual is not supported by the installed IPOPT)"]

OPTS = dict(fixed_variable_treatment="make_parameter", print_level=0, sb="yes",
            print_timing_statistics="no", max_iter=300, tol=1e-9, constr_viol_tol=1e-8,
            compl_inf_tol=1e-8, dual_inf_tol=1e-4)


def state(ocp):
    return {"lb": np.array(ocp.lb), "ub": np.array(ocp.ub), "cl": np.array(ocp.cl),
            "cu": np.array(ocp.cu), "params": {
                k: np.array(v) for k, v in ocp.model.get_recursive_params().to_flat_dict()[
                    0].items()}}


def solve(case, ocp, guess, **kw):
    """-> sol, info, after checks that hold for every solve"""
    before = state(ocp)
    g = np.array(guess, copy=True)
    sol, info = ocp.solve(init_guess=g, **{**OPTS, **kw})
    case.count("solves")
    case.require(np.array_equal(g, guess), "the initial guess was changed")
    after = state(ocp)
    for k in ("lb", "ub", "cl", "cu"):
        case.require(np.array_equal(before[k], after[k]), f"solving changed {k}")
    for k, v in before["params"].items():
        case.require(np.array_equal(v, after["params"][k]), f"solving changed parameter {k}")
    case.require(isinstance(info["num_iter"], (int, np.integer)), "number of iterations")
    return np.asarray(sol, dtype=float), info


def kkt(case, J, grad, x, lb, ub, what, tol=1e-5):
    """First-order optimality with the best possible multipliers, all unscaled."""
    from scipy.optimize import lsq_linear

    n = len(x)
    rng_ = 1 + np.abs(x)
    fixed = ub - lb < 1e-10
    low = (x - lb < 1e-5 * rng_) & ~fixed
    up = (ub - x < 1e-5 * rng_) & ~fixed
    free = ~fixed
    # grad + J' lam - zl + zu = 0 on the variables that are not fixed
    E = np.eye(n)
    M = np.hstack([J.T, -E[:, low], E[:, up]])[free]
    lo = np.concatenate([np.full(J.shape[0], -np.inf), np.zeros(low.sum() + up.sum())])
    # normalise the columns
    cs = np.maximum(np.linalg.norm(M, axis=0), 1e-12)
    if low.sum() + up.sum():
        res = lsq_linear(M / cs, -grad[free], bounds=(lo, np.full(len(lo), np.inf)),
                         method="bvls" if M.shape[1] < 150 else "trf", tol=1e-13,
                         max_iter=2000)
        r = M / cs @ res.x + grad[free]
    else:
        y = np.linalg.lstsq(M / cs, -grad[free], rcond=None)[0]
        r = M / cs @ y + grad[free]
    big = 1 + np.abs(grad).max(initial=0)
    case.count("kkt")
    if np.abs(r).max(initial=0) > tol * big:
        case.violate(f"{what}: not stationary, residual {np.abs(r).max():.3g} "
                     f"(gradient {big:.3g})")


def within(case, x, lb, ub, what):
    tol = 1e-6 * (1 + np.abs(x))
    case.count("comparisons", len(x))
    if (x < lb - tol).any() or (x > ub + tol).any():
        i = int(np.argmax(np.maximum(lb - x, x - ub)))
        case.violate(f"{what}: variable {i} is {x[i]}, bounds {lb[i]}, {ub[i]}")


def judge(case, o, sol, info, what, lb, ub, objective=None, obj_grad=None, tol=1e-5):
    """The success of a RandomOCP solve against its reference."""
    ocp = o.ocp
    case.count("successes")
    xs = sol / o.dec_scales
    c = o.ref_constraints(xs)
    case.close(c, np.zeros(len(c)), f"{what}: constraints at the solution", rtol=0, atol=2e-6)
    within(case, sol, lb, ub, what)
    case.close(info["x"], xs, f"{what}: scaled solution", rtol=1e-12, atol=1e-14)
    f = float(np.real((objective or o.ref_objective)(xs)))
    case.close(info["obj_val"], f, f"{what}: reported objective", rtol=1e-6, atol=1e-6)
    # (the solver relaxes the bounds by about 1e-8 and brings the point back at the end)
    case.close(np.asarray(info["g"]), c, f"{what}: reported constraints", rtol=1e-6,
               atol=2e-6)
    J = o.ref_jacobian(xs) / o.dec_scales
    h = 1e-30
    grad = np.imag((objective or o.ref_objective)(xs.astype(complex)
                                                  + 1j * h * np.eye(o.n))) / h / o.dec_scales
    # in scaled units: what the solver works with
    D = o.dec_scales
    kkt(case, J * D, grad * D, xs, lb / D, ub / D, what, tol)


class Quadratic:
    """w (x - t)^2 / 2 with random coupling, over unscaled variables."""

    def __init__(self, rng, idx, n):
        self.n, self.idx = n, idx
        k = len(idx)
        self.w = rng.uniform(0.1, 2, k)
        self.t = rng.uniform(-1, 1, k)
        self.v = rng.standard_normal(k) * 0.3 / np.sqrt(k)

    def value(self, x):
        y = x[..., self.idx] - self.t
        return 0.5 * (self.w * y * y).sum(axis=-1) + 0.5 * ((y * self.v).sum(axis=-1)) ** 2

    def make(self):
        from lumos.optimal_control.nlp import BaseObjective

        idx, n = self.idx, self.n

        def grad(x):
            y = x[idx] - self.t
            g = np.zeros(n)
            g[idx] = self.w * y + self.v * (y @ self.v)
            return g

        H = np.diag(self.w) + np.outer(self.v, self.v)
        r, c = np.meshgrid(idx, idx, indexing="ij")
        return BaseObjective(num_in=n, objective=lambda x: float(self.value(x)), gradient=grad,
                             hessian=lambda x: H.ravel(),
                             hessian_structure=(r.ravel(), c.ravel()))


def convex(case):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

    rng = case.rng
    spec = models.random_spec(rng, max_states=3, max_inputs=2, linear=True, time_state=True,
                              composite=False, mesh=False, max_res=0)
    base = RandomOCP(rng, spec=spec, fixed=True, build=False, max_intervals=4, T=float(
        rng.uniform(0.3, 1.2)), condensed=False, backend="casadi", with_scales=False)
    base.cyclic = False
    base.non_cyclic, base.cyclic_vars = [], []
    base.build()
    # a feasible point: all variables from random initial states and inputs
    J = base.ref_jacobian(np.zeros(base.n))
    c0 = base.ref_constraints(np.zeros(base.n))
    first = base.idx["states"][0]
    free = np.concatenate([first, base.idx["inputs"].ravel()])
    dep = np.setdiff1d(np.arange(base.n), free)
    z = np.zeros(base.n)
    z[free] = rng.uniform(-1, 1, len(free))
    sol, *_ = np.linalg.lstsq(J[:, dep], -(c0 + J @ z), rcond=None)
    z[dep] = sol
    if np.abs(c0 + J @ z).max() > 1e-8 or np.abs(z).max() > 30:
        raise Skip("no moderate feasible point")
    bounds, bcs = [], []
    for g in ("states", "inputs", "con_outputs"):
        for j, n in enumerate(base.groups()[g]):
            v = z[base.idx[g][:, j]]
            m = rng.uniform(0.02, 1.5, len(v))
            k = rng.integers(4)
            if k == 0:
                bounds.append(BoundConfig(g, n, (float(v.min() - m[0]), float(v.max() + m[0]))))
            elif k == 1:
                bounds.append(BoundConfig(g, n, (v - m, v + m[::-1])))
            elif k == 2 and g == "inputs":
                bounds.append(BoundConfig(g, n, (float(v.min() - m[0]), np.inf)))
    for j, n in enumerate(base.groups()["states"]):
        if rng.random() < 0.7:
            st = int(rng.choice([0, -1, rng.integers(base.num_stages)]))
            bcs.append(BoundaryConditionConfig(st, "states", n,
                                               float(z[base.idx["states"][st, j]])))
    case.describe(**base.describe(), bounds=len(bounds), bcs=len(bcs))
    q = Quadratic(rng, np.concatenate([base.idx["states"].ravel(), base.idx["inputs"].ravel()]),
                  base.n)
    lb, ub = np.full(base.n, -np.inf), np.full(base.n, np.inf)
    for b in bounds:
        i = base.idx[b.group][:, base.groups()[b.group].index(b.name)]
        lb[i], ub[i] = b.values
    for b in bcs:
        i = base.idx[b.group][b.stage, base.groups()[b.group].index(b.name)]
        lb[i] = ub[i] = b.value
    formulations = [("casadi", False, False), ("casadi", True, True),
                    ("custom", bool(rng.integers(2)), bool(rng.integers(2)))]
    if rng.random() < 0.25:
        formulations.append(("jax", bool(rng.integers(2)), True))
    best = []
    for backend, condensed, scaled in formulations:
        o = copy.copy(base)
        o.backend, o.condensed = backend, condensed
        o.scales = {}
        if scaled:
            for g, ns in o.groups().items():
                for n in ns:
                    if rng.random() < 0.6:
                        o.scales[(g, n)] = float(np.round(10 ** rng.uniform(-1, 1), 3))
        o.extra = dict(bounds=tuple(bounds), boundary_conditions=tuple(bcs),
                       hessian_approximation="exact" if rng.random() < 0.85
                       else "limited-memory")
        o.build()
        if rng.random() < 0.5:  # deleted first, or after
            o.ocp.delete_objective("time")
            o.ocp.add_objective("cost", q.make())
        else:
            o.ocp.add_objective("cost", q.make())
            o.ocp.delete_objective("time")
        L, U = lb.copy(), ub.copy()
        if condensed:
            L[o.idx["states_dot"]] = U[o.idx["states_dot"]] = 0
        case.close(o.ocp.lb, L, "lower bounds", rtol=0, atol=0)
        what = f"{backend} condensed={condensed} scaled={scaled}"
        guess = z + 0.3 * rng.standard_normal(o.n)
        if condensed:
            guess[o.idx["states_dot"].ravel()] = 0
        s, info = solve(case, o.ocp, guess, acceptable_tol=1e-9)
        case.event(what, int(info["status"]), float(info["obj_val"]))
        exact = o.extra["hessian_approximation"] == "exact"
        if info["status"] != 0:
            if exact and info["status"] not in (1,):
                case.count("not_solved")
            continue
        judge(case, o, s, info, what, L, U, objective=lambda xs, o=o: q.value(xs * o.dec_scales),
              tol=1e-5 if exact else 1e-3)
        pt = np.concatenate([s[o.idx["states"].ravel()], s[o.idx["inputs"].ravel()]])
        best.append((what, float(info["obj_val"]), pt, exact))
    case.require(len(best) >= len(formulations) - 1, "convex problems with a feasible point "
                 f"are not solved: {case.trace[-len(formulations):]}")
    for w, f, pt, exact in best[1:]:
        tol = 1e-6 if exact and best[0][3] else 1e-4
        case.close(f, best[0][1], f"optimum with {w} and with {best[0][0]}", rtol=tol, atol=tol)
        case.close(pt, best[0][2], f"solution with {w} and with {best[0][0]}", rtol=0,
                   atol=np.sqrt(tol) * 10)
        case.count("same_optimum")
    case.count("convex")


def nonlinear(case):
    """Random nonlinear problems, free final time or fixed mesh; solved twice."""
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

    rng = case.rng
    spec = models.random_spec(rng, max_states=2, max_inputs=2, mesh=False, nonsmooth=False,
                              max_res=0, time_state=False)
    spec2 = spec
    fixed = bool(rng.random() < 0.5)
    if fixed and "time" not in spec["states"]:
        spec2 = models.random_spec(rng, max_states=2, max_inputs=2, mesh=True,
                                   nonsmooth=False, max_res=0, time_state=True)
    o = RandomOCP(rng, spec=spec2, fixed=fixed, build=False, max_intervals=4,
                  backend=["casadi", "custom", "jax"][int(rng.random() * 2.3)], T=float(
                      rng.uniform(0.3, 1.0)))
    sp = o.spec
    bounds = [BoundConfig("states", n, (-6.0, 6.0)) for n in sp["states"]]
    bounds += [BoundConfig("inputs", n, (-2.0, 2.0)) for n in sp["inputs"]]
    if not fixed:
        bounds.append(BoundConfig("global", "mesh_scale", (0.2, 3.0)))
    bcs = []
    if not o.cyclic:
        bcs = [BoundaryConditionConfig(0, "states", n, float(rng.uniform(-0.5, 0.5)))
               for n in sp["states"]]
    o.extra = dict(bounds=tuple(bounds), boundary_conditions=tuple(bcs))
    case.describe(**o.describe())
    o.build()
    q = Quadratic(rng, np.concatenate([o.idx["states"].ravel(), o.idx["inputs"].ravel()]), o.n)
    o.ocp.add_objective("cost", q.make())
    total = lambda xs: o.ref_objective(xs) + q.value(xs * o.dec_scales)
    lb, ub = np.array(o.ocp.lb), np.array(o.ocp.ub)
    guess = rng.uniform(-0.5, 0.5, o.n)
    if not fixed:
        guess[o.i_mesh] = 1.0
    guess = np.clip(guess, lb, ub)
    s, info = solve(case, o.ocp, guess)
    case.event(int(info["status"]), float(info["obj_val"]))
    if info["status"] != 0:
        case.count("not_solved")
        return
    judge(case, o, s, info, "nonlinear", lb, ub, objective=total)
    # again, from the solution, with its multipliers
    s2, info2 = solve(case, o.ocp, s, lagrange=list(info["mult_g"]),
                      zl=list(info["mult_x_L"]), zu=list(info["mult_x_U"]),
                      warm_start_init_point="yes", mu_init=1e-8)
    if info2["status"] == 0:
        judge(case, o, s2, info2, "warm started", lb, ub, objective=total)
    # and exactly as the first time, which leaves no trace
    s3, info3 = solve(case, o.ocp, guess)
    case.equal(int(info3["status"]), 0, "status of the same solve again")
    case.close(s3, s, "the same solve again", rtol=1e-9, atol=1e-10)
    case.equal(int(info3["num_iter"]), int(info["num_iter"]), "iterations of the same solve")
    case.count("warm")


def feasibility(case):
    """No objective: any point that satisfies everything."""
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

    rng = case.rng
    spec = models.random_spec(rng, max_states=2, max_inputs=2, linear=True, max_res=0,
                              composite=False)
    o = RandomOCP(rng, spec=spec, fixed=False, build=False, max_intervals=3,
                  backend=["casadi", "custom", "jax"][int(rng.random() * 2.5)], cyclic=False)
    sp = o.spec
    o.extra = dict(
        bounds=(BoundConfig("global", "mesh_scale", (0.5, 1.5)),),
        boundary_conditions=tuple(BoundaryConditionConfig(0, "states", n, float(
            rng.uniform(-1, 1))) for n in sp["states"]),
        hessian_approximation=["exact", "limited-memory"][rng.integers(2)])
    case.describe(**o.describe(), **{k: str(v) for k, v in o.extra.items()})
    o.build()
    o.ocp.delete_objective("time")
    guess = rng.uniform(-0.5, 0.5, o.n)
    guess[o.i_mesh] = 1.0
    s, info = solve(case, o.ocp, guess)
    if info["status"] != 0:
        case.count("not_solved")
        return
    case.count("successes")
    case.count("feasibility")
    c = o.ref_constraints(s / o.dec_scales)
    case.close(c, np.zeros(len(c)), "constraints", rtol=0, atol=2e-6)
    within(case, s, o.ocp.lb, o.ocp.ub, "feasibility")
    case.close(info["obj_val"], 0.0, "objective of a feasibility problem", atol=0)
    # and an objective can still be added
    q = Quadratic(rng, np.concatenate([o.idx["states"].ravel(), o.idx["inputs"].ravel()]), o.n)
    o.ocp.add_objective("cost", q.make())
    s, info = solve(case, o.ocp, s)
    if info["status"] == 0:
        judge(case, o, s, info, "with an objective", np.array(o.ocp.lb), np.array(o.ocp.ub),
              objective=lambda xs: q.value(xs * o.dec_scales),
              tol=1e-5 if o.extra["hessian_approximation"] == "exact" else 1e-3)


def failing(case):
    """What is no solution is not reported as one."""
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

    rng = case.rng
    spec = models.random_spec(rng, max_states=2, max_inputs=2, linear=False, max_res=0,
                              composite=False)
    o = RandomOCP(rng, spec=spec, fixed=False, build=False, max_intervals=3, cyclic=False,
                  backend=["casadi", "custom"][case.index % 2])
    sp = o.spec
    kind = ["nan", "infeasible", "iterations"][case.index % 3]
    case.describe(kind=kind, **o.describe())
    bounds = [BoundConfig("global", "mesh_scale", (0.5, 1.5))]
    if kind == "infeasible":  # a jump of the state that no bounded derivative can make
        n = sp["states"][0]
        bounds.append(BoundConfig("states", n, (-5.0, 5.0)))
        if not o.condensed:
            bounds.append(BoundConfig("states_dot", n, (-0.1, 0.1)))
        else:
            o.condensed = False
            bounds.append(BoundConfig("states_dot", n, (-0.1, 0.1)))
        bcs = (BoundaryConditionConfig(0, "states", n, -4.0),
               BoundaryConditionConfig(-1, "states", n, 4.0))
    else:
        bcs = tuple(BoundaryConditionConfig(0, "states", n, 0.3) for n in sp["states"])
    o.extra = dict(bounds=tuple(bounds), boundary_conditions=bcs)
    o.build()
    guess = rng.uniform(-0.5, 0.5, o.n)
    guess[o.i_mesh] = 1.0
    if kind == "nan":
        from lumos.optimal_control.nlp import BaseObjective

        if rng.random() < 0.7:  # not from the start
            calls, last = [0], int(rng.integers(2, 5))
            w = rng.uniform(0.5, 2, o.n)

            def gradient(x):
                calls[0] += 1
                return 4 * w * (x - 0.4) ** 3 * (1.0 if calls[0] < last else np.nan)

            o.ocp.add_objective("bad", BaseObjective(
                num_in=o.n, objective=lambda x: float(np.sum(w * (x - 0.4) ** 4)),
                gradient=gradient, hessian=lambda x: 12 * w * (x - 0.4) ** 2,
                hessian_structure=(np.arange(o.n),) * 2))
            try:
                s, info = solve(case, o.ocp, guess, check_derivatives_for_naninf="yes")
            except RuntimeError:
                case.count("late_errors")
            else:
                case.require(calls[0] < last, "a solve with a gradient that is not a number "
                             f"returned with status {info['status']}")
            case.count("failures_reported")
            return
        o.ocp.add_objective("bad", BaseObjective(
            num_in=o.n, objective=lambda x: float("nan"), gradient=lambda x: np.zeros(o.n),
            hessian=lambda x: np.zeros(0), hessian_structure=(np.zeros(0, int),) * 2))
        case.raises(lambda: solve(case, o.ocp, guess), "an objective that is not a number",
                    exc=RuntimeError)
    else:
        s, info = solve(case, o.ocp, guess, max_iter=100 if kind == "infeasible" else 1)
        c = np.abs(o.ref_constraints(s / o.dec_scales)).max()
        if kind == "infeasible":
            case.require(info["status"] not in (0, 1), "an infeasible problem is solved")
        else:
            case.require(info["status"] not in (0, 1) or c < 1e-6,
                         "success before convergence")
        case.close(np.asarray(info["x"]) * o.dec_scales, s, "returned point", rtol=1e-12)
    case.count("failures_reported")


def drone(case):
    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(8, 20)), is_condensed=bool(rng.integers(2)),
               backend=["casadi", "casadi", "jax"][case.index % 3],
               transcription=["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"][
                   case.index % 4])
    from lumos.optimal_control.config import ScaleConfig

    if rng.random() < 0.5:
        cfg["scales"] = (ScaleConfig("states", "z", 5.0), ScaleConfig("inputs", "f", 10.0),
                         ScaleConfig("global", "mesh_scale", 2.0))
    case.describe(**{k: str(v) for k, v in cfg.items()})
    ocp = real.drone(**cfg)
    s, info = solve(case, ocp, ocp.get_init_guess())
    case.event(int(info["status"]), float(info["obj_val"]))
    case.equal(int(info["status"]), 0, "status of the drone problem")
    case.count("successes")
    D = s / np.where(np.asarray(info["x"]) == 0, 1, np.asarray(info["x"]))
    op = ocp.dec_var_operator
    get = lambda g, n: s[op.get_var_index_in_dec(g, n)]
    T = float(get("global", "mesh_scale"))
    case.close(info["obj_val"], T, "objective", rtol=1e-9)
    case.close(ocp.get_total_time(s), T, "total time", rtol=1e-12)
    case.require(0.8 < T < 3, f"the drone flips in {T} s")
    within(case, s, ocp.lb, ocp.ub, "drone")
    # the motion, integrated independently from the inputs at the stages
    from lib.ocps import ref_transcription

    name = cfg["transcription"]
    pts, A, B = ref_transcription(name)
    m = len(pts) - 1
    p = {k: float(v) for k, v in ocp.model.get_recursive_params().to_flat_dict()[0].items()}
    X = np.stack([get("states", n) for n in ("x", "x_dot", "z", "z_dot", "theta")], axis=1)
    f, w = get("inputs", "f"), get("inputs", "omega")
    mass, grav = p.get("mass", 1.0), p.get("gravity", 9.81)
    Xd = np.stack([X[:, 1], f * np.sin(X[:, 4]) / mass, X[:, 3],
                   f * np.cos(X[:, 4]) / mass - grav, w], axis=1)
    h = T / cfg["num_intervals"]
    for k in range(cfg["num_intervals"]):
        sl = slice(k * m, k * m + m + 1)
        d = A @ X[sl] - h * (B @ Xd[sl])
        case.close(d, 0 * d, f"motion on interval {k}", rtol=0, atol=2e-5)
    for n, a, b in (("x", 0, 0), ("x_dot", 0, 0), ("z", 0, 5), ("z_dot", 0, 0),
                    ("theta", 0, 2 * np.pi)):
        v = get("states", n)
        case.close(v[[0, -1]], [a, b], f"boundary values of {n}", rtol=0, atol=1e-6)
    # stationarity, in the solver's own scaled variables
    x = np.asarray(info["x"])
    r, c = ocp.jacobianstructure()
    J = dense(r, c, ocp.jacobian(x), (ocp.num_con, ocp.num_dec))
    sc = real.scales(ocp)
    if len(x) < 260:
        kkt(case, J, np.asarray(ocp.gradient(x)), x, ocp.lb / sc, ocp.ub / sc, "drone")
    case.count("drone")


def brachistochrone(case):
    """The fastest slide between two points: a cycloid, whose time is known exactly."""
    from scipy.optimize import brentq
    import lumos.numpy as lnp
    from lumos.models.tree_utils import ParameterTree
    from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
    from lumos.optimal_control.config import (BoundConfig, BoundaryConditionConfig,
                                              ScaleConfig)
    from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

    rng = case.rng

    @state_space_io(states=("x", "v", "y"), inputs=("theta",), outputs=("energy",))
    class Bead(StateSpaceModel):
        def forward(self, states, inputs, mesh=0.0):
            p, th, v = self._params, inputs["theta"], states["v"]
            return StateSpaceModelReturn(
                states_dot=self.make_dict("states_dot", v=-p["g"] * lnp.sin(th),
                                          x=lnp.cos(th) * v, y=lnp.sin(th) * v),
                outputs=self.make_dict("outputs", energy=v ** 2 / 2 + p["g"] * states["y"]))

        @classmethod
        def get_default_params(cls):
            return {"g": 1.0}

    dx, dy, g = rng.uniform(1, 3), -rng.uniform(1, 2.5), float(rng.uniform(3, 20))
    ph = brentq(lambda t: -dy / dx - (1 - np.cos(t)) / (t - np.sin(t)), 1e-3, 2 * np.pi - 1e-3)
    T = ph * np.sqrt(-dy / (1 - np.cos(ph)) / g)
    how = ["Trapezoidal", "LGR", "LGRIntegral", "ForwardEuler"][case.index % 4]
    n = int(rng.integers(25, 45)) if how != "LGR" and how != "LGRIntegral" else int(
        rng.integers(8, 14))
    backend = ["casadi", "jax", "casadi"][case.index % 3]
    scales = (ScaleConfig("global", "mesh_scale", float(rng.uniform(0.2, 3))),
              ScaleConfig("states", "v", float(rng.uniform(1, 6))),
              ScaleConfig("states", "x", float(rng.uniform(0.5, 2))))
    cfg = dict(num_intervals=n, transcription=how, backend=backend,
               is_condensed=bool(rng.integers(2)), scales=scales if rng.random() < 0.6 else (),
               con_output_names=("energy",) if rng.random() < 0.3 else (),
               boundary_conditions=tuple(
                   BoundaryConditionConfig(s, "states", k, v) for s, k, v in
                   [(0, "x", 0.0), (0, "y", 0.0), (0, "v", 0.0), (-1, "x", dx), (-1, "y", dy)]),
               bounds=(BoundConfig("global", "mesh_scale", (0.01, 20.0)),
                       BoundConfig("inputs", "theta", (-np.pi / 2, np.pi / 2))))
    case.describe(dx=dx, dy=dy, g=g, cycloid=T, **{
        k: str(v) for k, v in cfg.items() if k not in ("bounds", "boundary_conditions")})
    late = rng.random() < 0.5
    late = rng.random() < 0.5
    model = Bead() if late else Bead(params=ParameterTree({"g": g}))
    ocp = ScaledMeshOCP(model=model, sim_config=ScaledMeshOCP.get_sim_config(**cfg))
    if late:
        ocp.modify_model_param("g", g)
    op = ocp.dec_var_operator
    at = lambda grp, k: op.get_var_index_in_dec(grp, k)
    guess = np.zeros(ocp.num_dec)
    pts = np.linspace(0, 1, len(at("states", "x")))
    for k, v in (("x", dx * pts), ("y", dy * pts), ("v", np.sqrt(-2 * g * dy * pts))):
        guess[at("states", k)] = v  # down the straight line
    guess[at("inputs", "theta")] = np.arctan2(dy, dx)
    guess[at("global", "mesh_scale")] = np.sqrt(2 * (dx ** 2 + dy ** 2) / (g * -dy))
    s, info = solve(case, ocp, guess)
    case.event(int(info["status"]), float(info["obj_val"]))
    case.equal(int(info["status"]), 0, "status of the brachistochrone problem")
    t = float(s[at("global", "mesh_scale")])
    case.close(info["obj_val"], t, "objective", rtol=1e-9)
    case.close(t, T, "time of the fastest slide", atol=0, rtol={
        "Trapezoidal": 1e-3, "LGR": 5e-4, "LGRIntegral": 1e-2, "ForwardEuler": 3e-2}[how])
    within(case, s, ocp.lb, ocp.ub, "brachistochrone")
    case.count("successes")
    # without friction: the speed only depends on the height, the path on no constant
    v, y = s[at("states", "v")], s[at("states", "y")]
    if how == "LGR":
        case.close(v ** 2 / 2, -g * y, "energy", atol=5e-3 * g * -dy, rtol=0)
    k = float(rng.uniform(0.4, 2.5))
    ocp.modify_model_param("g", g * k ** 2)
    guess = s.copy()
    guess[at("states", "v")] *= k
    guess[at("global", "mesh_scale")] /= k
    s2, info = solve(case, ocp, guess)
    case.equal(int(info["status"]), 0, "status of the problem with more gravity")
    case.close(s2[at("global", "mesh_scale")], t / k, f"time with {k ** 2} times the gravity",
               rtol=1e-6)
    case.close(s2[at("states", "y")], y, "path with more gravity", atol=1e-4)
    case.count("cycloids")


FAMILIES = [
    Family("convex", convex, 100, 400, cost=6), Family("nonlinear", nonlinear, 125, 500, cost=4),
    Family("feasibility", feasibility, 40, 150, cost=3),
    Family("failing", failing, 30, 100, cost=3), Family("drone", drone, 20, 60, cost=12),
    Family("brachistochrone", brachistochrone, 16, 60, cost=6),
]

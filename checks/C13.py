"""Changing a parameter equals rebuilding with that parameter."""
import copy

import numpy as np

from lib.harness import Family
from lib import models, real
from lib.ocps import RandomOCP, dense

PROPERTY = "C13"
RULE = ("random problems, every backend, condensed and lifted, with random histories of "
        "parameter changes by path (scalars, vectors, matrices, submodels), evaluations, mesh "
        "and scale changes, bad paths, a second problem on the same model class or the same "
        "model; compared with the reference after every change and with a freshly built "
        "problem at the end; distinct by problem and history")
MIN = {"comparisons": 100000, "changes": 300, "evaluations": 500, "rebuilt": 60,
       "rejections": 100, "shared": 30, "drone": 4, "laptime": 2, "backend_jax": 15,
       "backend_casadi": 25, "backend_custom": 25}
ASSUMPTIONS = ["new values have the shape of the old ones"]


def everything(ocp, x, lam, sigma, hess=True):
    n, m = ocp.num_dec, ocp.num_con
    r, c = ocp.jacobianstructure()
    out = {"constraints": np.array(ocp.constraints(x), dtype=float),
           "objective": float(ocp.objective(x)),
           "gradient": np.array(ocp.gradient(x), dtype=float),
           "jacobian": dense(r, c, ocp.jacobian(x), (m, n))}
    if hess:
        r, c = ocp.hessianstructure()
        out["hessian"] = dense(r, c,
                               ocp.hessian(x, lam, sigma), (n, n))
    return out


def compare(case, a, b, what, rtol=1e-9):
    for k in b:
        case.close(a[k], b[k], f"{k} {what}", rtol=rtol if k != "hessian" else max(rtol, 1e-5)
                   if what.endswith("custom") else rtol, atol=1e-10,
                   scale=1 + np.abs(b[k]).max(initial=0))


def against_reference(case, o, what, x=None):
    x = o.random_x(case.rng) if x is None else x
    want = o.ref_constraints(x)
    case.close(np.asarray(o.ocp.constraints(x)), want, f"constraints {what}", rtol=1e-9,
               atol=1e-10, scale=1 + np.abs(want).max(initial=0))
    J = o.ref_jacobian(x)
    r, c = o.ocp.jacobianstructure()
    case.close(dense(r, c, o.ocp.jacobian(x), J.shape), J, f"jacobian {what}", rtol=1e-9,
               atol=1e-10, scale=1 + np.abs(J).max(initial=0))
    n = o.n
    lam, sig = case.rng.standard_normal(len(want)), float(case.rng.normal())
    last = getattr(o, "last_mult", None)
    if last is not None and len(last[0]) == len(lam) and case.rng.random() < 0.4:
        lam, sig = last[0].copy(), last[1]
    o.last_mult = lam.copy(), sig
    r, c = o.ocp.hessianstructure()
    H = dense(r, c, o.ocp.hessian(x, lam, sig), (n, n))
    H = H + np.tril(H, -1).T
    if not o.spec_nonsmooth:
        d = case.rng.standard_normal(n)
        with o.frozen_steps(x):
            want, err = real.richardson(lambda y: o.ref_lagrangian_grad(y, lam, sig), x, d,
                                        2e-3)
        case.close(H @ d, want, f"hessian {what}", rtol=1e-6, atol=1e-7,
                   scale=1 + np.abs(want).max(initial=0) + 1e6 * err)
    case.count("evaluations")


def change(case, rng, o, given):
    """One random change, through the problem, and in the reference."""
    p, sub = o.ref.params, o.spec["sub"]
    paths = [(k, p, k) for k in p]
    if sub:
        paths += [(sub["name"] + "." + k, o.ref.sub_params, k) for k in sub["params"]]
    path, store, k = paths[rng.integers(len(paths))]
    if given and rng.random() < 0.3:  # one that was changed before
        path, store, k = next(q for q in paths if q[0] == list(given)[-1])
        case.count("again")
    v = np.round(rng.uniform(-2, 2, np.shape(store[k])), 3)
    if rng.random() < 0.25:  # a little more or less of the same
        v = np.asarray(store[k]) * (1 + 10 ** rng.uniform(-7, -2) * rng.choice([-1, 1]))
    if np.ndim(store[k]) and rng.random() < 0.4:  # only some of the entries
        keep = rng.random(np.shape(v)) < 0.6
        v = np.where(keep, store[k], v)
    elif rng.random() < 0.1:
        v = np.full(np.shape(v), float(rng.choice([0.0, 1.0, -1.0])))
    if np.isscalar(store[k]) or np.ndim(store[k]) == 0:
        v = [float, np.float64][rng.integers(2)](v)
    if rng.random() < 0.15:  # whole numbers
        v = np.round(v).astype(int)
        v = v if np.ndim(store[k]) else int(v)
        case.count("whole_numbers")
    store[k] = copy.deepcopy(v)
    given[path] = v
    o.ocp.modify_model_param(path, v)
    case.event("modify", path, v)
    case.count("changes")


def generated(case):
    rng = case.rng
    backend = ["casadi", "custom", "jax"][int(rng.random() * 2.5)]
    o = RandomOCP(rng, backend=backend, max_intervals=3, max_states=3)
    o.ref = models.Reference(o.spec)
    case.describe(**o.describe())
    case.count("backend_" + backend)
    other = None
    if rng.random() < 0.5:
        # another problem beside it, on the same model or another one of its class
        other = copy.copy(o)
        other.ref = models.Reference(o.spec)
        other.condensed = o.condensed
        same_model = rng.random() < 0.5
        other.build(model=o.model if same_model else type(o.model)())
        case.count("shared")
    given = {}
    for _ in range(int(rng.integers(2, 6))):
        what = rng.choice(["change", "change", "change", "bad", "eval", "scales", "other"])
        if what == "change":
            change(case, rng, o, given)
        elif what == "bad":
            for path in ("nope", "nope.k", "k.k", (o.spec["sub"] or {"name": "aero"})["name"]
                         + ".nope"):
                case.raises(lambda: o.ocp.modify_model_param(path, 1.0),
                            f"parameter {path!r}", exc=(KeyError, TypeError))
            case.event("bad")
        elif what == "scales":
            from lumos.optimal_control.config import ScaleConfig

            n = o.spec["states"][0]
            o.scales = {("states", n): float(np.round(10 ** rng.uniform(-1, 1), 3))}
            o.ocp.set_scales((ScaleConfig("states", n, o.scales["states", n]),))
            o.dec_scales = o.ref_dec_scales()
            case.event("scales")
        elif what == "other" and other is not None:
            change(case, rng, other, {})
        x = o.random_x(rng)
        against_reference(case, o, f"after {what}", x)
        if other is not None and rng.random() < 0.5:  # at the same point or another one
            against_reference(case, other, "of the other problem",
                              x if rng.random() < 0.5 else None)
            against_reference(case, o, "next to the other problem", x)
    # a fresh problem
    if rng.random() < (0.3 if backend == "jax" else 0.6):
        fresh = copy.copy(o)
        m = type(o.model)()
        tree = m.get_recursive_params()
        for k, v in given.items():
            tree.set_param(k, v)
        m.set_recursive_params(tree)
        fresh.build(model=m)
        x = o.random_x(rng)
        lam, sig = rng.standard_normal(o.ocp.num_con), float(rng.normal())
        compare(case, everything(o.ocp, x, lam, sig), everything(fresh.ocp, x, lam, sig),
                f"of a rebuilt problem, {backend}", rtol=1e-12 if backend != "custom" else 1e-9)
        case.count("rebuilt")


def drone(case):
    rng = case.rng
    kw = dict(num_intervals=int(rng.integers(1, 4)), is_condensed=bool(rng.integers(2)),
              backend=["jax", "casadi"][case.index % 2],
              transcription=["Trapezoidal", "LGR"][rng.integers(2)])
    ocp = real.drone(**kw)
    case.describe(**kw, s=float(rng.random()))
    flat = ocp.model.get_recursive_params().to_flat_dict()[0]
    new = {}
    for k in rng.permutation(list(flat))[:2]:
        new[str(k)] = float(flat[k] * rng.uniform(0.5, 1.5))
        ocp.modify_model_param(str(k), new[str(k)])
    from lumos.models.drone_model import DroneModel
    from lumos.simulations.drone_simulation import DroneSimulation

    tree = DroneModel().get_recursive_params()
    for k, v in new.items():
        tree.set_param(k, v)
    fresh = DroneSimulation(model_params=tree,
                            sim_config=DroneSimulation.get_sim_config(**kw))
    x = rng.uniform(0.1, 1, ocp.num_dec)
    lam, sig = rng.standard_normal(ocp.num_con), float(rng.normal())
    compare(case, everything(ocp, x, lam, sig), everything(fresh, x, lam, sig), "drone")
    case.close(ocp.get_init_guess(), fresh.get_init_guess(), "initial guess", rtol=1e-12)
    case.count("drone")


def laptime(case):
    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(2, 4)), is_condensed=bool(rng.integers(2)),
               transcription=["ForwardEuler", "LGR"][rng.integers(2)])
    ocp = real.laptime(**cfg)
    case.describe(**cfg, s=float(rng.random()))
    tree = ocp.model.get_recursive_params()
    flat, _ = tree.to_flat_dict()
    keys = [k for k, v in flat.items() if np.ndim(v) == 0 and abs(float(v)) > 1e-6]
    vehicle = [k for k in keys if k.count(".") == 1]
    for k in list(rng.permutation(keys)[:4]) + list(rng.permutation(vehicle)[:3]):
        v = float(flat[str(k)]) * rng.uniform(0.9, 1.1)
        ocp.modify_model_param(str(k), v)
        tree.set_param(str(k), v)
        case.count("changes")
    fresh = real.laptime(model_params=tree, **cfg)
    x = real.random_laptime_x(ocp, rng)
    lam, sig = rng.standard_normal(ocp.num_con), float(rng.normal())
    compare(case, everything(ocp, x, lam, sig), everything(fresh, x, lam, sig), "laptime")
    case.close(ocp.get_init_guess(), fresh.get_init_guess(), "initial guess", rtol=1e-12)
    old = real.laptime(**cfg)
    d = np.abs(np.asarray(old.constraints(x)) - np.asarray(ocp.constraints(x))).max()
    case.require(d > 1e-9, "changed parameters made no difference")
    case.count("laptime")


FAMILIES = [Family("generated", generated, 468, 3000, cost=2),
            Family("drone", drone, 11, 40, cost=4), Family("laptime", laptime, 5, 30, cost=20)]

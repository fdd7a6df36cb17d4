"""The condensed problem is the lifted one after eliminating the state derivatives."""
import copy

import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP, dense
from lib import real

PROPERTY = "C09"
RULE = ("a lifted and a condensed problem built from one configuration, both evaluated at random "
        "points; the lifted one is reduced by exact elimination of the state derivatives; "
        "distinct by model and configuration")
MIN = {"comparisons": 300000, "evaluations": 300, "cyclic": 50, "fixed": 50, "scaled": 50,
       "drone": 6, "laptime": 2, "independent": 300, "changes": 200, "linear": 50000}
ASSUMPTIONS = ["relative tolerance 1e-8"]


def full(ocp, x, lam, sigma):
    n, m = ocp.num_dec, ocp.num_con
    r, c = ocp.jacobianstructure()
    J = dense(r, c, ocp.jacobian(x), (m, n))
    r, c = ocp.hessianstructure()
    H = dense(r, c, ocp.hessian(x, lam, sigma), (n, n))
    return J, H + np.tril(H, -1).T


def rows_of(ocp):
    out, off = {}, 0
    for k, v in ocp.split_constraints(np.zeros(ocp.num_con)).items():
        out[k] = np.arange(off, off + len(v))
        off += len(v)
    return out


def compare(case, lift, cond, x, nx, npost, rtol=1e-8):
    """nx states; npost = constrained outputs + residuals per stage."""
    rng = case.rng
    S = lift.num_stages
    R, C = rows_of(lift), rows_of(cond)
    alg = R["model_algebra"].reshape(S, nx + npost)
    dyn, post = alg[:, :nx].ravel(), alg[:, nx:].ravel()
    op = lift.dec_var_operator
    dot = op.get_group_indcies_in_dec("states_dot")
    ncont = len(R["continuity"])
    case.equal(len(C["model_algebra"]), ncont + len(post), "size of the condensed algebra")
    case.equal(sorted(C), sorted(set(R) - {"continuity"}), "names of the condensed constraints")
    keep = np.setdiff1d(np.arange(lift.num_dec), dot)
    cont_c = C["model_algebra"][:ncont]
    post_c = C["model_algebra"][ncont:]
    # put the state derivatives where the dynamics say (they enter linearly)
    lam0 = rng.standard_normal(cond.num_con)
    sigma = float(rng.uniform(-1, 2))
    J0, _ = full(lift, x, np.zeros(lift.num_con), 0.0)
    xs = x.copy()
    for _ in range(2):
        g = np.asarray(lift.constraints(xs))[dyn]
        xs[dot] -= np.linalg.solve(J0[np.ix_(dyn, dot)], g)
    cl, cc = np.asarray(lift.constraints(xs)), np.asarray(cond.constraints(x))
    big = lambda a: 1 + np.abs(a).max(initial=0)
    kw = dict(rtol=rtol, atol=1e-9)
    case.require(np.abs(cl[dyn]).max() < 1e-7 * big(cl), "elimination failed")
    case.close(cc[cont_c], cl[R["continuity"]], "continuity", scale=big(cl), **kw)
    case.close(cc[post_c], cl[post], "outputs and residuals", scale=big(cl), **kw)
    if "cyclic" in R:
        case.close(cc[C["cyclic"]], cl[R["cyclic"]], "cyclic", scale=big(cl), **kw)
    # multipliers of the lifted problem
    lam = np.zeros(lift.num_con)
    lam[R["continuity"]] = lam0[cont_c]
    lam[post] = lam0[post_c]
    if "cyclic" in R:
        lam[R["cyclic"]] = lam0[C["cyclic"]]
    Jl, _ = full(lift, xs, lam, sigma)
    Jdd = Jl[np.ix_(dyn, dot)]
    other = np.concatenate([R["continuity"], post] + ([R["cyclic"]] if "cyclic" in R else []))
    lam[dyn] = -np.linalg.solve(Jdd.T, Jl[np.ix_(other, dot)].T @ lam[other])
    Jl, Hl = full(lift, xs, lam, sigma)
    Z = np.zeros((lift.num_dec, len(keep)))
    Z[keep, np.arange(len(keep))] = 1
    Z[dot] = -np.linalg.solve(Jdd, Jl[np.ix_(dyn, keep)])
    Jc, Hc = full(cond, x, lam0, sigma)
    want = (Jl @ Z)[other]
    got = Jc[np.concatenate([cont_c, post_c] + ([C["cyclic"]] if "cyclic" in R else []))]
    case.close(got[:, keep], want, "jacobian", scale=big(want), **kw)
    want = Z.T @ Hl @ Z
    hs = big(want) + np.abs(Hl).max() * max(1, np.abs(Z).max()) ** 2
    case.close(Hc[np.ix_(keep, keep)], want, "hessian", scale=hs, **kw)
    # multipliers of any magnitude, of all the constraints or some of them
    _, H1 = full(cond, x, lam0, 0.0)
    size = float(10.0 ** rng.integers(-13, 10))
    _, H2 = full(cond, x, size * lam0, 0.0)
    case.close(H2 / size, H1, f"hessian with multipliers {size:g} times as large",
               rtol=0, atol=1e-9 * hs, counter="linear")
    case.require(not Jc[:, dot].any() and not Hc[dot].any(),
                 "the condensed derivatives depend on the state derivatives")
    case.close(float(cond.objective(x)), float(lift.objective(xs)), "objective")
    case.close(cond.gradient(x), lift.gradient(xs), "gradient")
    # the values of the unused variables must not matter
    y = x.copy()
    y[dot] = rng.standard_normal(len(dot)) * 3
    case.close(cond.constraints(y), cc, "constraints with other unused variables", rtol=0,
               atol=1e-12 * big(cc), counter="independent")
    case.require(not cond.lb[dot].any() and not cond.ub[dot].any(),
                 "the unused variables are not fixed")
    case.require(np.array_equal(cond.lb[keep], lift.lb[keep])
                 and np.array_equal(cond.ub[keep], lift.ub[keep]), "bounds differ")
    case.count("evaluations")


def generated(case):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

    rng = case.rng
    o = RandomOCP(rng, backend=["casadi", "custom", "jax"][int(rng.random() * 2.3)],
                  build=False, max_intervals=4, condensed=False)
    sp = o.spec
    o.extra = dict(bounds=(BoundConfig("states", sp["states"][0], (-3.0, 4.0)),
                           BoundConfig("inputs", sp["inputs"][-1], (-1.0, 2.5))),
                   boundary_conditions=(BoundaryConditionConfig(0, "states", sp["states"][-1],
                                                                0.5),))
    case.describe(**o.describe())
    case.count("cyclic", o.cyclic)
    case.count("fixed" if o.fixed else "scaled")
    kw = {"mesh_scale": o.T} if o.fixed else {}
    cls = o.ocp_class()
    config = o.make_config(cls)
    before = copy.deepcopy(config)
    order = rng.random() < 0.5
    made = {}
    # both from one model, or from models of their own
    shared = o.make_model() if rng.random() < 0.4 else None
    case.count("shared_model", shared is not None)
    for condensed in ([False, True] if order else [True, False]):
        config.is_condensed = condensed
        before.is_condensed = condensed
        made[condensed] = cls(model=shared or o.make_model(), sim_config=config, **kw)
        case.require(repr(config) == repr(before),
                     "building a problem changes the configuration it is given")
    o.ocp = made[False]
    o.index()
    for k in range(4):
        if k and rng.random() < 0.5:
            case.event("change", o.mutate(problems=[made[False], made[True]]))
            case.count("changes")
        x = o.next_x(x) if k > 1 else o.random_x()
        compare(case, made[False], made[True], x, len(sp["states"]),
                len(o.con_outputs) + len(sp["residuals"]))


def shipped(case, kind):
    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(2, 5)), backend="casadi",
               transcription=["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"][
                   rng.integers(4)])
    if kind == "laptime":
        cfg["is_cyclic"] = bool(rng.integers(2))
    make = real.drone if kind == "drone" else real.laptime
    case.describe(kind=kind, **cfg)
    lift, cond = make(is_condensed=False, **cfg), make(is_condensed=True, **cfg)
    m = lift.model
    if kind == "laptime":
        x = real.random_laptime_x(lift, rng)
    else:
        x = rng.uniform(0.1, 1, lift.num_dec)
    compare(case, lift, cond, x, len(m.names.states),
            len(m.names.con_outputs) + len(m.names.residuals))
    case.count(kind)


FAMILIES = [
    Family("generated", generated, 400, 3000),
    Family("drone", lambda c: shipped(c, "drone"), 16, 80, cost=2),
    Family("laptime", lambda c: shipped(c, "laptime"), 6, 40, cost=20),
]

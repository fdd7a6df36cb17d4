"""The Hessian handed to the solver is the lower triangle of the Lagrangian's Hessian."""
import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP, dense
from lib import long, real, units
from checks.C03 import Obj

PROPERTY = "C02"
RULE = ("random models and problem configurations; the sparse Hessian, completed "
        "symmetrically, at random points, multipliers and objective factors is compared along "
        "random and unit directions with differences of exact gradients of an independent "
        "Lagrangian, and with multipliers of other magnitudes (it is linear in them); other "
        "evaluations are interleaved; also of problems with 200 to 2200 stages, and with residuals in units of 1e-16 to 1e9; distinct by model and configuration")
MIN = {"entries": 20000, "points": 300, "condensed": 50, "lifted": 50, "cyclic": 30,
       "fixed": 50, "scaled": 50, "fd_directions": 60, "structures": 300, "changes": 150,
       "linear": 300, "long": 30, "units": 20, "unit_entries": 500}
ASSUMPTIONS = ["relative tolerance 1e-6 on generated models, 1e-4 on the shipped models",
               "scaled-mesh problems use models that do not depend on the mesh"]


def hessian(case, ocp, x, lam, sigma, struct=None):
    rows, cols = ocp.hessianstructure()
    vals = np.asarray(ocp.hessian(x, lam, sigma), dtype=float)
    rows, cols = np.asarray(rows), np.asarray(cols)
    n = ocp.num_dec
    case.equal((rows.ndim, cols.shape, vals.shape), (1, rows.shape, rows.shape),
               "shapes of the hessian triplets")
    case.require(((rows >= 0) & (rows < n) & (cols >= 0) & (cols < n)).all(),
                 "hessian indices out of range")
    case.require((rows >= cols).all(), "hessian entries above the diagonal")
    if struct is not None:
        case.require(np.array_equal(rows, struct[0]) and np.array_equal(cols, struct[1]),
                     "the hessian structure changes between calls")
    case.count("structures")
    H = dense(rows.astype(int), cols.astype(int), vals, (n, n))
    return H + np.tril(H, -1).T, (rows, cols), vals


def disturb(case, o, ocp):
    """Other evaluations in between, which must not matter."""
    rng = case.rng
    for _ in range(int(rng.integers(0, 4))):
        y = o.random_x() if isinstance(o, RandomOCP) else rng.uniform(-1, 1, ocp.num_dec)
        k = rng.integers(5)
        if k == 0:
            ocp.constraints(y)
        elif k == 1:
            ocp.jacobian(y)
        elif k == 2:
            ocp.hessian(y, rng.standard_normal(ocp.num_con), rng.uniform(-1, 2))
        elif k == 3:
            ocp.gradient(y)
        else:
            ocp.objective(y)


def linear(case, ocp, x, lam, sigma):
    """The Hessian is linear in the multipliers and the factor, however small they are."""
    rng = case.rng
    parts = ocp.split_constraints(lam.copy())
    for name in parts:
        if rng.random() < 0.3:
            parts[name] = np.zeros_like(parts[name])
    lam = np.hstack(list(parts.values())) if parts else lam
    sigma = sigma if rng.random() < 0.5 else 0.0
    k = 10.0 ** rng.uniform(-14, 8)
    with np.errstate(all="ignore"):
        a, b = (np.asarray(ocp.hessian(x, f * lam, f * sigma), dtype=float) for f in (1.0, k))
    case.require(a.shape == b.shape and np.allclose(b / k, a, rtol=1e-9, atol=1e-9 * (
        1e-300 + np.abs(a).max(initial=0))),
        f"multipliers {k:.1e} times as large don't give a hessian {k:.1e} times as large",
        counter="linear")


def random_case(case, points=3, **kw):
    o = RandomOCP(case.rng, **kw)
    case.describe(**o.describe())
    case.count("condensed" if o.condensed else "lifted")
    case.count("fixed" if o.fixed else "scaled")
    case.count("cyclic", o.cyclic)
    rng = case.rng
    struct = None
    objs = [Obj(rng, o.n) for _ in range(int(rng.integers(0, 3)))] if rng.random() < 0.4 else []
    for i, ob in enumerate(objs):
        o.ocp.add_objective(f"extra{i}", ob.make())
        case.count("extra_objectives")
    for p in range(points):
        if p and rng.random() < 0.4:
            case.event("change", o.mutate())
            case.count("changes")
        x = o.next_x(x) if p > 1 else o.random_x()
        if p == 1 and rng.random() < 0.4:
            x[rng.random(o.n) < 0.4] = 0.0
            if o.i_mesh is not None:
                x[o.i_mesh] = 1.0
        lam = rng.standard_normal(o.ocp.num_con) * 10 ** rng.uniform(-1, 1)
        if rng.random() < 0.3:  # one constraint at a time
            lam = np.where(np.arange(lam.size) == rng.integers(max(lam.size, 1)), 1.0, 0.0)
        sigma = [0.0, 1.0, float(rng.uniform(-2, 3))][rng.integers(3)]
        lam0 = lam.copy()
        disturb(case, o, o.ocp)
        H, struct, vals = hessian(case, o.ocp, x, lam, sigma, struct)
        D = rng.standard_normal((10, o.n))
        units = rng.permutation(o.n)[:15]
        D = np.vstack([D, np.eye(o.n)[units]])
        s = o.dec_scales
        g = lambda z: o.ref_lagrangian_grad(z, lam, sigma) + sigma * s * sum(
            (ob.g(z * s) for ob in objs), np.zeros(o.n))
        for d in D:
            h = 1e-3 / max(1, np.abs(d).max())
            with o.frozen_steps(x):
                want, err = real.richardson(g, x, d, h)
            got = H @ d
            scale = 1 + np.abs(want).max() + np.abs(H).max(initial=0) * np.abs(d).max()
            bad = np.abs(got - want) > 1e-6 * scale + 20 * err
            if o.spec_nonsmooth and err.max() > 1e-6 * scale:
                case.count("near_kink")
                continue
            case.require(not bad.any(),
                         f"hessian direction: got {got[bad][:3]}, expected {want[bad][:3]}",
                         counter="directions")
            case.count("entries", o.n)
        disturb(case, o, o.ocp)
        H2, _, vals2 = hessian(case, o.ocp, x, lam, sigma, struct)
        case.require(np.allclose(vals, vals2, rtol=1e-12, atol=1e-14),
                     "the same call later gives another hessian")
        case.require(np.array_equal(lam, lam0), "hessian changes the multipliers given")
        linear(case, o.ocp, x, lam, sigma)
        case.count("points")


def fd_hessian(case, ocp, x, dirs=4, h=2e-4, rtol=1e-4):
    rng = case.rng
    lam = rng.standard_normal(ocp.num_con)
    sigma = float(rng.uniform(0.5, 2))
    H, _, _ = hessian(case, ocp, x, lam, sigma)
    linear(case, ocp, x, lam, sigma)
    r, c = ocp.jacobianstructure()

    def grad(z):
        J = dense(r, c, ocp.jacobian(z), (ocp.num_con, ocp.num_dec))
        return J.T @ lam + sigma * np.asarray(ocp.gradient(z))

    for _ in range(dirs):
        d = rng.standard_normal(ocp.num_dec) * 0.3
        d[rng.random(ocp.num_dec) < rng.choice([0.0, 0.8])] = 0
        got = H @ d
        want, err = real.richardson(grad, x, d, h)
        scale = np.abs(H) @ np.abs(d) + 1
        bad = np.abs(got - want) > rtol * scale + 20 * err
        case.require(not bad.any(), f"hessian direction differs from differences of the "
                     f"gradient: {got[bad][:3]} vs {want[bad][:3]}", counter="fd_directions")
    case.count("points")


def drone_case(case):
    rng = case.rng
    cfg = dict(
        transcription=["ForwardEuler", "Trapezoidal", "LGR", ("LGRIntegral", {"num_stages": 4})][
            rng.integers(4)],
        num_intervals=int(rng.integers(2, 7)), is_condensed=bool(rng.integers(2)),
        backend=["jax", "casadi"][rng.integers(2)])
    case.describe(problem="drone", **cfg)
    ocp = real.drone(**cfg)
    x = rng.uniform(-1, 1, ocp.num_dec)
    x[ocp.dec_var_operator.get_var_index_in_dec("global", "mesh_scale")] = rng.uniform(0.5, 4)
    fd_hessian(case, ocp, x, dirs=8, h=1e-3)


def laptime_case(case):
    rng = case.rng
    cfg = dict(
        transcription=["ForwardEuler", "Trapezoidal", "LGR", ("LGRIntegral", {"num_stages": 4})][
            rng.integers(4)],
        num_intervals=int(rng.integers(2, 5)), is_condensed=bool(rng.integers(2)),
        is_cyclic=bool(rng.integers(2)), hessian_approximation="exact")
    if rng.random() < 0.5:
        cfg["con_output_names"] = ("vehicle.slip_ratio_fl", "vehicle.Fz_tire_rr",
                                   "kinematics.yaw_angle")
        cfg["bounds"] = ()
    track = real.track_names()[rng.integers(3)]
    case.describe(problem="laptime", track=track, **cfg)
    ocp = real.laptime(track=track, tires="PerantoniTire", **cfg)
    fd_hessian(case, ocp, real.random_laptime_x(ocp, rng), dirs=8, h=1e-4)


FAMILIES = [
    Family("jax", lambda c: random_case(c, backend="jax"), 70, 600),
    Family("casadi", lambda c: random_case(c, backend="casadi"), 120, 1500),
    Family("custom", lambda c: random_case(c, backend="custom"), 80, 1000),
    Family("condensed", lambda c: random_case(c, condensed=True, cyclic=True), 50, 600),
    Family("long", long.family(long.judge_hessian), 40, 300, cost=3),
    Family("units", units.family(units.judge_hessian), 30, 250, cost=2),
    Family("drone", drone_case, 16, 120, cost=3),
    Family("laptime", laptime_case, 8, 50, cost=20),
]

"""The constraint Jacobian handed to the solver is the derivative of the constraints."""
import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP, dense
from lib import long, real, units

PROPERTY = "C01"
RULE = ("random models and problem configurations; the sparse Jacobian at random points is "
        "compared, every entry, with complex-step derivatives of an independent "
        "discretisation, and for the shipped problems with finite differences of their own "
        "constraints; those of problems with 200 to 2200 stages along directions; residuals in units of 1e-16 to 1e9; distinct by model and configuration")
MIN = {"entries": 100000, "points": 300, "condensed": 50, "lifted": 50, "cyclic": 30,
       "fixed": 50, "scaled": 50, "fd_columns": 300, "changes": 200, "long": 30, "units": 20, "unit_entries": 500}
ASSUMPTIONS = ["complex-step oracle for generated models; 4th order finite differences for the "
               "shipped models (relative tolerance 1e-5)",
               "scaled-mesh problems use models that do not depend on the mesh"]


def check_structure(case, ocp, rows, cols, vals):
    rows, cols = np.asarray(rows), np.asarray(cols)
    case.equal((rows.ndim, cols.shape, np.shape(vals)), (1, rows.shape, rows.shape),
               "shapes of the jacobian triplets")
    ok = ((rows >= 0) & (rows < ocp.num_con) & (cols >= 0) & (cols < ocp.num_dec)).all()
    case.require(ok, "jacobian indices out of range")


def far(o, x):
    """Where the derivatives are large"""
    mesh = None if o.i_mesh is None else x[o.i_mesh]
    x = x * 10.0 ** o.rng.uniform(1, 8)
    if mesh is not None:
        x[o.i_mesh] = mesh
    return x


def random_case(case, points=4, **kw):
    o = RandomOCP(case.rng, **kw)
    case.describe(**o.describe())
    case.count("condensed" if o.condensed else "lifted")
    case.count("fixed" if o.fixed else "scaled")
    case.count("cyclic", o.cyclic)
    struct = None
    for p in range(points):
        if p and case.rng.random() < 0.4:
            case.event("change", o.mutate())
            case.count("changes")
        x = o.next_x(x) if p > 1 else o.random_x()
        if p == 1 and case.rng.random() < 0.5:
            # exact zeros and equal values: where a structure guessed from values breaks
            x[case.rng.random(o.n) < 0.5] = 0.0
            if o.i_mesh is not None:
                x[o.i_mesh] = 1.0
        if p and case.rng.random() < 0.08:
            x = far(o, x)
            case.count("far")
        vals = np.asarray(o.ocp.jacobian(x))
        rows, cols = o.ocp.jacobianstructure()
        if struct is None:
            struct = (rows, cols)
            check_structure(case, o.ocp, rows, cols, vals)
        else:
            case.require(np.array_equal(rows, struct[0]) and np.array_equal(cols, struct[1]),
                         "the jacobian structure changes between calls")
        J = dense(rows, cols, vals, (o.ocp.num_con, o.n))
        want = o.ref_jacobian(x)
        case.close(J, want, "jacobian", rtol=1e-8, atol=1e-8, counter="entries",
                   scale=1 + np.abs(want).max(initial=0))
        case.count("points")


def fd_case(case, ocp, x, ncols=14, dirs=2, h=2e-4):
    rng = case.rng
    J = real.dense_jac(ocp, x)
    check_structure(case, ocp, *ocp.jacobianstructure(), ocp.jacobian(x))
    cols = rng.permutation(ocp.num_dec)[:ncols]
    for k in range(ncols + dirs):
        d = np.zeros(ocp.num_dec)
        if k < len(cols):
            d[cols[k]] = 1.0
        else:
            d = rng.standard_normal(ocp.num_dec) * 0.3
        got = J @ d
        want, err = real.richardson(ocp.constraints, x, d, h)
        scale = np.maximum(np.abs(J) @ np.abs(d), 1)
        bad = np.abs(got - want) > 2e-5 * scale + 20 * err
        case.require(not bad.any(), f"jacobian column differs from finite differences: "
                     f"{got[bad][:3]} vs {want[bad][:3]}", counter="fd_columns")
    case.count("points")


def drone_case(case):
    rng = case.rng
    cfg = dict(
        transcription=["ForwardEuler", "Trapezoidal", "LGR", ("LGRIntegral", {"num_stages": 4})][
            rng.integers(4)],
        num_intervals=int(rng.integers(2, 7)), is_condensed=bool(rng.integers(2)),
        backend=["jax", "casadi"][rng.integers(2)])
    case.describe(problem="drone", **cfg)
    ocp = real.drone(**cfg)
    x = rng.uniform(-1, 1, ocp.num_dec)
    x[ocp.dec_var_operator.get_var_index_in_dec("global", "mesh_scale")] = rng.uniform(0.5, 4)
    fd_case(case, ocp, x, h=1e-3)


def laptime_case(case):
    rng = case.rng
    tires = ["PerantoniTire", "MF52"][int(rng.random() < 0.3)]
    cfg = dict(
        transcription=["ForwardEuler", "Trapezoidal", "LGR", ("LGRIntegral", {"num_stages": 4})][
            rng.integers(4)],
        num_intervals=int(rng.integers(2, 5)), is_condensed=bool(rng.integers(2)),
        is_cyclic=bool(rng.integers(2)))
    if rng.random() < 0.5:
        cfg["con_output_names"] = ("vehicle.slip_ratio_fl", "vehicle.Fz_tire_rr",
                                   "kinematics.yaw_angle")
        cfg["bounds"] = ()
    track = real.track_names()[rng.integers(3)]
    case.describe(problem="laptime", tires=tires, track=track, **cfg)
    ocp = real.laptime(track=track, tires=tires, **cfg)
    fd_case(case, ocp, real.random_laptime_x(ocp, rng), ncols=25, h=1e-4)


FAMILIES = [
    Family("jax", lambda c: random_case(c, backend="jax"), 150, 800),
    Family("casadi", lambda c: random_case(c, backend="casadi"), 240, 2000),
    Family("custom", lambda c: random_case(c, backend="custom"), 150, 1500),
    Family("condensed", lambda c: random_case(c, condensed=True, cyclic=True), 90, 800),
    Family("long", long.family(long.judge_jacobian), 60, 400, cost=2),
    Family("units", units.family(units.judge_jacobian), 40, 300, cost=2),
    Family("drone", drone_case, 24, 150, cost=3),
    Family("laptime", laptime_case, 12, 60, cost=20),
]

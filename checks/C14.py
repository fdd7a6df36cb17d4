"""Changing the mesh equals rebuilding with that mesh."""
import copy

import numpy as np

from checks.C13 import against_reference, compare, everything
from lib.harness import Family
from lib import models, real
from lib.ocps import RandomOCP, random_points

PROPERTY = "C14"
RULE = ("random problems (fixed and scaled mesh, every transcription and backend, condensed and "
        "lifted) with random histories of new interval points, mesh scales, parameter changes, "
        "rejected meshes and evaluations; compared with the reference after every step and with "
        "a freshly built problem at the end; distinct by problem and history")
MIN = {"comparisons": 100000, "meshes": 300, "scales": 40, "rejections": 400,
       "evaluations": 500, "rebuilt": 60, "nudges": 25, "mesh_values": 600, "laptime": 2, "drone": 5, "twins": 100}
ASSUMPTIONS = ["scaled-mesh problems use time-invariant models (the documented scope)"]


def hard_points(rng, n):
    """Valid interval points, some of them with very short intervals."""
    k = rng.integers(4)
    if k == 0:
        return None
    p = random_points(rng, n)
    if k == 1 and n > 1:
        w = 10 ** rng.uniform(-4, 0, n)
        p = np.concatenate([[0.0], np.cumsum(w) / w.sum()])
        p[-1] = 1.0
    if k == 2:
        p = p.tolist()  # any sequence will do
    return p


def bad_points(rng, n):
    good = random_points(rng, n)
    out = [good[:-1], np.concatenate([good, [1.1]]), good + 0.01, good * 0.99, good * 1.01]
    swapped = good.copy()
    if n >= 2:
        i = int(rng.integers(1, n))
        swapped[i] = swapped[i - 1]
        out.append(swapped)
    if n >= 3:
        s = good.copy()
        i = int(rng.integers(1, n - 1))
        s[[i, i + 1]] = s[[i + 1, i]]
        out.append(s)
    out.append(np.full(n + 1, np.nan))
    out.append(good[::-1].copy())
    return out


def check_mesh(case, o):
    ocp, rng = o.ocp, case.rng
    ref = o.ref_mesh()
    x = o.random_x(rng) * o.dec_scales
    scale = o.T if o.fixed else float(x[o.i_mesh])
    got = np.asarray(ocp.get_mesh_from_dec_var(x), dtype=float)
    case.close(got, ref * scale, "mesh of a point", rtol=1e-12, atol=1e-13)
    s = float(rng.uniform(0.1, 20))
    case.close(ocp.get_mesh_from_scale(s), ref * s, "mesh of a scale", rtol=1e-12, atol=1e-13)
    if o.fixed:
        case.close(ocp.get_mesh(), ref * o.T, "mesh", rtol=1e-12, atol=1e-13)
    case.require(np.all(np.diff(got) > 0), "the mesh does not increase")
    case.close(got[[0, -1]], [0.0, scale], "ends of the mesh", rtol=1e-12, atol=1e-13)
    case.equal(len(got), ocp.num_stages, "stages")
    case.count("mesh_values")


def generated(case):
    rng = case.rng
    backend = ["casadi", "custom", "jax"][int(rng.random() * 2.4)]
    o = RandomOCP(rng, backend=backend, max_intervals=5, max_states=3)
    o.ref = models.Reference(o.spec)
    case.describe(**o.describe())
    check_mesh(case, o)
    for _ in range(int(rng.integers(2, 6))):
        what = str(rng.choice(["points", "points", "points", "scale", "bad", "param"]))
        if what == "points":
            if o.points is not None and o.N > 1 and rng.random() < 0.3:
                # almost the same mesh as before
                p = np.array(o.points, dtype=float)
                p[1:-1] *= 1 + 10 ** rng.uniform(-8, -3) * rng.uniform(-1, 1, o.N - 1)
                if np.all(np.diff(p) > 0):
                    o.points = p
                    case.count("nudges")
            else:
                o.points = hard_points(rng, o.N)
            given = copy.deepcopy(o.points)
            if o.points is None and rng.random() < 0.5:
                o.ocp.set_normalized_mesh()
            else:
                o.ocp.set_normalized_mesh(given)
            if isinstance(given, np.ndarray):
                given[...] = 7.0  # the caller's array is not the problem's
            case.event("points", o.points)
            case.count("meshes")
        elif what == "scale" and o.fixed:
            o.T = float(np.round(10 ** rng.uniform(-1, 2), 3))
            o.ocp.set_mesh_scale(o.T)
            case.event("scale", o.T)
            case.count("scales")
        elif what == "bad":
            for p in bad_points(rng, o.N):
                case.raises(lambda: o.ocp.set_normalized_mesh(p), f"interval points {p}",
                            exc=ValueError)
            if o.fixed:
                T = [0.0, -o.T, float("nan")][rng.integers(3)]
                case.raises(lambda: o.ocp.set_mesh_scale(T), f"mesh scale {T}",
                            exc=AssertionError)
        elif what == "param":
            p = o.ref.params
            p["k"] = float(rng.uniform(-2, 2))
            o.ocp.modify_model_param("k", p["k"])
        check_mesh(case, o)
        against_reference(case, o, f"after {what}")
    if rng.random() < (0.3 if backend == "jax" else 0.6):
        fresh = copy.copy(o)
        m = type(o.model)()
        tree = m.get_recursive_params()
        tree.set_param("k", o.ref.params["k"])
        m.set_recursive_params(tree)
        fresh.build(model=m)
        x = o.random_x(rng)
        lam, sig = rng.standard_normal(o.ocp.num_con), float(rng.normal())
        compare(case, everything(o.ocp, x, lam, sig), everything(fresh.ocp, x, lam, sig),
                f"of a rebuilt problem, {backend}", rtol=1e-12)
        case.close(o.ocp.lb, fresh.ocp.lb, "lower bounds", rtol=0, atol=0)
        case.close(o.ocp.ub, fresh.ocp.ub, "upper bounds", rtol=0, atol=0)
        case.count("rebuilt")
        # two problems with different meshes, at the same point
        if o.fixed:
            fresh.T = float(np.round(10 ** rng.uniform(-1, 2), 3))
            fresh.ocp.set_mesh_scale(fresh.T)
        if rng.random() < 0.5:
            fresh.points = hard_points(rng, o.N)
            fresh.ocp.set_normalized_mesh(fresh.points)
        for a, what in ((fresh, "of a twin"), (o, "next to a twin")):
            against_reference(case, a, what, x)
            case.count("twins")
    # a bad mesh is also rejected at construction
    bad = bad_points(rng, o.N)
    p = bad[rng.integers(len(bad))]
    cls = o.ocp_class()
    kw = {"mesh_scale": o.T} if o.fixed else {}
    case.raises(lambda: cls(model=o.make_model(), sim_config=o.make_config(
        cls, interval_points=p), **kw), f"building with {p}", exc=ValueError)
    if o.fixed:
        case.raises(lambda: cls(model=o.make_model(), sim_config=o.make_config(cls),
                                mesh_scale=float(rng.choice([0.0, -1.0]))),
                    "a mesh scale that is not positive", exc=AssertionError)


def drone(case):
    rng = case.rng
    n = int(rng.integers(2, 6))
    kw = dict(num_intervals=n, is_condensed=bool(rng.integers(2)), backend="casadi",
              transcription=["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"][
                  rng.integers(4)])
    case.describe(**kw, s=float(rng.random()))
    ocp = real.drone(**kw)
    x = rng.uniform(0.1, 1, ocp.num_dec)
    ocp.jacobian(x)
    for _ in range(2):
        pts = random_points(rng, n)
        ocp.set_normalized_mesh(pts)
        case.count("meshes")
    fresh = real.drone(interval_points=pts, **kw)
    lam, sig = rng.standard_normal(ocp.num_con), float(rng.normal())
    compare(case, everything(ocp, x, lam, sig), everything(fresh, x, lam, sig), "drone",
            rtol=1e-12)
    case.close(ocp.get_init_guess(), fresh.get_init_guess(), "initial guess", rtol=1e-12)
    case.count("drone")


def laptime(case):
    rng = case.rng
    n = int(rng.integers(2, 5))
    track = str(rng.choice(real.track_names()))
    cfg = dict(num_intervals=n, is_condensed=bool(rng.integers(2)), track=track,
               transcription=["ForwardEuler", "Trapezoidal", "LGR"][rng.integers(3)])
    case.describe(**cfg, s=float(rng.random()))
    ocp = real.laptime(**cfg)
    x = real.random_laptime_x(ocp, rng)
    ocp.jacobian(x)
    pts = random_points(rng, n)
    ocp.set_normalized_mesh(pts)
    ocp.set_track(real.track_file(track))  # the track data are taken at the mesh points
    case.count("meshes")
    fresh = real.laptime(interval_points=pts, **cfg)
    lam, sig = rng.standard_normal(ocp.num_con), float(rng.normal())
    compare(case, everything(ocp, x, lam, sig), everything(fresh, x, lam, sig), "laptime",
            rtol=1e-12)
    case.close(ocp.get_mesh(), fresh.get_mesh(), "mesh", rtol=1e-13)
    case.close(ocp.lb, fresh.lb, "lower bounds", rtol=1e-13)
    case.close(ocp.ub, fresh.ub, "upper bounds", rtol=1e-13)
    case.close(ocp.get_init_guess(), fresh.get_init_guess(), "initial guess", rtol=1e-12)
    case.count("laptime")


FAMILIES = [Family("generated", generated, 625, 3000, cost=2),
            Family("drone", drone, 20, 60, cost=4), Family("laptime", laptime, 10, 40, cost=20)]

"""Scaling changes units only."""
import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP, dense
from lib import real
from checks.C03 import Obj

PROPERTY = "C07"
RULE = ("a scaled problem (scales configured, or set by a history of set_scales calls) beside "
        "an unscaled twin, related by the chain rule at random points; distinct by problem and "
        "scales")
MIN = {"comparisons": 200000, "evaluations": 300, "rescales": 200, "condensed": 50,
       "drone": 4, "laptime": 2, "bounds": 500}
ASSUMPTIONS = ["constraint scales as documented: scale of the state for dynamics and "
               "continuity, of the output for constrained outputs, one for residuals and "
               "cyclic constraints"]


def con_scales(o, scales):
    sc = lambda g: np.array([scales.get((g, n), 1.0) for n in o.groups()[g]])
    S = o.ocp.num_stages
    nr = len(o.spec["residuals"])
    cont = np.tile(sc("states"), o.N * len(o.A))
    if o.condensed:
        out = {"model_algebra": np.concatenate(
            [cont, np.tile(np.concatenate([sc("con_outputs"), np.ones(nr)]), S)])}
    else:
        out = {"model_algebra": np.tile(
            np.concatenate([sc("states"), sc("con_outputs"), np.ones(nr)]), S),
            "continuity": cont}
    if o.cyclic:
        out["cyclic"] = np.ones(len(o.cyclic_vars))
    return np.concatenate([out[k] for k in o.order()])


def matrices(ocp, x, lam, sigma):
    n, m = ocp.num_dec, ocp.num_con
    r, c = ocp.jacobianstructure()
    J = dense(r, c, ocp.jacobian(x), (m, n))
    r, c = ocp.hessianstructure()
    H = dense(r, c, ocp.hessian(x, lam, sigma), (n, n))
    return (np.asarray(ocp.constraints(x)), J, H + np.tril(H, -1).T,
            float(ocp.objective(x)), np.asarray(ocp.gradient(x)))


def compare(case, scaled, plain, s, cs, x_hat):
    rng = case.rng
    lam = rng.standard_normal(scaled.num_con) * cs
    sigma = float(rng.uniform(0.2, 2))
    c1, J1, H1, f1, g1 = matrices(scaled, x_hat, lam, sigma)
    c0, J0, H0, f0, g0 = matrices(plain, x_hat * s, lam / cs, sigma)
    # Compared in the units of the unscaled problem: with very large or small scales the
    # entries of some variables would not count otherwise.
    kw = dict(rtol=1e-9, atol=1e-10)
    big = lambda a: 1 + np.abs(a).max(initial=0)
    case.close(c1 * cs, c0, "constraints", scale=big(c0), **kw)
    case.close(J1 * cs[:, None] / s, J0, "jacobian", scale=big(J0), **kw)
    case.close(H1 / s[:, None] / s, H0, "hessian", scale=big(H0), **kw)
    case.close(f1, f0, "objective", **kw)
    case.close(g1 / s, g0, "gradient", scale=big(g0), **kw)
    case.require(np.array_equal(scaled.lb, plain.lb) and np.array_equal(scaled.ub, plain.ub),
                 "bounds depend on the scales")
    case.count("bounds", scaled.num_dec)
    case.count("evaluations")


def random_scales(rng, o, old):
    sc = {}
    if rng.random() < 0.3:  # a little more or less of the same
        return {k: v * (1 + 10 ** rng.uniform(-7, -1) * rng.choice([-1, 1]))
                for k, v in old.items()}
    wide = rng.random() < 0.3  # units of very different sizes
    for g, names in o.groups().items():
        for n in names:
            if rng.random() < 0.5:
                sc[(g, n)] = float(10 ** (rng.uniform(-10, 6) if wide else
                                          rng.uniform(-1.5, 1.5)))
    if not o.fixed and rng.random() < 0.6:
        sc[("global", "mesh_scale")] = float(np.round(rng.uniform(0.2, 8), 3))
    return sc


def generated(case):
    from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig, ScaleConfig

    rng = case.rng
    o = RandomOCP(rng, backend=["casadi", "custom", "jax"][int(rng.random() * 2.2)],
                  with_scales=True, build=False, max_intervals=4)
    sp = o.spec
    o.extra = dict(bounds=(BoundConfig("states", sp["states"][0], (-3.0, 4.0)),
                           BoundConfig("inputs", sp["inputs"][0], (-1.0, 2.5))),
                   boundary_conditions=(BoundaryConditionConfig(0, "states", sp["states"][-1],
                                                                0.5),))
    ocp = o.build()
    case.describe(**o.describe())
    case.count("condensed", o.condensed)
    kw = {"mesh_scale": o.T} if o.fixed else {}
    plain = o.ocp_class()(model=o.make_model(), sim_config=o.make_config(
        o.ocp_class(), scales=()), **kw)
    if rng.random() < 0.5:
        ob = Obj(rng, o.n)
        ocp.add_objective("extra", ob.make())
        plain.add_objective("extra", ob.make())
        case.count("extra_objectives")
    compare(case, ocp, plain, o.dec_scales, con_scales(o, o.scales), o.random_x())
    sc = dict(o.scales)
    for k in range(int(rng.integers(1, 4))):
        if rng.random() < 0.3:
            # valid and invalid scales together: none of them counts
            bad = [ScaleConfig(g, n, float(v) * 3) for (g, n), v in
                   random_scales(rng, o, {("states", sp["states"][0]): 1.0}).items()]
            bad.insert(int(rng.integers(len(bad) + 1)), ScaleConfig(
                *[("states", "nothing"), ("nothing", sp["states"][0])][rng.integers(2)], 2.0))
            case.raises(lambda: ocp.set_scales(tuple(bad)), "an unknown name")
            case.close(real.scales(ocp), o.dec_scales, "scales after a refused update")
            ob = Obj(rng, o.n)
            for p in (ocp, plain):
                p.add_objective(f"more{k}", ob.make())
            compare(case, ocp, plain, o.dec_scales, con_scales(o, sc), o.random_x())
        sc = random_scales(rng, o, sc) if rng.random() < 0.85 else {}
        if rng.random() < 0.3:
            ocp.update_bounds((BoundConfig("states", sp["states"][0], (-2.0, 2.0)),))
            plain.update_bounds((BoundConfig("states", sp["states"][0], (-2.0, 2.0)),))
        ocp.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in sc.items()))
        case.count("rescales")
        case.event("set_scales", {".".join(k): v for k, v in sc.items()})
        o.dec_scales = o.ref_dec_scales(sc)
        if rng.random() < 0.4:
            case.event("change", o.mutate(kinds=("mesh", "param", "mesh_scale"),
                                          problems=[ocp, plain]))
        x = o.random_x()
        s = o.dec_scales
        # keep the variables in a sensible range
        x = np.where((s > 0.01) & (s < 100), x, rng.uniform(0.2, 2, len(x)) / s)
        compare(case, ocp, plain, s, con_scales(o, sc), x)


def shipped(case, kind):
    from lumos.optimal_control.config import ScaleConfig

    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(2, 5)), backend="casadi",
               is_condensed=bool(rng.integers(2)),
               transcription=["ForwardEuler", "Trapezoidal", "LGR"][rng.integers(3)])
    if kind == "drone":
        make = lambda **k: real.drone(**cfg, **k)
        base = {}
    else:
        make = lambda **k: real.laptime(**cfg, **k)
    ocp0 = make(scales=())
    m = ocp0.model
    groups = {g: getattr(m.names, g) for g in ("states", "inputs", "states_dot", "con_outputs")}
    sc = {(g, n): float(np.round(10 ** rng.uniform(-1, 1), 3))
          for g, ns in groups.items() for n in ns if rng.random() < 0.4}
    ocp1 = make(scales=tuple(ScaleConfig(g, n, v) for (g, n), v in sc.items()))
    case.describe(kind=kind, **cfg, scales={".".join(k): v for k, v in sc.items()})
    s = np.ones(ocp0.num_dec)
    for (g, n), v in sc.items():
        s[ocp0.dec_var_operator.get_var_index_in_dec(g, n)] = v
    gs = lambda g: np.array([sc.get((g, n), 1.0) for n in groups[g]])
    parts = {k: len(v) for k, v in ocp0.split_constraints(np.zeros(ocp0.num_con)).items()}
    S, nx = ocp0.num_stages, len(groups["states"])
    nout = len(groups["con_outputs"]) + len(m.names.residuals)
    alg = np.concatenate([gs("con_outputs"), np.ones(len(m.names.residuals))])
    cs = []
    for k, size in parts.items():
        if k == "cyclic":
            cs.append(np.ones(size))
        elif k == "continuity":
            cs.append(np.tile(gs("states"), size // nx))
        elif cfg["is_condensed"]:
            cs.append(np.tile(gs("states"), (size - S * nout) // nx))
            cs.append(np.tile(alg, S))
        else:
            cs.append(np.tile(np.concatenate([gs("states"), alg]), S))
    if kind == "laptime":
        x = real.random_laptime_x(ocp0, rng)
    else:
        x = rng.uniform(0.1, 1, ocp0.num_dec)
    compare(case, ocp1, ocp0, s, np.concatenate(cs), x / s)
    case.count(kind)


FAMILIES = [
    Family("generated", generated, 650, 2500),
    Family("drone", lambda c: shipped(c, "drone"), 20, 60, cost=2),
    Family("laptime", lambda c: shipped(c, "laptime"), 10, 40, cost=20),
]

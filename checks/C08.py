"""Bounds and boundary conditions after any history of updates."""
import numpy as np

from lib.harness import Family, Skip
from lib.ocps import RandomOCP

PROPERTY = "C08"
RULE = ("random histories of bound updates (scalars, arrays, all groups, globals), boundary "
        "conditions (positive and negative stages), set_*_bounds, scale changes and invalid "
        "updates; a dictionary model of the bounds is compared after every operation; distinct "
        "by problem and history")
MIN = {"comparisons": 100000, "updates": 800, "boundary": 300, "rejections": 300,
       "condensed": 50, "array_bounds": 100}
ASSUMPTIONS = ["set_state_bounds and its siblings overwrite until the next update of bounds, "
               "which applies the boundary conditions again"]


class Model:
    def __init__(self, o):
        self.o = o
        n = o.n
        self.lb, self.ub = np.full(n, -np.inf), np.full(n, np.inf)
        self.bcs = []

    def idx(self, g, v, stage=None):
        o = self.o
        if g == "global":
            return o.i_mesh
        i = o.idx[g][:, o.groups()[g].index(v)]
        return i if stage is None else i[stage]

    def set(self, g, v, lo, hi, stage=None):
        i = self.idx(g, v, stage)
        self.lb[i], self.ub[i] = lo, hi

    def apply(self):
        for g, v, s, val in self.bcs:
            lo, hi = val if isinstance(val, tuple) else (val, val)
            self.set(g, v, lo, hi, s)


def random_bound(rng, S, scalar=False):
    if scalar or rng.random() < 0.6:
        lo = float(np.round(rng.uniform(-5, 3), 3))
        hi = lo + float(np.round(rng.uniform(0, 4), 3)) * (rng.random() < 0.85)
        if rng.random() < 0.15:
            lo = -np.inf
        if rng.random() < 0.15:
            hi = np.inf
        return lo, hi
    lo = rng.uniform(-5, 3, S)
    return lo, lo + rng.uniform(0, 4, S) * (rng.random(S) < 0.8)


def history(case):
    from lumos.optimal_control.config import (
        BoundConfig, BoundaryConditionConfig, ScaleConfig)

    rng = case.rng
    o = RandomOCP(rng, backend=["casadi", "custom"][rng.integers(2)], build=False,
                  max_intervals=4)
    groups = o.groups()
    names = [(g, v) for g in groups for v in groups[g]]
    S = o.num_stages
    if not o.fixed:
        names.append(("global", "mesh_scale"))
    usable = [(g, v) for g, v in names if not (o.condensed and g == "states_dot")]

    def bounds(k):
        out = []
        for _ in range(k):
            g, v = usable[rng.integers(len(usable))]
            out.append((g, v, random_bound(rng, S, scalar=g == "global")))
        return out

    def conditions(k):
        st = [(g, v) for g, v in usable if g != "global"]
        return [(*st[rng.integers(len(st))], int(rng.integers(-S, S)),
                 float(np.round(rng.uniform(-2, 2), 3)) if rng.random() < 0.8 else
                 random_bound(rng, S, scalar=True)) for _ in range(k)]

    b0, c0 = bounds(int(rng.integers(0, 5))), conditions(int(rng.integers(0, 4)))
    B = lambda bs: tuple(BoundConfig(g, v, [list, tuple][rng.integers(2)](w))
                         for g, v, w in bs)
    C = lambda cs: tuple(BoundaryConditionConfig(s, g, v, val) for g, v, s, val in cs)
    o.extra = dict(bounds=B(b0), boundary_conditions=C(c0))
    ocp = o.build()
    other = None
    m = Model(o)
    case.count("condensed", o.condensed)

    def check():
        case.close(ocp.lb, m.lb, "lower bounds", rtol=0, atol=0)
        case.close(ocp.ub, m.ub, "upper bounds", rtol=0, atol=0)
        g, v = names[rng.integers(len(names))]
        case.close(ocp.get_lb(g, v), m.lb[m.idx(g, v)], f"get_lb {g}.{v}", rtol=0, atol=0)
        case.close(ocp.get_ub(g, v), m.ub[m.idx(g, v)], f"get_ub {g}.{v}", rtol=0, atol=0)

    for g, v, (lo, hi) in b0:
        m.set(g, v, lo, hi)
    if o.condensed:
        for v in groups["states_dot"]:
            m.set("states_dot", v, 0, 0)
    m.bcs += c0
    m.apply()
    check()
    snapshot = (ocp.lb.copy(), ocp.ub.copy())
    if rng.random() < 0.3:
        kw = {"mesh_scale": o.T} if o.fixed else {}
        other = o.ocp_class()(model=o.make_model(), sim_config=o.make_config(o.ocp_class()), **kw)
    for _ in range(int(rng.integers(2, 10))):
        op = rng.integers(7)
        if op <= 1:
            bs = bounds(int(rng.integers(1, 4)))
            ocp.update_bounds(B(bs))
            for g, v, (lo, hi) in bs:
                m.set(g, v, lo, hi)
                case.count("array_bounds", np.ndim(lo))
            m.apply()
            case.count("updates")
            case.event("bounds", [(g, v, type(w[0]).__name__) for g, v, w in bs])
        elif op == 2:
            cs = conditions(int(rng.integers(1, 3)))
            ocp.update_boundary_conditions(C(cs))
            m.bcs += cs
            m.apply()
            case.count("boundary", len(cs))
            case.event("conditions", cs)
        elif op == 3:
            meth = {"states": ocp.set_state_bounds, "inputs": ocp.set_input_bounds,
                    "con_outputs": ocp.set_con_output_bounds}
            cand = [(g, v) for g, v in usable if g in meth]
            g, v = cand[rng.integers(len(cand))]
            s = None if rng.random() < 0.4 else int(rng.integers(-S, S))
            w = random_bound(rng, S, scalar=s is not None)
            if rng.random() < 0.3:
                val = float(rng.uniform(-1, 1))
                meth[g](v, s, val)
                w = (val, val)
            else:
                meth[g](v, s, w)
            m.set(g, v, w[0], w[1], s)
            case.count("updates")
            case.event("set bounds", g, v, s)
        elif op == 4:
            g, v = usable[rng.integers(len(usable))]
            k = rng.integers(15)
            st = groups["states"][0]
            bc = BoundaryConditionConfig
            bad = {
                0: lambda: ocp.update_bounds((BoundConfig(g, "nothing", (0.0, 1.0)),)),
                1: lambda: ocp.update_bounds((BoundConfig(g, v, (1.0, 0.0)),)),
                2: lambda: ocp.update_bounds((BoundConfig(
                    "states", groups["states"][0], (np.zeros(S + 1), np.ones(S + 1))),)),
                3: lambda: ocp.set_state_bounds(groups["states"][0], S, (0.0, 1.0)),
                4: lambda: ocp.set_state_bounds(groups["states"][0], 0, (2.0, 1.0)),
                5: lambda: ocp.set_input_bounds("nothing", 0, 1.0),
                # a valid one before (or after) the invalid one
                6: lambda: ocp.update_bounds(B([(g, v, (-0.5, 0.25))]) + (
                    BoundConfig(g, "nothing", (0.0, 1.0)),) + B(bounds(1))),
                7: lambda: ocp.update_bounds(B(bounds(2)) + (BoundConfig(
                    "states", st, (np.zeros(S + 1), np.ones(S + 1))),)),
                8: lambda: ocp.update_boundary_conditions(
                    C(conditions(1)) + (bc(S, "states", st, 0.5),)),
                9: lambda: ocp.update_boundary_conditions(
                    (bc(0, "states", "nothing", 0.5),) + C(conditions(1))),
                10: lambda: ocp.update_boundary_conditions((bc(0, "nothing", st, 0.5),)),
                # one of the two bounds has a wrong size
                11: lambda: ocp.set_state_bounds(st, None, (-9.0, np.ones(S + 1))),
                12: lambda: ocp.set_state_bounds(st, None, (-np.ones(S + 1), 9.0)),
                13: lambda: ocp.set_state_bounds(st, int(rng.integers(-S, S)),
                                                 (-9.0, np.ones(S + 1))),
                14: lambda: ocp.set_state_bounds(st, None, (-9.0, np.nan)),
            }[int(k)]
            case.raises(bad, f"invalid update {k}")
            case.event("invalid", int(k))
        elif op == 5:
            g, v = usable[rng.integers(len(usable))]
            ocp.set_scales((ScaleConfig(g, v, float(rng.uniform(0.1, 9))),))
            case.event("scale", g, v)
        else:
            ocp.constraints(o.random_x())
            ocp.set_normalized_mesh(None)
        check()
    if other is not None:  # not shared between problems
        case.close(other.lb, snapshot[0], "bounds of another problem", rtol=0, atol=0)
        case.close(other.ub, snapshot[1], "bounds of another problem", rtol=0, atol=0)
    case.describe(**o.describe(), history=[e[0] for e in case.trace], initial=[len(b0), len(c0)])


def config_values(case):
    """BoundConfig accepts exactly ordered scalars or ordered 1-d arrays of one length."""
    from lumos.optimal_control.config import BoundConfig

    rng = case.rng
    n = int(rng.integers(1, 6))
    lo = rng.uniform(-1, 1, n)
    hi = lo + rng.uniform(0, 1, n)
    k = int(rng.integers(n))
    bad_hi = hi.copy()
    bad_hi[k] = lo[k] - 1e-6
    case.describe(n=n, k=k, lo=lo)
    b = BoundConfig("states", "x", (lo, hi))
    case.require(b.values[0] is lo or np.array_equal(b.values[0], lo), "values kept")
    BoundConfig("states", "x", (lo, lo.copy()))
    BoundConfig("states", "x", (float(lo[0]), float(hi[0])))
    BoundConfig("states", "x", (-np.inf, np.inf))
    case.equal(tuple(BoundConfig("states", "x", [1.0, 2.5]).values), (1.0, 2.5),
               "values of bounds given as a list")
    for vals in [(lo, bad_hi), (float(hi[0]) + 1e-9, float(hi[0])), (lo, 2.0), (-2.0, hi),
                 (lo.reshape(-1, 1), hi), (lo, np.append(hi, 2.0)),
                 (lo.reshape(-1, 1), hi.reshape(-1, 1))]:
        case.raises(lambda: BoundConfig("states", "x", vals), "invalid bound values")
    case.count("updates")


FAMILIES = [Family("history", history, 1800, 6000), Family("values", config_values, 120, 400)]

"""Configuration objects: lossless, independent, never changed by their use."""
import copy
import dataclasses
import os

import numpy as np

from lib import real
from lib.harness import Family
from lib.ocps import RandomOCP

PROPERTY = "C22"
RULE = ("random configurations of all three classes and of their parts, through to_dict and "
        "back, with changes to every copy; two problems and a later one built from one config "
        "object, with every kind of update and a solve in between; distinct by configuration "
        "and history")
MIN = {"comparisons": 90000, "roundtrips": 2500, "problems": 1800, "uses": 1900, "rejections": 5000,
       "shipped": 35, "solves": 60, "owner_changes": 500}
ASSUMPTIONS = ["sequences of bounds, scales and boundary conditions are tuples, as declared, or lists of "
               "dictionaries, as json leaves them"]

SIM = dict(num_intervals=99, interval_points=None, transcription=("Trapezoidal",),
           is_cyclic=False, non_cyclic_vars=[], is_condensed=False, backend="jax",
           hessian_approximation="exact", boundary_conditions=(), bounds=(), scales=(),
           con_output_names=(), logging_config=None)


def freeze(x):
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, tuple((f.name, freeze(getattr(x, f.name)))
                                        for f in dataclasses.fields(x)))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    return (type(x).__name__, x if x == x else "nan")


def plain(x):
    """what to_dict must give"""
    if dataclasses.is_dataclass(x):
        return {f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x)}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    return x


def classes():
    from lumos.optimal_control.config import SimConfig
    from lumos.simulations.drone_simulation import DroneSimulationConfig
    from lumos.simulations.laptime_simulation import LTCConfig

    return {"SimConfig": SimConfig, "DroneSimulationConfig": DroneSimulationConfig,
            "LTCConfig": LTCConfig}


def random_fields(rng):
    from lumos.optimal_control.config import (
        BoundaryConditionConfig, BoundConfig, LoggingConfig, ScaleConfig)

    N = int(rng.integers(1, 8))
    name = lambda: ["x", "vehicle.v", "a1", "mesh_scale"][rng.integers(4)]
    group = lambda: ["states", "inputs", "global"][rng.integers(3)]
    num = lambda: float(np.round(rng.uniform(-9, 9), 4))

    def bound():
        if rng.random() < 0.5:
            lo = num()
            return BoundConfig(group(), name(), (lo, [np.inf, lo, lo + 1.5][rng.integers(3)]))
        a = rng.uniform(-1, 1, N)
        return BoundConfig(group(), name(), (a, a + rng.uniform(0, 1, N)))

    many = lambda f: tuple(f() for _ in range(int(rng.integers(0, 4))))
    kw = {
        "num_intervals": N,
        "interval_points": np.sort(np.r_[0, rng.random(N - 1), 1]),
        "transcription": [("LGR", {"num_stages": int(rng.integers(2, 6))}), "ForwardEuler",
                          ("LGRIntegral",), "Trapezoidal"][rng.integers(4)],
        "is_cyclic": bool(rng.integers(2)), "is_condensed": bool(rng.integers(2)),
        "non_cyclic_vars": [f"states.{name()}" for _ in range(int(rng.integers(0, 3)))]
        + (["states.time"] if rng.random() < 0.3 else []),
        "backend": ["jax", "casadi", "custom"][rng.integers(3)],
        "hessian_approximation": ["exact", "limited-memory"][rng.integers(2)],
        "boundary_conditions": many(lambda: BoundaryConditionConfig(
            int(rng.integers(-3, 3)), group(), name(), num())),
        "bounds": many(bound), "scales": many(lambda: ScaleConfig(group(), name(), abs(num()))),
        "con_output_names": many(name),
        "logging_config": LoggingConfig(*[["s1"], ["s2", "some/dir"], ["s3", "d", 5]][
            rng.integers(3)]),
    }
    keep = rng.random()
    return {k: v for k, v in kw.items() if rng.random() < keep}


def defaults(cls):
    from lumos.simulations import drone_simulation as ds
    from lumos.simulations import laptime_simulation as lt

    d = dict(SIM)
    if cls.__name__ == "DroneSimulationConfig":
        d.update(boundary_conditions=ds.get_default_boundary_conditions(),
                 bounds=ds.get_default_bounds(), con_output_names=("sin_theta",))
    if cls.__name__ == "LTCConfig":
        d.update(boundary_conditions=lt.get_default_boundary_conditions(),
                 bounds=lt.get_default_bounds(), scales=lt.get_default_scales(),
                 con_output_names=lt.get_default_con_output_names(),
                 non_cyclic_vars=["states.time", "inputs.track_heading"])
    return d


def expected(cls, kw):
    d = defaults(cls)
    d.update(kw)
    if isinstance(d["transcription"], str):
        d["transcription"] = (d["transcription"],)
    if cls.__name__ == "LTCConfig":
        d["non_cyclic_vars"] = list(d["non_cyclic_vars"])
        for n in ("states.time", "inputs.track_heading"):
            if n not in d["non_cyclic_vars"]:
                d["non_cyclic_vars"].append(n)
    return d


def check_fields(case, cfg, want, what):
    case.equal(sorted(f.name for f in dataclasses.fields(cfg)), sorted(want),
               f"{what}: fields")
    for k, v in want.items():
        case.require(freeze(getattr(cfg, k)) == freeze(v),
                     f"{what}: {k} is {getattr(cfg, k)!r:.200}, expected {v!r:.200}")


def mutate(x):
    """Change everything changeable in place in x."""
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            mutate(getattr(x, f.name))
        for f in dataclasses.fields(x):
            if isinstance(getattr(x, f.name), (str, float, int, tuple)):
                setattr(x, f.name, "changed")
    elif isinstance(x, dict):
        for v in x.values():
            mutate(v)
        x["changed"] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            mutate(v)
        if isinstance(x, list):
            x.append("changed")
    elif isinstance(x, np.ndarray):
        x += 7


def roundtrip(case):
    from lumos.optimal_control.config import BoundConfig

    rng = case.rng
    cls = list(classes().values())[case.index % 3]
    kw = random_fields(rng)
    if cls.__name__ == "LTCConfig":
        case.raises(lambda: cls(**kw), "an LTCConfig without track")
        kw["track"] = "data/tracks/x.csv"
    case.describe(cls=cls.__name__, fields=sorted(kw), s=float(rng.random()))
    given = copy.deepcopy(kw)
    want = expected(cls, given)
    if rng.random() < 0.5:
        cfg = cls(**kw)
    else:
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
        from lumos.simulations.drone_simulation import DroneSimulation
        from lumos.simulations.laptime_simulation import LaptimeSimulation

        cfg = {"SimConfig": ScaledMeshOCP, "DroneSimulationConfig": DroneSimulation,
               "LTCConfig": LaptimeSimulation}[cls.__name__].get_sim_config(**kw)
        case.require(type(cfg) is cls, "class of get_sim_config")
    case.equal(freeze(kw), freeze(given), "the arguments after construction")
    check_fields(case, cfg, want, "new config")
    other = cls(**copy.deepcopy(given))
    # to a dictionary and back
    snap = freeze(cfg)
    d = cfg.to_dict()
    case.equal(freeze(d), freeze(plain(cfg)), "to_dict")
    d2 = copy.deepcopy(d)
    back = cls(**d)
    check_fields(case, back, want, "config from to_dict")
    case.equal(freeze(d), freeze(d2), "the dictionary after use")
    third = cls(**back.to_dict())
    check_fields(case, third, want, "config after two round trips")
    case.count("roundtrips", 2)
    # parts as dictionaries
    part = {k: d[k] for k in kw if k in d}
    check_fields(case, cls(**copy.deepcopy(part)), want, "config from partial dictionaries")
    # independence
    mutate(d2)
    dd = cfg.to_dict()
    mutate(dd)
    case.equal(freeze(cfg), snap, "the config after changing its dictionary")
    keep = cls(**copy.deepcopy(given))
    mutate(keep)
    case.equal(freeze(cfg), snap, "the config after changing another one")
    case.equal(freeze(other), snap, "an equal config after changing another one")
    check_fields(case, cls(**({"track": "t"} if "track" in kw else {})),
                 dict(defaults(cls), **({"track": "t"} if "track" in kw else {})),
                 "defaults after changing a config")
    # rejections
    base = {"track": "t"} if "track" in kw else {}
    case.raises(lambda: cls(**base, num_interval=3), "an unknown field")
    case.raises(lambda: cls(**base, bounds=({"group": "states", "name": "x"},)),
                "a bound without values")
    case.raises(lambda: cls(**base, scales=({"group": "states", "name": "x", "value": 1.0,
                                             "other": 2},)), "a scale with an unknown field")
    case.raises(lambda: cls(**base, bounds=({"group": "states", "name": "x",
                                             "values": (2.0, 1.0)},)), "crossed bounds")
    v = [0.0, -float(rng.uniform(0, 2)), np.nan, -np.inf][rng.integers(4)]
    case.raises(lambda: ScaleConfig("states", "x", v), f"a scale of {v}")
    case.raises(lambda: cls(**base, scales=({"group": "states", "name": "x", "value": 2.0}, {
        "group": "states", "name": "y", "value": v})), f"scales with one of {v}")
    bad = [(1.0, 0.5), (np.zeros(3), np.ones(2)), (0.0, np.ones(2)), (np.ones((2, 2)),
                                                                     np.ones((2, 2))),
           (np.array([0., 1.]), np.array([1., 0.5])), ([0.0], [1.0]), ("a", 1.0)]
    v = bad[rng.integers(len(bad))]
    case.raises(lambda: BoundConfig("states", "x", v), f"bounds {v}")


def observe(ocp):
    lb, ub = ocp.get_bounds() if hasattr(ocp, "get_bounds") else (ocp.lb, ocp.ub)
    out = {"lb": np.array(lb), "ub": np.array(ub), "scales": real.scales(ocp),
           "mesh": np.array(ocp.get_mesh_from_scale(1.0)),
           "con": tuple(ocp.model.get_group_names("con_outputs")),
           "names": tuple((k, len(v)) for k, v in
                          ocp.split_constraints(np.zeros(ocp.num_con)).items()), "sizes": (ocp.num_dec, ocp.num_con)}
    return out


def same(case, ocp, want, what, x=None, g=None):
    got = observe(ocp)
    for k, v in want.items():
        case.require(freeze(got[k]) == freeze(v), f"{what}: {k} changed")
    if x is not None:
        case.close(ocp.constraints(x), g, f"{what}: constraints")


def use(case, rng, A, cfg, N, names, fixed):
    """One update of problem A; returns what"""
    from lumos.optimal_control.config import (
        BoundaryConditionConfig, BoundConfig, ScaleConfig)

    k = int(rng.integers(7))
    g, n = names[rng.integers(len(names))]
    if k == 0:
        A.update_bounds((BoundConfig(g, n, (-3.25, 3.5)),))
    elif k == 1:
        A.update_boundary_conditions((BoundaryConditionConfig(0, "states", dict(
            (a, b) for a, b in names)["states"], 0.125),))
    elif k == 2:
        A.set_scales((ScaleConfig(g, n, 3.0),))
    elif k == 3:
        A.set_scales(cfg.scales + (ScaleConfig(g, n, 0.5),))
    elif k == 4:
        A.set_normalized_mesh(np.sort(np.r_[0, rng.random(N - 1), 1]))
    elif k == 5:
        A.update_bounds(cfg.bounds)
    elif fixed:
        A.set_mesh_scale(float(rng.uniform(1, 2)))
    return ["bounds", "bc", "scales", "scales+", "mesh", "own bounds", "mesh scale"][k]


def spoil(x, top=True):
    """The owner of a configuration changes everything in it"""
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            if isinstance(v, bool):
                setattr(x, f.name, not v)
            elif isinstance(v, int):
                setattr(x, f.name, v + 1)
            elif isinstance(v, float):
                setattr(x, f.name, 2 * v + 0.25)
            elif isinstance(v, str):
                setattr(x, f.name, v + "x")
            else:
                spoil(v)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x["other"] = 1.0
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.reverse()
            x.append("other")
    elif isinstance(x, np.ndarray):
        x[...] = 77.0


def listed(x):
    """What json leaves of a dictionary: lists for tuples (arrays stay)"""
    if isinstance(x, dict):
        return {k: listed(v) for k, v in x.items()}
    return [listed(v) for v in x] if isinstance(x, (list, tuple)) else x


def owner_changes(case, B, build, cfg, sB, x, g, later, names):
    """later: a tuple of conditions that were given to the problem after it was built"""
    from lumos.optimal_control.config import BoundConfig

    E = build(copy.deepcopy(cfg))
    B.update_boundary_conditions(later)
    E.update_boundary_conditions(copy.deepcopy(later))
    sB = observe(E)
    spoil(cfg)
    spoil(later)
    same(case, B, sB, "a problem after the owner changed its configuration", x, g)
    k, n = names[int(case.rng.integers(len(names)))]
    b = (BoundConfig(k, n, (-4.5, 4.75)),)
    for p in (B, E):
        p.update_bounds(b)
    sB = observe(E)
    same(case, B, sB, "a problem updated after the owner changed its configuration", x, g)
    case.equal(freeze(B.logging_config), freeze(E.logging_config), "the logging of a problem "
               "after the owner changed its configuration")
    case.count("owner_changes")


def problems(case):
    from lumos.optimal_control.config import (
        BoundaryConditionConfig, BoundConfig, LoggingConfig)

    rng = case.rng
    o = RandomOCP(rng, backend="custom" if case.index % 4 else "casadi", build=False,
                  points="random", max_intervals=4)
    cls = o.ocp_class()
    S = o.num_stages
    names = [(g, n) for g, ns in o.groups().items() for n in ns if g != "states_dot"]
    bounds = tuple(BoundConfig(g, n, (-2.0, 4.0) if rng.random() < 0.5 else (
        -rng.uniform(1, 2, S), rng.uniform(3, 4, S))) for g, n in names if rng.random() < 0.6)
    bcs = (BoundaryConditionConfig(0, *[("states", n) for g, n in names if g == "states"][0],
                                   0.5),) if rng.random() < 0.5 else ()
    log = LoggingConfig("s", os.path.join(case.scratch, "logs"),
                        int(rng.integers(0, 3))) if rng.random() < 0.5 else None
    cfg = o.make_config(cls, bounds=bounds, boundary_conditions=bcs, logging_config=log)
    case.describe(**o.describe(), logging=log is not None, s=float(rng.random()))
    snap = freeze(cfg)
    mk = {"mesh_scale": o.T} if o.fixed else {}
    build = lambda c=cfg: cls(model=o.make_model(), sim_config=c, **mk)
    A, B = build(), build()
    o.ocp, o.model = B, B.model
    o.index()
    case.equal(freeze(cfg), snap, "the config after building")
    sB = observe(B)
    same(case, A, sB, "a twin")
    x = o.random_x(rng)
    g = np.array(B.constraints(x))
    case.close(A.constraints(x), g, "constraints of a twin")
    for i in range(4):
        what = use(case, rng, A, cfg, o.N, names, o.fixed)
        case.event(what)
        case.count("uses")
        case.equal(freeze(cfg), snap, f"the config after {what} of a problem")
        same(case, B, sB, f"a second problem after {what} of the first", x, g)
    if rng.random() < 0.25:
        # the start may be infeasible: only what happens to the config matters
        try:
            A.solve(init_guess=rng.uniform(-1, 1, A.num_dec), max_iter=3, print_level=0,
                    fixed_variable_treatment="make_parameter", print_timing_statistics="no")
        except NotImplementedError:
            pass
        else:
            case.count("solves")
        case.equal(freeze(cfg), snap, "the config after a solve")
        same(case, B, sB, "a second problem after a solve of the first", x, g)
    C = build()
    same(case, C, sB, "a problem built after the uses", x, g)
    D = build(type(cfg)(**cfg.to_dict()))
    same(case, D, sB, "a problem built from the config's dictionary", x, g)
    D = build(type(cfg)(**listed(cfg.to_dict())))
    same(case, D, sB, "a problem built from the config's dictionary, after json", x, g)
    case.count("problems", 5)
    first = [n for g_, n in names if g_ == "states"][0]
    owner_changes(case, B, build, cfg, sB, x, g,
                  (BoundaryConditionConfig(-1, "states", first, 0.75),), names)


def shipped(case):
    from lumos.optimal_control.config import BoundaryConditionConfig, LoggingConfig
    from lumos.simulations.drone_simulation import DroneSimulation
    from lumos.simulations.laptime_simulation import LaptimeSimulation

    rng = case.rng
    drone = case.index % 2 == 0
    cls = DroneSimulation if drone else LaptimeSimulation
    N = int(rng.integers(2, 5))
    kw = dict(num_intervals=N, backend="casadi", is_condensed=bool(rng.integers(2)))
    if rng.random() < 0.5:
        kw["logging_config"] = LoggingConfig("x", os.path.join(case.scratch, "l"), 1)
    tracks = real.track_names()
    if drone:
        kw["transcription"] = ("LGR", {"num_stages": 3})
    else:
        cyc = bool(rng.integers(2))
        kw.update(track=real.track_file(tracks[rng.integers(len(tracks))]), is_cyclic=cyc,
                  non_cyclic_vars=[] if rng.random() < 0.5 else ["states.time"])
    cfg = cls.get_sim_config(**kw)
    case.describe(cls=cls.__name__, **{k: str(v) for k, v in kw.items()})
    snap, params, mc = freeze(cfg), {}, {} if drone else real.vehicle_config()
    build = lambda: cls(model_config=mc, sim_config=cfg)
    A, B = build(), build()
    case.equal(freeze(cfg), snap, "the config after building")
    sB = observe(B)
    x = B.get_init_guess() / real.scales(B)
    g = np.array(B.constraints(x))
    names = ([("states", "x"), ("inputs", "f"), ("global", "mesh_scale")] if drone else
             [("states", "vx"), ("inputs", "steer")])
    for i in range(4):
        if not drone and rng.random() < 0.4:
            A.set_track(real.track_file(tracks[rng.integers(len(tracks))]))
            what = "set_track"
        else:
            what = use(case, rng, A, cfg, N, names, False)
        case.event(what)
        case.count("uses")
        case.equal(freeze(cfg), snap, f"the config after {what}")
        same(case, B, sB, f"a second problem after {what}", x, g)
    if drone:
        A.solve(max_iter=4, print_level=0, print_timing_statistics="no",
                fixed_variable_treatment="make_parameter",
                init_guess=A.get_init_guess())
        case.count("solves")
        case.equal(freeze(cfg), snap, "the config after a solve")
        same(case, B, sB, "a second problem after a solve", x, g)
    same(case, build(), sB, "a problem built after the uses", x, g)
    check_fields(case, type(cfg)(**({} if drone else {"track": "t"})),
                 dict(defaults(type(cfg)), **({} if drone else {"track": "t"})),
                 "defaults after the uses")
    case.count("shipped")
    owner_changes(case, B, lambda c: cls(model_config=mc, sim_config=c), cfg, sB, x, g, (
        BoundaryConditionConfig(-1, *names[0], 0.75),), names)


FAMILIES = [Family("roundtrip", roundtrip, 2400, 20000),
            Family("problems", problems, 800, 6000, cost=6),
            Family("shipped", shipped, 64, 300, cost=60)]

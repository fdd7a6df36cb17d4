"""A lap time problem is that of its current track and settings, whatever happened before."""
import csv
import math
import os

import numpy as np

from lib import real
from lib.harness import Family, Skip
from lib.ocps import ref_transcription
from checks.C13 import compare, everything
from checks.C15 import OPTS
from checks.C24 import at, from_points

PROPERTY = "C30"
RULE = ("lap time problems with the shipped car and with a small car of our own, on shipped and "
        "generated tracks, all settings, with random histories of new tracks, parameters, "
        "bounds, boundary conditions, scales, meshes, evaluations, solves and failed updates; "
        "after each step bounds, guess and objective against the raw track data and closed "
        "forms, at the end everything against a fresh problem with the final settings; laps "
        "solved and put into the plane; distinct by settings and history")
MIN = {"comparisons": 120000, "updates": 300, "tracks": 250, "fresh": 70, "objectives": 350,
       "guesses": 350, "laps": 20, "shipped": 6, "rejections": 40, "tables": 25}
ASSUMPTIONS = ["a new mesh needs set_track again, as documented", "custom cars have the states, "
               "inputs and outputs of the shipped one"]
KAPPA, HEAD, N = ("inputs", "track_curvature"), ("inputs", "track_heading"), ("states", "n")


def small_car():
    """A car with the interface of the shipped one that is quick to build."""
    from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
    from lumos.models.composition import ModelMaker
    from lumos.models.vehicles.simple_vehicle import SimpleVehicle as S
    import lumos.numpy as lnp

    try:
        return ModelMaker.get_model_class("C30Car")
    except Exception:
        pass

    @state_space_io(states=S.get_direct_group_names("states"),
                    inputs=S.get_direct_group_names("inputs"),
                    outputs=tuple(f"{a}_{c}" for a in ("slip_ratio", "slip_angle")
                                  for c in real.CORNERS) + ("res_ax", "res_ay"),
                    residuals=("res_ax", "res_ay"))
    class C30Car(StateSpaceModel):
        def __init__(self, model_config={}, params={}):
            super().__init__(model_config=model_config, params=params)

        @classmethod
        def get_default_params(cls):
            return {"power": 9.0, "brakes": 14.0, "drag": 0.0012, "grip": 16.0}

        def forward(self, states, inputs, mesh=0.0):
            p = self._params
            vx, vy, r = states["vx"], states["vy"], states["yaw_rate"]
            ax = p["power"] * inputs["throttle"] - p["brakes"] * inputs["brake"] \
                - p["drag"] * vx ** 2
            dot = {"vx": ax + vy * r, "vy": -2.0 * vy + 0.2 * inputs["steer"],
                   "yaw_rate": 12.0 * inputs["steer"] - 0.05 * r}
            out = {"res_ax": inputs["ax"] - ax, "res_ay": inputs["ay"] - vx * r}
            for c in real.CORNERS:
                w = states["wheel_speed_" + c]
                dot["wheel_speed_" + c] = 3.0 * (vx / 0.33 - w)
                out["slip_ratio_" + c] = 0.01 * (w * 0.33 / vx - 1)
                out["slip_angle_" + c] = 0.0872 * vx * r / p["grip"] + 0.001 * lnp.sin(vy)
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **dot),
                                         outputs=self.make_outputs_dict(**out))

    ModelMaker.add_to_registry(C30Car)
    return C30Car


def car_config(small):
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa: registers the models
    if not small:
        return real.vehicle_config()
    small_car()
    mc = ModelMaker.make_config("SimpleVehicleOnTrack")
    mc.replace_subtree("vehicle", ModelMaker.make_config("C30Car"))
    return mc


def read(path):
    """Raw track data: distance, curvature, heading and distances to both sides."""
    rows = list(csv.reader(open(path)))
    col = {h: [float(r[i]) for r in rows[1:] if len(r) > 1] for i, h in enumerate(rows[0])}
    s, k, h = from_points(col["# x_m"], col["y_m"])
    return {"s": s, "curvature": k, "heading": h, "left": col["w_tr_left_m"],
            "right": col["w_tr_right_m"], "x": col["# x_m"], "y": col["y_m"]}


def make_track(rng, path, kind="loop", n=None):
    """A wavy loop, either way round, with sides of their own."""
    n = n or int(rng.choice([12, 40, 200]))
    # (some files give the first point again at the end)
    gap = int(rng.random() < 0.7)
    t = np.linspace(0, 2 * np.pi, n + gap)[:n] + rng.uniform(0, 6)
    R = rng.uniform(60, 300)
    r = R * (1 + (rng.uniform(-0.15, 0.15) * np.cos(2 * t + 1) + rng.uniform(-0.05, 0.05)
                  * np.cos(3 * t) if kind == "loop" else 0 * t))
    if rng.random() < 0.5:
        t = -t
    left, right = rng.uniform(3, 5, n), rng.uniform(6, 9, n)
    if rng.random() < 0.5:
        left, right = right, left
    x, y = r * np.cos(t), 0.8 * r * np.sin(t)
    if not gap:
        x[-1], y[-1] = x[0], y[0]
    with open(path, "w") as f:
        f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
        for a, b, c, d in zip(x, y, right, left):
            f.write(f"{a!r},{b!r},{c!r},{d!r}\n")
    return path


class Sim:
    """A problem and what it has been told."""

    def __init__(self, case, rng, small=True, **kw):
        from lumos.optimal_control.config import BoundConfig
        self.case, self.rng, self.small = case, rng, small
        self.made = 0
        if case.index % 3 == 0:
            self.tracks = [real.track_file(str(t)) for t in
                           rng.choice(real.track_names(), 2, replace=False)]
        else:
            self.tracks = []
        while len(self.tracks) < 4:
            p = os.path.join(case.scratch, f"t{len(self.tracks)}.csv")
            self.tracks.append(make_track(rng, p))
        self.track = self.tracks[rng.integers(4)]
        self.N = int(rng.integers(2, 8)) if small else int(rng.integers(2, 4))
        tr = [("LGR", {"num_stages": 3}), "Trapezoidal", "ForwardEuler", "LGRIntegral"][
            rng.integers(4)]
        cyclic = bool(rng.integers(2))
        self.kw = dict(num_intervals=self.N, transcription=tr, is_cyclic=cyclic,
                       is_condensed=bool(rng.integers(2)), backend="casadi",
                       interval_points=None if rng.random() < 0.6 else self.points())
        self.kw.update(kw)
        self.explicit = {}
        if rng.random() < 0.5:
            from lumos.simulations import laptime_simulation as l
            self.explicit = dict(bounds=l.get_default_bounds(), scales=l.get_default_scales(),
                                 boundary_conditions=l.get_default_boundary_conditions(cyclic))
            if rng.random() < 0.4:
                # of no use: the track's hold
                self.explicit["bounds"] += (BoundConfig("states", "n", (-1.0, 1.0)),
                                            BoundConfig(*KAPPA, (0.0, 0.0)))
        self.con = [()]
        self.bounds, self.bcs, self.params = [], [], {}
        self.scales = None
        self.ocp = self.build()
        case.count("tracks")

    def points(self):
        return np.r_[0, np.sort(self.rng.uniform(0.02, 0.98, self.N - 1)), 1]

    def build(self):
        from lumos.models.tree_utils import ParameterTree  # noqa: F401
        from lumos.simulations.laptime_simulation import LaptimeSimulation
        mc = car_config(self.small)
        kw = dict(self.kw, **self.explicit)
        params = {}
        if self.params:
            from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
            params = SimpleVehicleOnTrack(model_config=mc).get_recursive_params()
            for k, v in self.params.items():
                params.set_param(k, v)
        self.made += 1
        return LaptimeSimulation(model_params=params, model_config=mc,
                                 sim_config=LaptimeSimulation.get_sim_config(
                                     track=self.track, **kw))

    def fresh(self):
        import copy
        o = copy.copy(self)
        o.ocp = o.build()
        if self.scales is not None:
            o.ocp.set_scales(self.scales)
        for b in self.bounds:
            o.ocp.update_bounds((b,))
        for b in self.bcs:
            o.ocp.update_boundary_conditions((b,))
        return o


def distances(o, raw):
    """Distance of every stage"""
    ip, tr = o.kw["interval_points"], o.kw["transcription"]
    ip = np.linspace(0, 1, o.N + 1) if ip is None else ip
    pts = ref_transcription(tr if isinstance(tr, str) else tr[0])[0]
    m = [np.array([ip[0]])] + [a + pts[1:] * (b - a) for a, b in zip(ip[:-1], ip[1:])]
    return np.concatenate(m) * raw["s"][-1]


def judge(case, o, what):
    """Against the raw data of the current track."""
    ocp, rng = o.ocp, o.rng
    raw = read(o.track)
    d = distances(o, raw)
    case.close(ocp.distance_mesh, d, f"{what}: distances", rtol=1e-11)
    case.close(ocp.get_mesh(), d, f"{what}: mesh", rtol=1e-11)
    S = len(d)
    lb, ub = np.asarray(ocp.lb), np.asarray(ocp.ub)
    op = ocp.dec_var_operator
    scales = real.scales(ocp)
    get = lambda v, g, n: v[op.get_var_index_in_dec(g, n)]
    ref = {k: np.array([at(q, raw["s"], raw[k]) for q in d])
           for k in ("curvature", "heading", "left", "right")}
    later = {(b.group, b.name) for b in o.bounds}
    for key, lo, hi in ((KAPPA, "curvature", "curvature"), (HEAD, "heading", "heading"),
                        (N, "right", "left")):
        if key in later:
            continue
        lo = -ref[lo] if lo == "right" else ref[lo]
        hi = ref[hi]
        for b in (*o.explicit.get("boundary_conditions", ()), *o.bcs):
            if (b.group, b.name) == key:
                lo[b.stage], hi[b.stage] = b.value, b.value
        case.close(get(lb, *key), lo, f"{what}: lower bound of {key[1]}", rtol=1e-8,
                   atol=1e-9)
        case.close(get(ub, *key), hi, f"{what}: upper bound of {key[1]}", rtol=1e-8,
                   atol=1e-9)
    # objective
    x = rng.uniform(-1, 1, ocp.num_dec)
    t, st = get(x * scales, "states", "time"), get(x * scales, "inputs", "steer")
    case.close(ocp.objective(x), t[-1] - t[0] + np.sum(st ** 2) / S, f"{what}: objective",
               rtol=1e-10)
    g = np.zeros(ocp.num_dec)
    it, ist = op.get_var_index_in_dec("states", "time"), op.get_var_index_in_dec("inputs",
                                                                                "steer")
    g[it[-1]] += scales[it[-1]]
    g[it[0]] -= scales[it[0]]
    g[ist] += 2 * st / S * scales[ist]
    case.close(ocp.gradient(x), g, f"{what}: gradient", rtol=1e-10, atol=1e-13)
    sig = float(rng.normal())
    r, c = ocp.hessianstructure()
    h = np.asarray(ocp.hessian(x, np.zeros(ocp.num_con), sig), dtype=float)
    r, c = np.asarray(r, int), np.asarray(c, int)
    on = r == c
    diag = np.bincount(r[on], h[on], ocp.num_dec)
    want = 0 * x
    want[ist] = 2 * scales[ist] ** 2 / S * sig
    case.close(diag, want, f"{what}: second derivatives of the objective", atol=1e-12)
    case.close(h[~on], 0 * h[~on], f"{what}: mixed derivatives of the objective", atol=1e-12)
    case.count("objectives")
    # initial guess
    guess = np.asarray(ocp.get_init_guess(), dtype=float)
    ok = {"time": d / 50, "n": 0, "eta": 0, "vx": 50, "vy": 0, "yaw_rate": 0,
          **{"wheel_speed_" + c: 50 / 0.33 for c in real.CORNERS}}
    for k, v in ok.items():
        case.close(get(guess, "states", k), v + 0 * d, f"{what}: guess of {k}", rtol=1e-10)
    ok = {"throttle": 0, "brake": 0, "steer": 0, "ax": 0, "ay": 0,
          "track_curvature": ref["curvature"], "track_heading": ref["heading"]}
    for k, v in ok.items():
        case.close(get(guess, "inputs", k), v + 0 * d, f"{what}: guess of {k}", rtol=1e-8,
                   atol=1e-9)
    # it satisfies the model: the first rows are the rates and constrained outputs
    if not o.kw["is_condensed"]:
        vec = op.unflatten_var(guess)
        model, i = ocp.model, int(rng.integers(S))
        ret = model.forward_with_arrays(np.asarray(vec.states)[i], np.asarray(vec.inputs)[i],
                                        d[i])
        case.close(np.asarray(vec.states_dot)[i], np.ravel(ret.states_dot),
                   f"{what}: rates of the guess", rtol=1e-8, atol=1e-9)
    case.count("guesses")


def bad_track(case, o):
    """Files that are no tracks are refused and change nothing."""
    rng, ocp = o.rng, o.ocp
    p = os.path.join(case.scratch, "bad.csv")
    kind = int(rng.integers(6))
    if kind >= 3:
        # a table like that of a track, that is none
        k = int(rng.integers(8, 30))
        t = np.linspace(0, 2 * np.pi, k) + rng.uniform(0, 6)
        r = rng.uniform(30, 300)
        v = np.stack([r * np.cos(t), r * np.sin(t), rng.uniform(2, 6, k), rng.uniform(2, 6, k)],
                     axis=1)
        if kind == 3:       # a value is missing
            v[rng.integers(k), rng.integers(4)] = np.nan
            v[:, rng.integers(2, 4)] = np.nan
        elif kind == 4:     # the left side is on the right of the right side
            v[:, 2:] *= -1
        else:
            v[:, 2] = -20.0
        case.count("tables")
        with open(p, "w") as f:
            f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
            f.writelines(",".join(str(x) for x in row) + "\n" for row in v)
    elif kind == 1:
        open(p, "w").write("a,b\n1,2\n3,4\n")
    elif kind == 2:
        open(p, "w").write("# x_m,y_m,w_tr_right_m\n1,2,3\n2,3,3\n")
    else:
        p += ".missing"
    x = np.asarray(ocp.get_init_guess(), dtype=float)
    look = lambda: [np.array(v) for v in (
        ocp.lb, ocp.ub, ocp.distance_mesh, ocp.get_mesh(), ocp.constraints(x),
        ocp.get_init_guess())]
    before = look()
    case.raises(lambda: ocp.set_track(p), "a file that is no track")
    for a, b in zip(before, look()):
        case.require(np.array_equal(a, b), "a refused track changed the problem")


def step(case, o):
    from lumos.optimal_control.config import (
        BoundaryConditionConfig, BoundConfig, ScaleConfig)
    rng, ocp = o.rng, o.ocp
    what = str(rng.choice(["track", "track", "param", "bound", "bc", "scales", "mesh", "use",
                           "bad", "solve"], p=[.2, .2, .15, .1, .1, .05, .09, .04, .05, .02]))
    case.event(what)
    case.count("updates")
    if what == "track":
        o.track = o.tracks[rng.integers(4)]
        ocp.set_track(o.track)
        o.bounds = [b for b in o.bounds if (b.group, b.name) not in (KAPPA, HEAD, N)]
        case.count("tracks")
    elif what == "param":
        keys = ["vehicle.power", "vehicle.drag", "vehicle.grip"] if o.small else [
            "vehicle.vehicle_mass", "vehicle.aero.Cx", "vehicle.aero.Cz", "vehicle.max_power",
            "vehicle.tire_fl.mu_y1"]
        k = str(rng.choice(keys))
        flat = ocp.model.get_recursive_params().to_flat_dict()[0]
        if k in flat:
            v = float(flat[k]) * float(rng.uniform(0.8, 1.2))
            ocp.modify_model_param(k, v)
            o.params[k] = v
    elif what == "bound":
        g, n = [("states", "vx"), ("inputs", "steer"), ("states", "n"),
                ("con_outputs", "vehicle.slip_angle_fl")][rng.integers(4)]
        v = {"vx": (6.0, float(rng.uniform(50, 90))), "steer": (-0.6, 0.6)}.get(
            n, (-float(rng.uniform(0.1, 2)), 1.5))
        b = BoundConfig(g, n, v)
        ocp.update_bounds((b,))
        o.bounds = [c for c in o.bounds if (c.group, c.name) != (g, n)] + [b]
    elif what == "bc":
        b = BoundaryConditionConfig([0, -1][rng.integers(2)], "states",
                                    str(rng.choice(["n", "eta", "vx"])),
                                    float(np.round(rng.uniform(-0.5, 0.5), 3)))
        if b.name == "vx":
            b.value += 30
        if b.name == "n" and any(c.name == "n" for c in o.bounds):
            return what
        ocp.update_boundary_conditions((b,))
        o.bcs.append(b)
    elif what == "scales":
        o.scales = tuple(ScaleConfig("states", n, float(rng.uniform(1, 20)))
                         for n in ("vx", "n", "time")) + (ScaleConfig("inputs", "steer", 0.5),)
        from lumos.simulations.laptime_simulation import get_default_scales
        o.scales = get_default_scales() + o.scales
        ocp.set_scales(o.scales)
    elif what == "mesh":
        p = o.points()
        o.kw["interval_points"] = p
        ocp.set_normalized_mesh(p)
        ocp.set_track(o.track)
        o.bounds = [b for b in o.bounds if (b.group, b.name) not in (KAPPA, HEAD, N)]
        case.count("tracks")
    elif what == "use":
        x = rng.uniform(0.1, 1, ocp.num_dec)
        ocp.constraints(x), ocp.jacobian(x), ocp.objective(x)
        ocp.hessian(x, np.ones(ocp.num_con), 1.0)
    elif what == "bad":
        bad_track(case, o)
    elif o.small:
        ocp.solve(init_guess=ocp.get_init_guess(), **{**OPTS, "max_iter": 3})
    return what


def same(case, o, f, what):
    a, b, rng = o.ocp, f.ocp, o.rng
    case.equal((a.num_dec, a.num_con), (b.num_dec, b.num_con), "sizes")
    for k in ("lb", "ub", "cl", "cu", "_dec_var_scales"):
        case.close(getattr(a, k), getattr(b, k), f"{what}: {k}", rtol=1e-12)
    case.close(a.get_init_guess(), b.get_init_guess(), f"{what}: guess", rtol=1e-12)
    case.close(a.get_mesh(), b.get_mesh(), f"{what}: mesh", rtol=1e-12)
    x = real.random_laptime_x(a, rng)
    lam, sig = rng.standard_normal(a.num_con), float(rng.normal())
    compare(case, everything(a, x, lam, sig), everything(b, x, lam, sig), what, rtol=1e-11)
    for k in ("jacobianstructure", "hessianstructure"):
        p, q = getattr(a, k)(), getattr(b, k)()
        case.equal([np.asarray(v, int).tolist() for v in p],
                   [np.asarray(v, int).tolist() for v in q], f"{what}: {k}")
    case.count("fresh")


def describe(case, o, **kw):
    case.describe(small=o.small, track=os.path.basename(o.track), x=float(o.rng.random()),
                  **{k: str(v) for k, v in o.kw.items()}, **kw)


def history(case):
    o = Sim(case, case.rng)
    describe(case, o)
    judge(case, o, "as built")
    if case.rng.random() < 0.4:
        bad_track(case, o)
    for _ in range(int(case.rng.integers(2, 8))):
        w = step(case, o)
        judge(case, o, f"after {w}")
    f = o.fresh()
    judge(case, f, "fresh")
    same(case, o, f, "against a fresh problem")


def shipped(case):
    o = Sim(case, case.rng, small=False)
    describe(case, o)
    for _ in range(3):
        judge(case, o, f"after {step(case, o)}")
    same(case, o, o.fresh(), "against a fresh problem")
    case.count("shipped")


def lap(case):
    """Laps of the small car: inside the edges, in the time they take."""
    rng = case.rng
    # the ends of a generated track differ a little in curvature
    o = Sim(case, rng, num_intervals=1, is_cyclic=True, is_condensed=False,
            non_cyclic_vars=["inputs.track_curvature"],
            interval_points=None, transcription=["Trapezoidal", "LGR"][rng.integers(2)])
    o.explicit = {}
    o.N = int(rng.integers(18, 26))
    o.kw["num_intervals"] = o.N
    for i in range(2):
        o.tracks[i] = make_track(rng, os.path.join(case.scratch, f"lap{i}.csv"), n=200)
    o.track = o.tracks[0]
    o.ocp = o.build()
    o.ocp.set_track(o.tracks[1])
    o.track = o.tracks[1]
    describe(case, o)
    judge(case, o, "before the lap")
    ocp = o.ocp
    opts = {**OPTS, "max_iter": 250}
    sol, info = ocp.solve(init_guess=ocp.get_init_guess(), **opts)
    if info["status"] != 0:
        raise Skip("no lap found: " + str(info["status"]))
    sol = np.asarray(sol)
    op = ocp.dec_var_operator
    get = lambda g, n: sol[op.get_var_index_in_dec(g, n)]
    raw = read(o.track)
    d = distances(o, raw)
    n, eta, vx, vy, t = (get("states", k) for k in ("n", "eta", "vx", "vy", "time"))
    for i, q in enumerate(d):
        lo, hi = -at(q, raw["s"], raw["right"]), at(q, raw["s"], raw["left"])
        case.require(lo - 1e-6 <= n[i] <= hi + 1e-6, f"off the track at {q}: {n[i]} of {lo}, {hi}")
        case.require(abs(vx[i] * get("states", "yaw_rate")[i]) <= 16.6, "more than the grip")
    k = np.array([at(q, raw["s"], raw["curvature"]) for q in d])
    slow = (1 - n * k) / (vx * np.cos(eta) - vy * np.sin(eta))
    if o.kw["transcription"] == "Trapezoidal":
        case.close(t[-1] - t[0], np.sum(np.diff(d) * (slow[1:] + slow[:-1]) / 2),
                   "time of the lap", rtol=1e-7)
    st = get("inputs", "steer")
    case.close(info["obj_val"], t[-1] + np.sum(st ** 2) / len(d), "objective", rtol=1e-6)
    case.close(t[0], 0.0, "starts at zero", atol=1e-7)
    for s in ("n", "eta", "vx", "vy", "yaw_rate"):
        v = get("states", s)
        case.close(v[0], v[-1], f"closed lap: {s}", rtol=1e-6, atol=1e-6)
    # the heading winds once
    # no slower than just following the centre line at the speed its sharpest bend allows
    fine = np.array([at(q, raw["s"], raw["curvature"]) for q in np.linspace(0, d[-1], 400)])
    v0 = min(float(np.sqrt(15.9 / np.abs(fine).max())), 80.0)
    case.require(t[-1] < d[-1] / v0 + 0.5, f"slower ({t[-1]}) than safe ({d[-1] / v0})")
    new = o.fresh()
    again, i2 = new.ocp.solve(init_guess=new.ocp.get_init_guess(), **opts)
    # (their functions are the same up to rounding, which may end the iterations elsewhere)
    if i2["status"] in (0, 1):
        case.close(again, sol, "lap of the fresh problem", rtol=1e-5,
                   atol=1e-5 if i2["status"] == 0 else 1e-3)
        case.count("again")
    case.count("laps")


FAMILIES = [
    Family("history", history, 170, 2000, cost=6),
    Family("lap", lap, 64, 500, cost=12),
    Family("shipped", shipped, 8, 80, cost=25),
]

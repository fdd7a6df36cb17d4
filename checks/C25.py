"""Vehicle dynamics obey Newton's laws and symmetry."""
import math

import numpy as np

from lib.harness import Family
from lib import real

PROPERTY = "C25"
RULE = ("the shipped vehicle, alone and on a track, with random parameters at every node, every "
        "combination of tire models per corner and of aero models, at random states and inputs: "
        "balances of force, moment, load, torque and power re-derived from what it reports, "
        "tires evaluated apart at the slips of rigid body motion, mirrored twins, distance "
        "domain against time domain; on numpy, jax and casadi; distinct by model, parameters "
        "and point")
MIN = {"comparisons": 150000, "points": 3500, "mirrored": 1000, "on_track": 800, "backends": 60,
       "effects": 500}
ASSUMPTIONS = ["forward speed, rear wheels turning; loads use the ax and ay inputs (the residual "
               "outputs make them equal the accelerations)", "downforce is split like weight: "
               "aero_balance has no effect, aero side force and moments do not exist, as "
               "documented", "the dummy aero inputs are vx, vy and yaw rate, as documented"]
CORNERS = real.CORNERS
SIDE = {"fl": 1, "fr": -1, "rl": 1, "rr": -1}
MIRROR = {"fl": "fr", "fr": "fl", "rl": "rr", "rr": "rl"}
STATES = ("vx", "vy", "yaw_rate") + tuple("wheel_speed_" + c for c in CORNERS)
INPUTS = ("throttle", "brake", "steer", "ax", "ay")


def config(rng, on_track=False):
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa: registers the models

    mc = ModelMaker.make_config("SimpleVehicleOnTrack" if on_track else "SimpleVehicle")
    pre = "vehicle." if on_track else ""
    tires = [str(t) for t in rng.choice(["PerantoniTire", "MF52"], 4)]
    if rng.random() < 0.5:
        tires = [tires[0]] * 4
    aero = str(rng.choice(["ConstAero", "ConstAero", "GPAero", "MLPAero"]))
    if real.registered(aero) is None:
        aero = "ConstAero"
    for c, t in zip(CORNERS, tires):
        mc.replace_subtree(f"{pre}tire_{c}", ModelMaker.make_config(t))
    mc.replace_subtree(pre + "aero", ModelMaker.make_config(aero))
    return mc, tires, aero


def subtree(t, path):
    for name in path.split(".") if path else []:
        t = t.get_child(name)
    return t


def random_params(rng, model, pre, tires, aero):
    t = model.get_recursive_params()
    p = dict(subtree(t, pre[:-1]).data)
    for k, v in p.items():
        if k == "some_array":
            continue
        p[k] = float(v) * rng.uniform(0.6, 1.5)
    p["brake_balance"], p["mech_balance"] = rng.uniform(0.2, 0.8, 2)
    p["kd"] = rng.uniform(0, 60)
    for k, v in p.items():
        t.set_param(pre + k, v)
    sub = {}
    for c in CORNERS:
        q = dict(subtree(t, f"{pre}tire_{c}").data)
        for k in q:
            q[k] = float(q[k]) * rng.uniform(0.9, 1.1)
            t.set_param(f"{pre}tire_{c}.{k}", q[k])
        sub["tire_" + c] = q
    q = dict(subtree(t, pre + "aero").data)
    if aero == "ConstAero":
        q = {"Cx": rng.uniform(0.2, 2), "Cy": rng.uniform(-1, 1), "Cz": rng.uniform(0, 5)}
    elif aero == "GPAero":
        q = {"gp_points": rng.normal(0, 1, (6, 3)) + [40, 0, 0],
             "alpha": rng.uniform(0, 2, (3, 6))}
        q["gp_points"][:, 0] = rng.uniform(10, 85, 6)
    else:
        q = {k: np.asarray(v) * rng.uniform(0.5, 2) for k, v in q.items()}
    for k, v in q.items():
        t.set_param(f"{pre}aero.{k}", v)
    sub["aero"] = q
    return t, p, sub


def point(rng, p, steady=False):
    vx = float(rng.uniform(8, 85))
    st = {"vx": vx, "vy": rng.uniform(-3, 3), "yaw_rate": rng.uniform(-0.7, 0.7)}
    for c in CORNERS:
        st["wheel_speed_" + c] = vx / p["rolling_radius"] * (1 + rng.uniform(-0.1, 0.1))
    inp = {"throttle": rng.uniform(0, 1), "brake": rng.uniform(0, 1), "steer": rng.uniform(-1, 1),
           "ax": rng.uniform(-12, 8), "ay": rng.uniform(-14, 14)}
    return {k: float(v) for k, v in st.items()}, {k: float(v) for k, v in inp.items()}


def part(name, params, inputs):
    """A submodel evaluated on its own."""
    from lumos.models.composition import ModelMaker
    from lumos.models.tree_utils import ParameterTree
    m = ModelMaker.make_model_from_name(name)
    m.set_recursive_params(ParameterTree(dict(params)))
    return {k: float(v) for k, v in m.forward(inputs).outputs.items()}


def balances(case, p, sub, tires, aero, st, inp, dot, out):
    """Laws the reported numbers have to obey, in plain numbers."""
    vx, vy, r = st["vx"], st["vy"], st["yaw_rate"]
    w = {c: st["wheel_speed_" + c] for c in CORNERS}
    m, R, a, b = p["vehicle_mass"], p["rolling_radius"], p["cog_to_fa"], p["cog_to_ra"]
    d = inp["steer"] * p["max_steer_angle"]
    F = {c: [out[f"F{x}_tire_{c}"] for x in "xyz"] for c in CORNERS}
    pos = {"fl": (a, p["track_front"] / 2), "fr": (a, -p["track_front"] / 2),
           "rl": (-b, p["track_rear"] / 2), "rr": (-b, -p["track_rear"] / 2)}
    steer = {"fl": d, "fr": d, "rl": 0.0, "rr": 0.0}
    coef = part(aero, sub["aero"], dict(front_ride_height=vx, rear_ride_height=vy, yaw=r))
    for k, v in coef.items():
        case.close(out["aero." + k], v, "aero " + k)
    q = 0.5 * p["air_density"] * (vx * vx + vy * vy)
    size = sum(abs(f) for v in F.values() for f in v) + m * 9.81 + q * 5

    # Newton, in the turning frame of the body
    fx = sum(F[c][0] for c in CORNERS) - coef["Cx"] * q
    fy = sum(F[c][1] for c in CORNERS)
    case.close(m * (dot["vx"] - r * vy), fx, "longitudinal force balance", scale=size)
    case.close(m * (dot["vy"] + r * vx), fy, "lateral force balance", scale=size)
    case.close([m * out["ax"], m * out["ay"]], [fx, fy], "reported accelerations", scale=size)
    case.close([out["res_ax"], out["res_ay"]], [out["ax"] - inp["ax"], out["ay"] - inp["ay"]],
               "acceleration residuals", scale=size / m)
    mz = sum(pos[c][0] * F[c][1] - pos[c][1] * F[c][0] for c in CORNERS)
    case.close(p["Iz"] * dot["yaw_rate"], mz, "yaw moment balance", scale=size * 4)

    # loads: weight and downforce, and the moments of the acceleration inputs
    Fz = {c: F[c][2] for c in CORNERS}
    total = m * p["gravity"] + coef["Cz"] * q
    case.close(sum(Fz.values()), total, "sum of the wheel loads", scale=size)
    pitch = a * (Fz["fl"] + Fz["fr"]) - b * (Fz["rl"] + Fz["rr"])
    h = p["cog_height"]
    case.close(pitch, -inp["ax"] * m * h, "pitch moment balance", scale=size * 4)
    rolls = [p["track_" + n] / 2 * (Fz[n[0] + "l"] - Fz[n[0] + "r"]) for n in ("front", "rear")]
    case.close(sum(rolls), -inp["ay"] * m * h, "roll moment balance", scale=size * 2)
    case.close(rolls[0], -inp["ay"] * m * h * p["mech_balance"], "share of the front in rolling",
               scale=size * 2)

    # wheels
    P = inp["throttle"] * p["max_power"]
    T = {"fl": 0.0, "fr": 0.0, "rl": out["drive_torque_rl"], "rr": out["drive_torque_rr"]}
    tsize = abs(T["rl"]) + abs(T["rr"]) + 1
    case.close(T["rl"] * w["rl"] + T["rr"] * w["rr"], P, "power of the drive torques",
               scale=tsize * (w["rl"] + w["rr"]))
    case.close(T["rl"] - T["rr"], -p["kd"] * (w["rl"] - w["rr"]), "differential", scale=tsize)
    B = inp["brake"] * p["max_total_brake_torque"]
    share = {"f": p["brake_balance"] / 2, "r": (1 - p["brake_balance"]) / 2}
    slipping = 0.0
    for c in CORNERS:
        cs, sn = math.cos(steer[c]), math.sin(steer[c])
        along, across = F[c][0] * cs + F[c][1] * sn, -F[c][0] * sn + F[c][1] * cs
        case.close(p["wheel_inertia"] * dot["wheel_speed_" + c],
                   T[c] - B * share[c[0]] - R * along, f"torque balance of wheel {c}",
                   scale=size * R + abs(T[c]) + B)
        # slips of the contact patch as the rigid body moves it
        u, v = vx - r * pos[c][1], vy + r * pos[c][0]
        along_v, across_v = u * cs + v * sn, -u * sn + v * cs
        case.close(out["slip_angle_" + c], math.atan2(across_v, along_v), f"slip angle {c}",
                   atol=1e-12)
        case.close(out["slip_ratio_" + c], R * w[c] / vx - 1, f"slip ratio {c}", atol=1e-12)
        # the tire on its own; the right hand ones are mirrored left hand ones
        t = part(tires[CORNERS.index(c)], sub["tire_" + c],
                 dict(Fz=Fz[c], kappa=R * w[c] / vx - 1, gamma=0.0, vx=along_v,
                      alpha=SIDE[c] * math.atan2(across_v, along_v)))
        case.close([along, across], [t["Fx"], SIDE[c] * t["Fy"]], f"tire force {c}", scale=size,
                   rtol=1e-8)
        for k, val in t.items():
            case.close(out[f"tire_{c}.{k}"], val, f"tire_{c}.{k}", rtol=1e-7,
                       atol=1e-9 * size)
        slipping += across * across_v + along * (along_v - R * w[c])
    # energy: engine and brakes and drag and the slip of the tires, nothing else
    change = m * (vx * dot["vx"] + vy * dot["vy"]) + p["Iz"] * r * dot["yaw_rate"] \
        + sum(p["wheel_inertia"] * w[c] * dot["wheel_speed_" + c] for c in CORNERS)
    loss = -coef["Cx"] * q * vx - sum(B * share[c[0]] * w[c] for c in CORNERS) + slipping
    case.close(change, P + loss, "power balance", scale=size * (vx + 10) + P)
    case.count("points")


def make(rng, on_track=False):
    from lumos.models.composition import ModelMaker
    mc, tires, aero = config(rng, on_track)
    model = ModelMaker.make_model_from_config(mc)
    pre = "vehicle." if on_track else ""
    tree, p, sub = random_params(rng, model, pre, tires, aero)
    model.set_recursive_params(tree)
    return model, tree, p, sub, tires, aero


def numbers(d):
    return {k: float(v) for k, v in d.items()}


def laws(case):
    rng = case.rng
    model, tree, p, sub, tires, aero = make(rng)
    case.describe(tires=tires, aero=aero, m=p["vehicle_mass"])
    for _ in range(10):
        st, inp = point(rng, p)
        ret = model.forward(states=st, inputs=inp) if rng.random() < 0.5 else \
            model.forward(st, inp, float(rng.uniform(0, 500)))
        balances(case, p, sub, tires, aero, st, inp, numbers(ret.states_dot),
                 numbers(ret.outputs))


def mirror(case):
    """The same car, seen in a mirror."""
    rng = case.rng
    model, tree, p, sub, tires, aero = make(rng)
    from lumos.models.composition import ModelMaker
    mc = ModelMaker.make_config("SimpleVehicle")
    for c, t in zip(CORNERS, tires):
        mc.replace_subtree("tire_" + MIRROR[c], ModelMaker.make_config(t))
    mc.replace_subtree("aero", ModelMaker.make_config(aero))
    other = ModelMaker.make_model_from_config(mc)
    tree2 = other.get_recursive_params()
    for k, v in p.items():
        tree2.set_param(k, v)
    for c in CORNERS:
        for k, v in sub["tire_" + c].items():
            tree2.set_param(f"tire_{MIRROR[c]}.{k}", v)
    for k, v in sub["aero"].items():
        if k == "gp_points":
            v = v * [1, -1, -1]
        if k == "weights_layer_0":
            v = v * [1, -1, -1]
        tree2.set_param("aero." + k, v)
    other.set_recursive_params(tree2)
    case.describe(tires=tires, aero=aero, m=p["vehicle_mass"])

    def flip(d, inverted):
        out = {}
        for k, v in d.items():
            c = next((c for c in CORNERS if k.endswith("_" + c)), None)
            if k.split(".")[0][-3:] in ["_" + c for c in CORNERS] and "." in k:
                a, b = k.split(".")
                k = a[:-2] + MIRROR[a[-2:]] + "." + b
            elif c:
                k = k[:-2] + MIRROR[c]
            s = -1 if any(k.startswith(i) for i in inverted) else 1
            out[k] = s * v
        return out

    for _ in range(6):
        st, inp = point(rng, p)
        a = model.forward(st, inp, 0.0)
        b = other.forward(flip(st, ("vy", "yaw_rate")), flip(inp, ("steer", "ay")), 0.0)
        ad = flip(numbers(a.states_dot), ("vy", "yaw_rate"))
        ao = flip(numbers(a.outputs), ("ay", "Fy_tire", "slip_angle", "res_ay"))
        bd, bo = numbers(b.states_dot), numbers(b.outputs)
        for k in ad:
            case.close(bd[k], ad[k], "mirrored rate of " + k, rtol=1e-8, atol=1e-7)
        case.equal(set(bo), set(ao), "outputs of the twins")
        for k in ao:
            case.close(bo[k], ao[k], "mirrored " + k, rtol=1e-8, atol=1e-6)
        case.count("mirrored")


def on_track(case):
    """On a track: the vehicle in the time domain, by the time per distance."""
    rng = case.rng
    model, tree, p, sub, tires, aero = make(rng, True)
    case.describe(tires=tires, aero=aero, m=p["vehicle_mass"])
    for _ in range(5):
        st, inp = point(rng, p)
        pos = {"time": float(rng.uniform(0, 90)), "n": float(rng.uniform(-6, 6)),
               "eta": float(rng.uniform(-0.5, 0.5))}
        trk = {"track_curvature": float(rng.uniform(-0.05, 0.05)),
               "track_heading": float(rng.uniform(-7, 7))}
        # any order of the dictionaries
        s = {**st, **pos}
        u = {**inp, **trk}
        s = {k: s[k] for k in rng.permutation(list(s))}
        u = {k: u[k] for k in rng.permutation(list(u))}
        ret = model.forward(s, u, float(rng.uniform(0, 4000)))
        dot, out = numbers(ret.states_dot), numbers(ret.outputs)
        # rate along the track of a point moving with the body
        ang = pos["eta"]
        sdot = (st["vx"] * math.cos(ang) - st["vy"] * math.sin(ang)) \
            / (1 - pos["n"] * trk["track_curvature"])
        case.close(dot["time"], 1 / sdot, "time per distance")
        case.close(dot["n"] * sdot, st["vx"] * math.sin(ang) + st["vy"] * math.cos(ang),
                   "speed across the track", atol=1e-9)
        case.close(dot["eta"] * sdot, st["yaw_rate"] - trk["track_curvature"] * sdot,
                   "rate of the relative heading", atol=1e-9)
        case.close(out["kinematics.yaw_angle"], ang + trk["track_heading"], "yaw angle")
        case.close(out["kinematics.curvature"], trk["track_curvature"], "curvature")
        case.equal(set(dot), set(s), "rates of the states")
        balances(case, p, sub, tires, aero, st, inp, {k: dot[k] * sdot for k in STATES},
                 {k[len("vehicle."):]: v for k, v in out.items() if k.startswith("vehicle.")})
        case.count("on_track")


def backends(case):
    """The laws hold for what jax and casadi compute, too."""
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    rng = case.rng
    model, tree, p, sub, tires, aero = make(rng)
    st, inp = point(rng, p)
    case.describe(tires=tires, aero=aero, m=p["vehicle_mass"], backend=case.index % 2)
    s = np.array([st[n] for n in model.get_group_names("states")])
    u = np.array([inp[n] for n in model.get_group_names("inputs")])
    if case.index % 2:
        with lnp.use_backend("jax"):
            ret = model.forward_with_arrays(jax.numpy.asarray(s), jax.numpy.asarray(u), 0.0)
        dot, out = ret.states_dot, ret.outputs
    else:
        with lnp.use_backend("casadi"):
            T = [ca.SX, ca.MX][int(rng.integers(2))]
            xs, us = T.sym("s", len(s)), T.sym("u", len(u))
            ret = model.forward_with_arrays(xs, us, 0.0)
        dot, out = ca.Function("f", [xs, us], [ret.states_dot, ret.outputs])(s, u)
    dot, out = (np.array(v, dtype=float).ravel() for v in (dot, out))
    balances(case, p, sub, tires, aero, st, inp, dict(zip(model.get_group_names("states"), dot)),
             dict(zip(model.get_group_names("outputs"), out)))
    case.count("backends")


def effects(case):
    """What must have an influence has it, in the right direction; what must not, has none."""
    rng = case.rng
    model, tree, p, sub, tires, aero = make(rng)
    st, inp = point(rng, p)
    case.describe(tires=tires, aero=aero, m=p["vehicle_mass"])
    f = lambda s=st, u=inp, **q: _with(model, tree, s, u, q)
    d0, o0 = f()
    d, o = f(u={**inp, "throttle": inp["throttle"] + 0.1})
    case.require(d["wheel_speed_rl"] > d0["wheel_speed_rl"]
                 and d["wheel_speed_rr"] > d0["wheel_speed_rr"], "throttle does not drive")
    case.equal([d[k] for k in STATES[:5]], [d0[k] for k in STATES[:5]],
               "throttle reaches no more than the rear wheels")
    d, o = f(u={**inp, "brake": inp["brake"] + 0.1})
    for c in CORNERS:
        k = "wheel_speed_" + c
        case.require(d[k] < d0[k], f"the brake does not slow wheel {c}")
    d, o = f(u={**inp, "ay": inp["ay"] + 1})
    case.require(o["Fz_tire_fr"] > o0["Fz_tire_fr"] and o["Fz_tire_rl"] < o0["Fz_tire_rl"],
                 "turning left does not load the right hand side")
    d, o = f(u={**inp, "ax": inp["ax"] - 1})
    case.require(o["Fz_tire_fr"] > o0["Fz_tire_fr"] and o["Fz_tire_rl"] < o0["Fz_tire_rl"],
                 "braking does not load the front")
    d, o = f(aero_balance=0.9)
    case.equal(d, d0, "rates with another aero balance")
    d, o = f(some_array=np.zeros((10, 3)))
    case.equal(d, d0, "rates with other dummy values")
    d, o = f()
    case.equal((d, o), (d0, o0), "the same point again")
    case.count("effects", 5)


def _with(model, tree, st, inp, q):
    for k, v in q.items():
        tree.set_param(k, v)
    model.set_recursive_params(tree)
    ret = model.forward(dict(st), dict(inp), 0.0)
    return numbers(ret.states_dot), numbers(ret.outputs)


FAMILIES = [
    Family("laws", laws, 1250, 3750),
    Family("mirror", mirror, 1250, 3750),
    Family("on_track", on_track, 1000, 3000),
    Family("backends", backends, 400, 1200, cost=5),
    Family("effects", effects, 600, 1800),
]

"""Builders for the problems and models that ship with lumos, and FD oracles for them."""
import os

import numpy as np

from lib.watch import watch

REPO = os.environ.get("LUMOS_REPO", "/repo")
TRACKS = os.path.join(REPO, "data", "tracks")
CORNERS = ("fl", "fr", "rl", "rr")


def track_file(name):
    return os.path.join(TRACKS, name + ".csv")


def track_names():
    return sorted(f[:-4] for f in os.listdir(TRACKS) if f.endswith(".csv"))


def drone(**kw):
    from lumos.simulations.drone_simulation import DroneSimulation

    kw.setdefault("num_intervals", 4)
    return watch(DroneSimulation(sim_config=DroneSimulation.get_sim_config(**kw)))


def vehicle_config(tires="PerantoniTire", aero="ConstAero"):
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa: registers the models

    mc = ModelMaker.make_config("SimpleVehicleOnTrack")
    if isinstance(tires, str):
        tires = [tires] * 4
    for c, t in zip(CORNERS, tires):
        mc.replace_subtree(f"vehicle.tire_{c}", ModelMaker.make_config(t))
    mc.replace_subtree("vehicle.aero", ModelMaker.make_config(aero))
    return mc


def laptime(track="Catalunya", tires="PerantoniTire", aero="ConstAero", model_params=None,
            **kw):
    from lumos.simulations.laptime_simulation import LaptimeSimulation

    kw.setdefault("num_intervals", 4)
    kw.setdefault("backend", "casadi")
    track = track if os.sep in track else track_file(track)
    return watch(LaptimeSimulation(
        model_params=model_params or {}, model_config=vehicle_config(tires, aero),
        sim_config=LaptimeSimulation.get_sim_config(track=track, **kw)))


def scales(ocp):
    """The scales of the variables of a problem (ones, when it has none)."""
    for k, v in vars(ocp).items():
        if "scale" in k and np.shape(v) == (ocp.num_dec,):
            return np.array(v, dtype=float)
    return np.ones(ocp.num_dec)


def registered(name):
    """The class the registry gives for a name, or None."""
    from lumos.models.composition import ModelMaker

    try:
        return ModelMaker.get_model_class(name)
    except KeyError:
        return None


def random_laptime_x(ocp, rng):
    """A random, physically sensible point, in the problem's scaled variables."""
    op = ocp.dec_var_operator
    S = ocp.num_stages
    rngs = {
        "time": (0, 90), "n": (-3, 3), "eta": (-0.3, 0.3), "vx": (20, 70), "vy": (-2, 2),
        "yaw_rate": (-0.5, 0.5), "throttle": (0, 1), "brake": (0, 1), "steer": (-0.4, 0.4),
        "ax": (-10, 6), "ay": (-12, 12), "track_curvature": (-0.02, 0.02),
        "track_heading": (-3, 3),
    }
    names = {g: getattr(ocp.model.names, g) for g in
             ("states", "inputs", "states_dot", "con_outputs")}
    x = np.zeros(ocp.num_dec)
    for g, ns in names.items():
        for n in ns:
            i = op.get_var_index_in_dec(g, n)
            if g in ("states_dot", "con_outputs"):
                x[i] = rng.uniform(-0.5, 0.5, S)
            elif n.startswith("wheel_speed"):
                vx = x[op.get_var_index_in_dec("states", "vx")]
                x[i] = vx / 0.33 * (1 + rng.uniform(-0.05, 0.05, S))
            else:
                x[i] = rng.uniform(*rngs[n], S)
    return x / scales(ocp)


def dense(rows, cols, vals, shape):
    M = np.zeros(shape)
    np.add.at(M, (np.ravel(rows), np.ravel(cols)), np.ravel(vals))
    return M


def dense_jac(ocp, x):
    r, c = ocp.jacobianstructure()
    return dense(r, c, ocp.jacobian(x), (ocp.num_con, ocp.num_dec))


def sym_hess(ocp, x, lam, sigma):
    r, c = ocp.hessianstructure()
    H = dense(r, c, ocp.hessian(x, lam, sigma), (ocp.num_dec, ocp.num_dec))
    return H + np.tril(H, -1).T


def richardson(f, x, d, h):
    """4th order directional derivative of f at x along d, with an error estimate."""
    def one(h):
        return (8 * (f(x + h * d) - f(x - h * d))
                - (f(x + 2 * h * d) - f(x - 2 * h * d))) / (12 * h)

    a, b = one(h), one(h / 2)
    return b, np.abs(a - b)

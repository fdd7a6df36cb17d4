"""Track-relative kinematics and the drone obey their equations of motion."""
import math

import numpy as np

from lib.harness import Family, Skip

PROPERTY = "C29"
RULE = ("the kinematics at random states on straights and bends against the projection of a "
        "point moving in Cartesian coordinates, whole drives along random curved tracks against "
        "the path driven in the plane; the drone against the closed-form flight with constant "
        "inputs and random gravity, at points, along flights and at solutions of the shipped "
        "problem flown again with the inputs found; on numpy, jax and casadi; distinct by "
        "model, parameters and point")
MIN = {"comparisons": 30000, "points": 4000, "drives": 60, "flights": 250, "solved": 12,
       "derivatives": 150, "guesses": 25, "beyond": 500}
ASSUMPTIONS = ["the car makes progress along the track and is nearer to the centre line than "
               "its centre of curvature (beyond it the rates are those of the same formulas)"]
TRACK_STATES = ("time", "n", "eta")
TRACK_INPUTS = ("vx", "vy", "yaw_rate", "track_curvature", "track_heading")


def evaluate(case, model, st, inp, mesh, how):
    """rates, outputs as dictionaries of floats, through one way of calling the model"""
    import casadi as ca
    import jax
    import lumos.numpy as lnp

    sn, un, on = (model.get_group_names(g) for g in ("states", "inputs", "outputs"))
    s, u = np.array([st[n] for n in sn]), np.array([inp[n] for n in un])
    if how == "dict":
        keys = list(case.rng.permutation(list(st))), list(case.rng.permutation(list(inp)))
        ret = model.forward({str(k): st[k] for k in keys[0]}, {str(k): inp[k] for k in keys[1]},
                            mesh)
        return ({k: float(v) for k, v in ret.states_dot.items()},
                {k: float(v) for k, v in ret.outputs.items()})
    if how == "arrays":
        ret = model.forward_with_arrays(s, u, mesh)
        dot, out = ret.states_dot, ret.outputs
    elif how == "batch":
        B = 3
        S = s + case.rng.uniform(0, 1, (B, len(s)))
        S[1] = s
        U = u + case.rng.uniform(0, 1, (B, len(u)))
        U[1] = u
        p = model.get_recursive_params()
        # what a problem does first
        model.make_model_algebra_cons("jax" if case.rng.random() < 0.1 else "casadi")
        ret = model.batched_forward(S, U, np.full(B, mesh), p)
        dot, out = np.asarray(ret.states_dot)[1], np.asarray(ret.outputs)[1]
    elif how == "jax":
        with lnp.use_backend("jax"):
            ret = model.forward_with_arrays(jax.numpy.asarray(s), jax.numpy.asarray(u), mesh)
        dot, out = ret.states_dot, ret.outputs
    else:
        T = [ca.SX, ca.MX][case.rng.integers(2)]
        with lnp.use_backend("casadi"):
            a, b = T.sym("s", len(s)), T.sym("u", len(u))
            ret = model.forward_with_arrays(a, b, mesh)
        dot, out = ca.Function("f", [a, b], [ret.states_dot, ret.outputs])(s, u)
    dot, out = (np.array(v, dtype=float).ravel() for v in (dot, out))
    case.equal((len(dot), len(out)), (len(sn), len(on)), f"{how}: sizes")
    return dict(zip(sn, map(float, dot))), dict(zip(on, map(float, out)))


def a_way(rng):
    return str(rng.choice(["dict", "arrays", "jax", "casadi", "batch"],
                          p=[.55, .25, .08, .08, .04]))


def kinematics():
    from lumos.models.kinematics import TrackPosition2D
    return TrackPosition2D()


def project(P, kappa):
    """Distance and offset of a point of the plane: the track leaves the origin along x with
    this curvature."""
    if kappa == 0:
        return P[0], P[1]
    # centre (0, 1/kappa)
    dx, dy = P[0], 1 / kappa - P[1]
    return np.arctan(dx / dy) / kappa, 1 / kappa - math.copysign(1, kappa) * np.sqrt(
        dx * dx + dy * dy)


def local(case):
    """The rates are those of a moving point seen from the track."""
    rng = case.rng
    model = kinematics()
    case.describe(s=float(rng.random()))
    for _ in range(12):
        kappa = [0.0, float(rng.uniform(-0.2, 0.2)), float(rng.uniform(-0.01, 0.01))][
            rng.integers(3)]
        n = float(rng.uniform(-8, 8))
        if abs(n * kappa) > 0.9:
            n = 0.5 * n / abs(n * kappa)
        eta = float(rng.uniform(-1.4, 1.4)) if rng.random() < 0.8 else 0.0
        vx, vy, w = float(rng.uniform(1, 80)), float(rng.uniform(-4, 4)), float(
            rng.uniform(-3, 3))
        if rng.random() < 0.2:  # backwards
            vx = -vx
            case.count("backwards")
        if rng.random() < 0.2:
            vy = 0.0
        heading = float(rng.uniform(-9, 9))
        c, s_ = math.cos(eta), math.sin(eta)
        if abs(vx * c - vy * s_) < 0.3:
            continue
        st = {"time": float(rng.uniform(-5, 90)), "n": n, "eta": eta}
        inp = {"vx": vx, "vy": vy, "yaw_rate": w, "track_curvature": kappa,
               "track_heading": heading}
        how = a_way(rng)
        dot, out = evaluate(case, model, st, inp, float(rng.uniform(0, 5000)), how)
        case.equal(set(dot), set(TRACK_STATES), "states")
        case.equal(set(out), {"yaw_angle", "curvature"}, "outputs")
        case.close(out["yaw_angle"], eta + heading, f"{how}: yaw angle")
        case.close(out["curvature"], kappa, f"{how}: curvature")
        # in the plane: speeds of the point, complex step of its projection
        V = np.array([vx * c - vy * s_, vx * s_ + vy * c])
        rate = lambda f: np.imag(f(1e-30j)) / 1e-30
        pos = lambda t: np.array([0.0, n]) + V * t
        sdot = rate(lambda t: project(pos(t), kappa)[0])
        ndot = rate(lambda t: project(pos(t), kappa)[1])
        # yaw rate is the rate of eta plus that of the track below the car
        edot = w - rate(lambda t: kappa * project(pos(t), kappa)[0])
        case.close(1 / dot["time"], sdot, f"{how}: speed along the track", rtol=1e-10)
        case.close(dot["n"] / dot["time"], ndot, f"{how}: speed across the track", rtol=1e-9,
                   scale=abs(vx))
        case.close(dot["eta"] / dot["time"], edot, f"{how}: rate of the relative heading",
                   rtol=1e-9, scale=10)
        # the same speed, whichever way it is looked at
        case.close(math.hypot((1 - n * kappa) / dot["time"], dot["n"] / dot["time"]),
                   math.hypot(vx, vy), f"{how}: speed", rtol=1e-9)
        case.count("points")
        if kappa and rng.random() < 0.3:
            # the far side of the centre of curvature: going around it the other way
            n2 = 2 / kappa - n
            far, _ = evaluate(case, model, dict(st, n=n2), inp, 0.0, how)
            case.close([far["time"], far["n"] / far["time"]],
                       [-dot["time"], dot["n"] / dot["time"]], "beyond the centre of curvature",
                       rtol=1e-8)
            case.count("beyond")
        # mirrored
        neg = {"time": st["time"], "n": -n, "eta": -eta}, {
            "vx": vx, "vy": -vy, "yaw_rate": -w, "track_curvature": -kappa,
            "track_heading": -heading}
        d2, o2 = evaluate(case, model, *neg, 0.0, "dict")
        case.close([d2["time"], -d2["n"], -d2["eta"], -o2["yaw_angle"], -o2["curvature"]],
                   [dot["time"], dot["n"], dot["eta"], out["yaw_angle"], out["curvature"]],
                   "mirrored")


def drive(case):
    """A whole drive: the path in the plane and the one the model gives are the same."""
    from scipy.integrate import solve_ivp
    rng = case.rng
    model = kinematics()
    a, b, L1, L2 = rng.uniform(-0.02, 0.02), rng.uniform(-0.01, 0.01), rng.uniform(30, 90), \
        rng.uniform(30, 90)
    curv = lambda s: a * math.sin(s / L1) + b * math.cos(s / L2)
    head0 = float(rng.uniform(-3, 3))
    head = lambda s: head0 + a * L1 * (1 - math.cos(s / L1)) + b * L2 * math.sin(s / L2)
    vx0, dv, w1 = rng.uniform(15, 50), rng.uniform(-8, 8), rng.uniform(0.2, 2)
    vy0, w2, amp = rng.uniform(-2, 2), rng.uniform(0.2, 2), rng.uniform(-0.12, 0.12)
    vel = lambda t: (vx0 + dv * math.sin(w1 * t), vy0 * math.cos(w2 * t))
    steer = lambda t: amp * math.sin(w2 * t + 0.3)
    n0, eta0 = float(rng.uniform(-5, 5)), float(rng.uniform(-0.25, 0.25))
    S = float(rng.uniform(60, 250))
    case.describe(S=S, a=float(a))
    bad = []

    def along(s, y):
        # the car follows the road and sways about it
        vx, vy = vel(y[0])
        yr = curv(s) * vx + steer(y[0])
        if abs(y[1] * curv(s)) > 0.8 or abs(y[2]) > 1.2:
            bad.append(s)
        dot = model.forward(dict(zip(TRACK_STATES, y)), {
            "vx": vx, "vy": vy, "yaw_rate": yr, "track_curvature": curv(s),
            "track_heading": head(s)}, s).states_dot
        # and the same motion in the plane, x, y, yaw by distance
        psi, dt = y[5], dot["time"]
        return [float(dot[k]) for k in TRACK_STATES] + [
            (vx * math.cos(psi) - vy * math.sin(psi)) * dt,
            (vx * math.sin(psi) + vy * math.cos(psi)) * dt, yr * dt,
            math.cos(head(s)), math.sin(head(s))]

    start = [0.0, n0, eta0, -n0 * math.sin(head0 + 0 * b), n0 * math.cos(head0), head0 + eta0,
             0.0, 0.0]
    sol = solve_ivp(along, (0, S), start, rtol=1e-10, atol=1e-11, t_eval=np.linspace(0, S, 9),
                    method="DOP853")
    if bad or not sol.success:
        raise Skip("left the neighbourhood of the track")
    for s, y in zip(sol.t, sol.y.T):
        t, n, eta, X, Y, psi, cx, cy = y
        case.close([cx - n * math.sin(head(s)), cy + n * math.cos(head(s))], [X, Y],
                   "position in the plane", rtol=1e-7, atol=1e-6)
        case.close(head(s) + eta, psi, "heading in the plane", rtol=1e-7, atol=1e-7)
    case.count("drives")


DS = ("x", "x_dot", "z", "z_dot", "theta")


def make_drone(rng):
    from lumos.models.drone_model import DroneModel
    from lumos.models.tree_utils import ParameterTree
    g = float(rng.choice([9.81, 1.62, 0.0, rng.uniform(0, 30)]))
    if rng.random() < 0.5:
        model = DroneModel(params=ParameterTree({"gravity": g}))
    else:
        model = DroneModel()
        tree = model.get_recursive_params()
        tree.set_param("gravity", g)
        model.set_recursive_params(tree)
    return model, g


def flown(y0, f, w, g, t):
    """Closed form: constant thrust and turning rate."""
    x, u, z, v, th = y0
    e = th + w * t
    # double integrals as single ones
    p, q = np.polynomial.legendre.leggauss(40)
    p, q = (p + 1) / 2 * t, q / 2 * t
    Is, Ic = np.sum(q * np.sin(th + w * p)), np.sum(q * np.cos(th + w * p))
    IIs, IIc = (np.sum(q * (t - p) * np.sin(th + w * p)),
                np.sum(q * (t - p) * np.cos(th + w * p)))
    return np.array([x + u * t + f * IIs, u + f * Is, z + v * t + f * IIc - g * t * t / 2,
                     v + f * Ic - g * t, e])


def flight(case):
    """The drone's rates are the derivatives of the closed-form flight, and flying with them
    gets there."""
    from scipy.integrate import solve_ivp
    rng = case.rng
    model, g = make_drone(rng)
    case.describe(g=g, s=float(rng.random()))
    for i in range(8):
        y = rng.uniform(-3, 3, 5) * [10, 5, 10, 5, 3]
        f, w = float(rng.uniform(-5, 20)), float(rng.choice([0.0, rng.uniform(-10, 10)]))
        how = a_way(rng)
        st, inp = dict(zip(DS, map(float, y))), {"f": f, "omega": w}
        dot, out = evaluate(case, model, st, inp, float(rng.uniform(0, 3)), how)
        case.equal(set(dot), set(DS), "states")
        d = np.imag(flown(y, f, w, g, 1e-30j)) / 1e-30
        case.close([dot[k] for k in DS], d, f"{how}: rates", rtol=1e-10, atol=1e-10)
        case.close([out["sin_theta"], out["f_omega"]], [math.sin(y[4]), f * w],
                   f"{how}: outputs", atol=1e-12)
        case.equal(set(out), {"sin_theta", "f_omega"}, "outputs")
        # work of thrust
        case.close(y[1] * dot["x_dot"] + y[3] * dot["z_dot"] + g * dot["z"],
                   f * (math.sin(y[4]) * y[1] + math.cos(y[4]) * y[3]), "power", atol=1e-9,
                   scale=100)
        case.count("points")
    T = float(rng.uniform(0.2, 2))
    fun = lambda t, v: list(model.forward_with_arrays(v, np.array([f, w]), t).states_dot)
    sol = solve_ivp(fun, (0, T), y, rtol=1e-10, atol=1e-10, method="DOP853")
    case.close(sol.y[:, -1], flown(y, f, w, g, T), "flight", rtol=1e-7, atol=1e-7)
    case.count("flights")


def derivatives(case):
    """Jacobians of both models on both backends against differences of the motion."""
    rng = case.rng
    drone = case.index % 2
    model, g = make_drone(rng) if drone else (kinematics(), 0)
    backend = "casadi" if (case.index // 2) % 3 else "jax"
    case.describe(model=["kinematics", "drone"][drone], backend=backend, s=float(rng.random()))
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    ns, nu = model.num_states, model.num_inputs
    if drone:
        z = rng.uniform(-3, 3, ns + nu)
        f = lambda v: np.array([v[1], v[5] * np.sin(v[4]), v[3], v[5] * np.cos(v[4]) - g, v[6]])
        names = (DS, ("f", "omega"))
    else:
        z = np.r_[rng.uniform(0, 9), rng.uniform(-5, 5), rng.uniform(-1, 1), rng.uniform(10, 60),
                  rng.uniform(-4, 4), rng.uniform(-2, 2), rng.uniform(-0.05, 0.05),
                  rng.uniform(-6, 6)]

        def f(v):
            sd = (v[3] * np.cos(v[2]) - v[4] * np.sin(v[2])) / (1 - v[1] * v[6])
            return np.array([1 / sd, (v[3] * np.sin(v[2]) + v[4] * np.cos(v[2])) / sd,
                             v[5] / sd - v[6]])
        names = (TRACK_STATES, TRACK_INPUTS)
    case.equal((tuple(model.get_group_names("states")), tuple(model.get_group_names("inputs"))),
               names, "names of states and inputs")
    want = np.array([np.imag(f(z + 1e-30j * e)) / 1e-30 for e in np.eye(len(z))]).T
    with lnp.use_backend(backend):
        if backend == "jax":
            fun = lambda v: model.forward_with_arrays(v[:ns], v[ns:], 0.0).states_dot
            got = np.array(jax.jacfwd(fun)(jax.numpy.asarray(z)))
            rev = np.array(jax.jacrev(fun)(jax.numpy.asarray(z)))
            case.close(rev, want, "reverse derivative", rtol=1e-9, atol=1e-10)
        else:
            v = ca.MX.sym("v", len(z))
            d = model.forward_with_arrays(v[:ns], v[ns:], 0.0).states_dot
            got = np.array(ca.Function("f", [v], [ca.jacobian(d, v)])(z))
    case.close(got, want, f"{backend}: derivative", rtol=1e-9, atol=1e-10)
    case.count("derivatives")


def simulation(case):
    """The shipped drone problem: what it is made of, and its solution flown again."""
    from scipy.integrate import solve_ivp
    from lumos.models.tree_utils import ParameterTree
    from lumos.optimal_control.config import BoundaryConditionConfig, ScaleConfig
    from lumos.simulations.drone_simulation import (
        DroneSimulation, get_default_boundary_conditions)
    from checks.C15 import OPTS

    rng = case.rng
    K = int(rng.integers(4, 6))
    solve = case.index % 2 == 0
    N = int(rng.integers(14, 19)) if solve else int(rng.integers(1, 6))
    g = float(rng.choice([9.81, 3.7]))
    zf, xf = float(rng.uniform(2, 6)), float(rng.uniform(-3, 3))
    bc = get_default_boundary_conditions() + (
        BoundaryConditionConfig(-1, "states", "z", zf),
        BoundaryConditionConfig(-1, "states", "x", xf))
    scales = tuple(ScaleConfig("states", n, float(rng.uniform(0.5, 5))) for n in DS
                   if rng.random() < 0.4)
    tr = [("LGR", {"num_stages": K}), ("LGRIntegral", {"num_stages": K}), "Trapezoidal"][
        0 if solve else rng.integers(3)]
    case.describe(N=N, g=g, zf=zf, xf=xf, tr=str(tr))
    ocp = DroneSimulation(model_params=ParameterTree({"gravity": g}),
                          sim_config=DroneSimulation.get_sim_config(
                              num_intervals=N, transcription=tr, backend="casadi",
                              boundary_conditions=bc, scales=scales,
                              is_condensed=bool(rng.integers(2)) and not solve))
    guess = np.array(ocp.get_init_guess())
    op = ocp.dec_var_operator
    v = op.unflatten_var(guess)
    case.close(guess[-1], 1.0, "guess of the time")
    # the guess satisfies the model
    for y, u, d, c in zip(*(np.asarray(getattr(v, k)) for k in (
            "states", "inputs", "states_dot", "con_outputs"))):
        case.close(d, [y[1], u[0] * math.sin(y[4]), y[3], u[0] * math.cos(y[4]) - g, u[1]],
                   "rates of the guess", atol=1e-12)
        case.close(c, [math.sin(y[4])], "constrained output of the guess", atol=1e-12)
    case.close(ocp.get_total_time(guess), 1.0, "total time of the guess")
    case.count("guesses")
    if not solve:
        return
    sol, info = ocp.solve(init_guess=guess, **{**OPTS, "max_iter": 500})
    if info["status"] != 0:
        raise Skip("not solved")
    v = op.unflatten_var(np.asarray(sol))
    T = float(ocp.get_total_time(sol))
    case.close(T, float(v.mesh_scale), "total time", rtol=1e-12)
    X, U = np.asarray(v.states), np.asarray(v.inputs)
    case.close(X[0], 0.0 * X[0], "start", atol=1e-6)
    case.close(X[-1], [xf, 0, zf, 0, 2 * math.pi], "end", rtol=1e-6, atol=1e-6)
    case.require(T >= 2 * math.pi / 10 - 1e-6, "faster than it can turn")
    # fly it with the inputs found
    P = K - 1
    y = X[0]
    r = np.asarray(ocp.get_mesh_from_scale(1.0))
    for k in range(N):
        sl = slice(k * P, (k + 1) * P + 1)
        ts = r[sl] * T
        u = U[sl]
        # the first node of an interval is no collocation point
        j = slice(1, None)
        ff, ww = (np.poly1d(lagr(ts[j] - ts[0], u[j, i])) for i in (0, 1))
        fun = lambda t, s: [s[1], ff(t) * math.sin(s[4]), s[3], ff(t) * math.cos(s[4]) - g,
                            ww(t)]
        y = solve_ivp(fun, (0, ts[-1] - ts[0]), y, rtol=1e-9, atol=1e-10,
                      method="DOP853").y[:, -1]

    case.trace.append(("K", K, N, T, float(np.abs(y - X[-1]).max())))
    case.close(y, X[-1], "end of the flight with the inputs found", rtol=0, atol=0.05)
    case.count("solved")


def lagr(t, v):
    return np.polyfit(t, v, len(t) - 1)


FAMILIES = [
    Family("local", local, 825, 4000),
    Family("drive", drive, 225, 900, cost=5),
    Family("flight", flight, 700, 3000),
    Family("derivatives", derivatives, 400, 1500),
    Family("simulation", simulation, 140, 420, cost=8),
]

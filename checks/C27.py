"""The steady-state model solver solves what was asked."""
import contextlib
import io
import math

import numpy as np

from lib.harness import Family, Skip
from lib import models, real
from lib.ocps import dense
from checks.C15 import OPTS, kkt

PROPERTY = "C27"
RULE = ("model solvers over random models (any sizes, submodels, residuals, constrained outputs) "
        "and the shipped vehicle, with random scales, bounds, objectives and points, derivatives "
        "against complex steps of the reference, sequences of changes against a fresh solver "
        "with the final settings; linear ones against a linear program; every success is judged "
        "with the reference and an independent KKT check; distinct by model and settings")
MIN = {"comparisons": 60000, "derivatives": 900, "solves": 250, "successes": 150, "lp": 40, "optimal": 40,
       "kkt": 150, "histories": 60, "rejections": 800, "vehicle": 8}
ASSUMPTIONS = ["IPOPT with tol 1e-9; fixed variables are removed by make_parameter",
               "the parameters are those the model had when the solver was made",
               "only the casadi backend, as documented; added constraints need set_cons()"]
GROUPS = ("states", "inputs", "states_dot", "con_outputs")


class Setup:
    """A solver and, apart from it, what it has been asked for."""

    def __init__(self, rng, linear=False, spec=None, con=None):
        self.spec = spec or models.random_spec(rng, max_states=4, max_inputs=3, linear=linear,
                                               max_res=0 if linear else 2)
        outs = models.all_outputs(self.spec)
        if con is None:
            con = [str(o) for o in rng.permutation(outs)[:int(rng.integers(0, len(outs) + 1))]]
        self.con = con
        self.ref = models.Reference(self.spec)
        sp = self.spec
        self.names = {"states": sp["states"], "inputs": sp["inputs"], "states_dot": sp["states"],
                      "con_outputs": con}
        self.keys = [(g, n) for g in GROUPS for n in self.names[g]]
        self.n = len(self.keys)
        self.scale = {k: 1.0 for k in self.keys}
        self.bounds = {k: (-np.inf, np.inf) for k in self.keys}
        self.obj = {}
        self.build()

    def build(self):
        from lumos.optimal_control.model_solver import ModelSolver
        self.model = models.make_model(self.spec)
        self.ms = ModelSolver(self.model, "casadi", list(self.con)) if self.con else \
            ModelSolver(model=self.model, backend="casadi")
        self.m = self.ms.num_con

    def fresh(self):
        import copy
        o = copy.copy(self)
        o.build()
        for (g, n), v in self.scale.items():
            if v != 1.0:
                o.ms.set_var_scale(g, n, v)
        for (g, n), b in self.bounds.items():
            o.ms.set_bounds(g, n, b)
        for (g, n, w) in self.obj:
            o.ms.add_obj_from_var(g, n, w)
        return o

    # reference, of unscaled variables
    def scales(self):
        return np.array([self.scale[k] for k in self.keys])

    def con_scales(self):
        return np.array([self.scale[("states", s)] for s in self.spec["states"]]
                        + [self.scale[("con_outputs", s)] for s in self.con]
                        + [1.0] * len(self.spec["residuals"]))

    def equations(self, z):
        nx, nu = len(self.spec["states"]), len(self.spec["inputs"])
        xdot, outs = self.ref.forward(z[..., :nx], z[..., nx:nx + nu], 0.0)
        rows = [xdot[..., i] - z[..., nx + nu + i] for i in range(nx)]
        rows += [outs[n] - z[..., 2 * nx + nu + i] for i, n in enumerate(self.con)]
        rows += [outs[n] + 0 * z[..., 0] for n in self.spec["residuals"]]
        return np.stack(rows, axis=-1)

    def jacobian(self, z):
        h = 1e-30
        return np.imag(self.equations(z + 1j * h * np.eye(self.n))).T / h

    def gradient(self):
        g = np.zeros(self.n)
        for (a, b, w) in self.obj:
            g[self.keys.index((a, b))] += w
        return g

    def lb(self):
        return np.array([self.bounds[k][0] for k in self.keys], dtype=float)

    def ub(self):
        return np.array([self.bounds[k][1] for k in self.keys], dtype=float)


def change(case, o, rng, what=None, wide=False):
    """One change of the settings, on the solver and in the books."""
    ms = o.ms
    what = what or str(rng.choice(["scale", "bounds", "bounds", "objective", "drop"]))
    if what == "scale":
        k = o.keys[rng.integers(o.n)]
        if k[0] == "states_dot":
            return
        how = rng.random()
        if how < 0.15:  # a little more or less of the same
            v = o.scale[k] * float(1 + 10 ** rng.uniform(-8, -2) * rng.choice([-1, 1]))
        elif wide and how < 0.6:  # units of very different sizes
            v = float(10 ** rng.uniform(-11, 8))
        else:
            v = float(10 ** rng.uniform(-1.5, 2))
            v = v if rng.random() < 0.8 else max(1, int(v))
        ms.set_var_scale(*k, v)
        o.scale[k] = float(v)
    elif what == "bounds":
        k = o.keys[rng.integers(o.n)]
        a, b = sorted(float(v) for v in rng.uniform(-3, 3, 2))
        b = [a, (a, b), (a, np.inf), (-np.inf, b), (-np.inf, np.inf), (-1, 2), 0][
            rng.integers(7)]
        if rng.random() < 0.5:
            ms.set_bounds(*k, b)
        else:
            ms.set_bounds(group=k[0], name=k[1], bounds=b)
        o.bounds[k] = b if isinstance(b, tuple) else (b, b)
    elif what == "objective":
        g, n = o.keys[rng.integers(o.n)]
        w = float(np.round(rng.uniform(-2, 2), 3)) if rng.random() < 0.7 else 1.0
        if (g, n, w) in o.obj:
            return
        name = ms.add_obj_from_var(g, n, w) if w != 1.0 else ms.add_obj_from_var(g, n)
        case.require(name not in o.obj.values(), "two objectives of the same name")
        o.obj[(g, n, w)] = name
    elif o.obj:
        k = list(o.obj)[rng.integers(len(o.obj))]
        ms.delete_objective(o.obj.pop(k))
    case.event(what)


def judge_functions(case, o, rng, what):
    """Everything the solver is given, at a random point."""
    ms, D = o.ms, o.scales()
    z = rng.uniform(-2, 2, o.n)
    x = z / D
    C = o.con_scales()
    case.equal((ms.num_dec, ms.num_con), (o.n, len(C)), "sizes")
    case.equal(list(ms.input_names), [f"{g}.{n}" for g, n in o.keys], "names of the variables")
    g = o.equations(z)
    big = 1 + np.abs(g).max(initial=0)
    # all in the units of the variables: very large and small scales count alike
    case.close(ms.constraints(x) * C, g, f"{what}: equations", rtol=1e-10, scale=big)
    case.close(ms.cl, np.zeros(len(C)), "equations are equalities")
    case.close(ms.cu, np.zeros(len(C)), "equations are equalities")
    J = o.jacobian(z)
    r, c = ms.jacobianstructure()
    case.close(dense(r, c, ms.jacobian(x), J.shape) * C[:, None] / D, J, f"{what}: Jacobian", rtol=1e-9,
               scale=1 + np.abs(J).max())
    if o.obj:
        case.close(ms.objective(x), o.gradient() @ z, f"{what}: objective", rtol=1e-10, atol=1e-9)
        case.close(ms.gradient(x) / D, o.gradient(), f"{what}: gradient", rtol=1e-12)
        lam = rng.standard_normal(len(C))
        r, c = ms.hessianstructure()
        H = dense(np.asarray(r, int), np.asarray(c, int),
                  ms.hessian(x, lam * C, float(rng.uniform(0, 2))), (o.n, o.n))
        H = H + np.tril(H, -1).T + np.triu(H, 1).T
        want = np.zeros_like(H)
        f = lambda d: (o.jacobian(z + d).T @ lam)
        for i in range(o.n):
            e = np.zeros(o.n)
            e[i] = 1e-4
            want[i] = (8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / 12e-4
        case.close(H / np.outer(D, D), want, f"{what}: Hessian", rtol=1e-6, scale=1 + np.abs(want).max())
    case.close(ms.lb, o.lb(), f"{what}: lower bounds")
    case.close(ms.ub, o.ub(), f"{what}: upper bounds")
    for i, k in enumerate(o.keys):
        case.equal(tuple(ms.get_bounds(*k)), tuple(map(float, o.bounds[k])), f"bounds of {k}")
        case.equal(int(ms.get_var_idx(*k)), i, f"index of {k}")
        case.equal(ms.get_var(z, *k), z[i], f"value of {k}")
    case.count("derivatives")


def describe(case, o):
    case.describe(con=o.con, **models.describe_spec(o.spec))


def functions(case):
    rng = case.rng
    o = Setup(rng)
    describe(case, o)
    judge_functions(case, o, rng, "as made")
    wide = rng.random() < 0.4
    for _ in range(4):
        for _ in range(int(rng.integers(1, 6))):
            change(case, o, rng, wide=wide)
        judge_functions(case, o, rng, "after changes")
    judge_functions(case, o.fresh(), rng, "fresh with these settings")
    z = rng.uniform(-2, 2, o.n)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        o.ms.print_result(z)
    case.equal(text.getvalue().strip().split("\n"),
               [f"{g}.{n}: {v}" for (g, n), v in zip(o.keys, z)], "printed result")


def wrong(case):
    rng = case.rng
    from lumos.optimal_control.model_solver import ModelSolver
    o = Setup(rng)
    describe(case, o)
    ms = o.ms
    g, n = o.keys[rng.integers(o.n)]
    s = o.spec["states"][0]
    bad = [
        ("bounds the wrong way round", lambda: ms.set_bounds(g, n, (1.0, 0.5))),
        ("bounds that are no numbers", lambda: ms.set_bounds(g, n, (np.nan, 1.0))),
        ("bounds of an unknown group", lambda: ms.set_bounds("wrong", n, 0.0)),
        ("bounds of an unknown name", lambda: ms.set_bounds(g, "wrong", 0.0)),
        ("no scale", lambda: ms.set_var_scale("states", s, 0.0)),
        ("negative scale", lambda: ms.set_var_scale("states", s, -2.0)),
        ("scale of rates", lambda: ms.set_var_scale("states_dot", s, 2.0)),
        ("scale of an unknown name", lambda: ms.set_var_scale("inputs", "wrong", 2.0)),
        ("objective of an unknown name", lambda: ms.add_obj_from_var(g, "wrong")),
        ("index of an unknown name", lambda: ms.get_var_idx(g, "wrong")),
        ("another backend", lambda: ModelSolver(models.make_model(o.spec), "jax")),
        ("same objective twice", lambda: [ms.add_obj_from_var(g, n, 0.25),
                                          ms.add_obj_from_var(g, n, 0.25)]),
    ]
    for what, f in (bad[i] for i in rng.permutation(len(bad))):
        case.raises(f, what)
    o.obj[(g, n, 0.25)] = "?"
    judge_functions(case, o, rng, "after wrong use")


def solved(case, o, z, info, what, tol=1e-5):
    case.count("successes")
    D = o.scales()
    e = o.equations(z) / o.con_scales()
    J = o.jacobian(z) * D / o.con_scales()[:, None]
    # the solver relaxes bounds by about 1e-8 and puts the point back at the end
    tol_e = 2e-7 + 5e-8 * np.abs(J) @ (1 + np.abs(z / D))
    case.require((np.abs(e) <= tol_e).all(),
                 f"{what}: equations at the solution are off by {np.abs(e).max():.3g}")
    case.count("comparisons", len(e))
    lb, ub = o.lb(), o.ub()
    slack = 2e-7 * (1 + np.abs(z)) + 2e-8 * D
    case.count("comparisons", 2 * o.n)
    for i, k in enumerate(o.keys):
        if not lb[i] - slack[i] <= z[i] <= ub[i] + slack[i]:
            case.violate(f"{what}: {k} is {z[i]}, bounds {lb[i]}, {ub[i]}")
    case.close(info["obj_val"], o.gradient() @ z, f"{what}: objective", rtol=1e-6,
               atol=1e-6 + 2 * np.abs(o.gradient()) @ slack)
    if not square(o):
        kkt(case, J, o.gradient() * D, z / D, lb / D, ub / D, what, tol)


def square(o):
    """As many free variables as equations: IPOPT then only looks for a feasible point."""
    return int((o.ub() > o.lb()).sum()) == len(o.con_scales())


def solve(case, o, guess, what):
    case.count("solves")
    g = np.array(guess)
    z, info = o.ms.solve(g, **OPTS)
    case.require(np.array_equal(g, guess), "the initial guess was changed")
    z = np.asarray(z, dtype=float)
    if info["status"] == 0:
        solved(case, o, z, info, what)
    return z, info


def boxed(o, rng, z, tight=0.3):
    """Bounds around a point; some fixed, some one-sided."""
    for k, v in zip(o.keys, z):
        r = rng.random()
        lo, hi = float(v - rng.uniform(0.1, 3)), float(v + rng.uniform(0.1, 3))
        if k[0] in ("states", "inputs"):
            b = float(v) if r < tight else (lo, hi)
        else:
            b = float(v) if r < 0.15 else (lo, np.inf) if r < 0.3 else (-np.inf, hi) if r < 0.4 \
                else (-np.inf, np.inf)
        o.ms.set_bounds(*k, b)
        o.bounds[k] = b if isinstance(b, tuple) else (b, b)


def consistent(o, rng):
    """A point that satisfies the equations (but for the residuals)."""
    nx, nu = len(o.spec["states"]), len(o.spec["inputs"])
    z = rng.uniform(-1.5, 1.5, o.n)
    e = o.equations(z)
    z[nx + nu:] += e[:o.n - nx - nu]
    return z


def nonlinear(case):
    rng = case.rng
    o = Setup(rng)
    describe(case, o)
    z = consistent(o, rng)
    boxed(o, rng, z)
    for _ in range(int(rng.integers(0, 3))):
        change(case, o, rng, "scale")
    for _ in range(int(rng.integers(0, 4))):
        change(case, o, rng, "objective")
    solve(case, o, z + rng.uniform(-0.3, 0.3, o.n), "nonlinear solve")


def linear(case):
    """Linear models: the solver finds the optimum of the linear program."""
    from scipy.optimize import linprog
    rng = case.rng
    o = Setup(rng, linear=True, spec=models.random_spec(
        rng, max_states=4, max_inputs=4, linear=True, composite=False, max_res=0))
    describe(case, o)
    z = consistent(o, rng)
    boxed(o, rng, z, 0.15)
    finite = bool(rng.random() < 0.7)
    if finite:
        for k, (a, b) in list(o.bounds.items()):
            o.bounds[k] = (max(a, -100.0), min(b, 100.0))
            o.ms.set_bounds(*k, o.bounds[k])
    for _ in range(int(rng.integers(0, 5))):
        change(case, o, rng, "scale")
    for _ in range(2):
        while not o.obj:
            change(case, o, rng, "objective")
        change(case, o, rng, "objective")
        e0 = o.equations(np.zeros(o.n))
        J = o.jacobian(np.zeros(o.n))
        best = linprog(o.gradient(), A_eq=J, b_eq=-e0, bounds=list(zip(o.lb(), o.ub())))
        got, info = solve(case, o, z, "linear program")
        if best.status == 0 and info["status"] in (0, 1) and not square(o):
            tol = 1e-5 if info["status"] == 0 else 1e-3
            case.close(info["obj_val"], best.fun, "optimum", rtol=tol, atol=tol)
            case.count("lp")
            case.count("optimal", info["status"] == 0)
        elif best.status == 0 and finite:
            case.require(info["status"] != 2, "a feasible linear problem said to be infeasible")
        elif best.status == 2:
            case.require(info["status"] not in (0, 1), "success on an infeasible problem")
        if rng.random() < 0.5:
            change(case, o, rng, "bounds")
            finite = False
        change(case, o, rng, "drop")


def history(case):
    """Solves, changes and solves again: as if it were new."""
    rng = case.rng
    o = Setup(rng)
    describe(case, o)
    z = consistent(o, rng)
    boxed(o, rng, z)
    for _ in range(3):
        for _ in range(int(rng.integers(1, 5))):
            change(case, o, rng, str(rng.choice(["scale", "objective", "drop", "bounds"],
                                                p=[.3, .4, .2, .1])))
        if not o.obj:
            change(case, o, rng, "objective")
        if not o.obj:
            continue
        a, ia = solve(case, o, z, "used solver")
        new = o.fresh()
        b, ib = solve(case, new, z, "fresh solver")
        case.equal(ia["status"], ib["status"], "status with the same settings")
        if ia["status"] == 0:
            case.close(a, b, "solution with the same settings", rtol=1e-6, atol=1e-6)
        judge_functions(case, o, rng, "between solves")
    case.count("histories")


def vehicle(case):
    """Steady cornering of the shipped car, judged by the model evaluated with numpy."""
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa
    from lumos.optimal_control.model_solver import ModelSolver
    rng = case.rng
    con = [f"{a}_{c}" for a in ("Fz_tire", "slip_ratio", "slip_angle") for c in real.CORNERS]
    mc = ModelMaker.make_config("SimpleVehicle")
    for c in real.CORNERS:
        mc.replace_subtree("tire_" + c, ModelMaker.make_config("PerantoniTire"))
    car = ModelMaker.make_model_from_config(mc)
    tree = car.get_recursive_params()
    mass = float(rng.uniform(700, 1800))
    tree.set_param("vehicle_mass", mass)
    tree.set_param("aero.Cz", float(rng.uniform(0, 4)))
    car.set_recursive_params(tree)
    ms = ModelSolver(car, "casadi", con)
    v = float(rng.uniform(20, 70))
    case.describe(mass=mass, v=v)
    ms.set_bounds("states", "vx", v)
    ms.set_bounds("states", "vy", (-5, 5))
    ms.set_bounds("states", "yaw_rate", (-6, 6))
    for k in ("throttle", "brake"):
        ms.set_bounds("inputs", k, (0, 1))
    ms.set_bounds("inputs", "steer", (-1, 1))
    for c in real.CORNERS:
        ms.set_bounds("con_outputs", "Fz_tire_" + c, (1, np.inf))
        ms.set_bounds("states", "wheel_speed_" + c, (0.1, 400))
        for a in ("slip_ratio_", "slip_angle_"):
            ms.set_bounds("con_outputs", a + c, (-0.1, 0.1))
        ms.set_var_scale("states", "wheel_speed_" + c, 10)
        ms.set_var_scale("con_outputs", "Fz_tire_" + c, 100)
    for n in car.names.states:
        if n not in ("vx", "vy"):
            ms.set_bounds("states_dot", n, 0.0)
    guess = np.zeros(ms.num_dec)
    for g in GROUPS:
        for n in getattr(car.names, g):
            guess[ms.get_var_idx(g, n)] = v if n == "vx" else v / 0.33 if "wheel" in n \
                and g == "states" else mass * 2.5 if n.startswith("Fz") else 0.0
    res = []
    for w in (1.0, -1.0):
        name = ms.add_obj_from_var("inputs", "ay", w)
        z, info = ms.solve(guess, **OPTS)
        ms.delete_objective(name)
        case.count("solves")
        if info["status"] != 0:
            continue
        case.count("vehicle")
        get = lambda g: {n: float(ms.get_var(z, g, n)) for n in getattr(car.names, g)}
        ret = car.forward(get("states"), get("inputs"), 0.0)
        for n, d in get("states_dot").items():
            case.close(float(ret.states_dot[n]), d, "rate of " + n, rtol=1e-5, atol=1e-4)
        for n, d in get("con_outputs").items():
            case.close(float(ret.outputs[n]), d, n, rtol=1e-5, atol=1e-4)
        for n in ("res_ax", "res_ay"):
            case.close(float(ret.outputs[n]), 0.0, n, atol=1e-5)
        slack = 1e-6 * (1 + np.abs(z))
        case.require((z >= ms.lb - slack).all() and (z <= ms.ub + slack).all(),
                     "outside the bounds")
        res.append(get("inputs")["ay"])
        case.close(info["obj_val"], w * res[-1], "objective", rtol=1e-8, atol=1e-8)
    if len(res) == 2:
        case.close(res[0], -res[1], "largest turns left and right of a symmetric car", rtol=1e-3)
        case.require(res[1] > 3, "a car that does not turn")
    case.trace = []


FAMILIES = [
    Family("functions", functions, 325, 1500),
    Family("wrong", wrong, 200, 600),
    Family("nonlinear", nonlinear, 325, 1500),
    Family("linear", linear, 150, 800),
    Family("history", history, 175, 800, cost=3),
    Family("vehicle", vehicle, 20, 80, cost=10),
]

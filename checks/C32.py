"""Learned aero models return the value of their formula with their current parameters."""
import math

import numpy as np

from lib.harness import Family
from lib import real

PROPERTY = "C32"
RULE = ("Gaussian process, network and constant aero models (and subclasses with other sizes, "
        "more than ten layers, other inputs and outputs) with random parameters and points, near "
        "and far from their data, called in every way on numpy, jax and casadi, alone and inside "
        "the car, through random changes of their parameters, against loops over plain numbers; "
        "first and second derivatives against complex steps; distinct by model, parameters and "
        "point")
MIN = {"comparisons": 35000, "points": 3500, "derivatives": 250, "in_car": 30, "batches": 40,
       "kernels": 600, "changes": 1500}
ASSUMPTIONS = ["every layer of the network, the last one too, ends with tanh, as in the code",
               "parameters are arrays of numbers of matching sizes"]
INPUTS, OUTPUTS = ("front_ride_height", "rear_ride_height", "yaw"), ("Cx", "Cy", "Cz")


# plain-number reference; also for complex numbers
def ref_gp(x, points, alpha):
    k = []
    for p in points:
        d = 0
        for a, b in zip(p, x):
            d = d + (a - b) ** 2
        k.append(np.exp(-d))
    return [sum(a * b for a, b in zip(row, k)) for row in alpha]


def ref_mlp(x, weights):
    y = list(x)
    for w in weights:
        y = [np.tanh(sum(a * b for a, b in zip(row, y))) for row in w]
    return y


class Made:
    """A model and its parameters, in the order of the formula."""

    def __init__(self, rng):
        from lumos.models.aero.aero import ConstAero, GPAero, MLPAero
        from lumos.models.base import model_io, ModelReturn  # noqa: F401
        k = int(rng.integers(7))
        self.inputs, self.outputs = INPUTS, OUTPUTS
        if k in (0, 1, 2):
            self.kind = "gp"
            cls = GPAero
            if k == 1:
                cls = type("Gp", (GPAero,), {"num_points": int(rng.integers(1, 9))})
            elif k == 2:
                self.inputs = tuple(f"i{j}" for j in range(int(rng.integers(1, 6))))
                self.outputs = tuple(f"o{j}" for j in range(int(rng.integers(1, 6))))
                cls = model_io(inputs=self.inputs, outputs=self.outputs)(
                    type("Gp", (GPAero,), {"num_points": int(rng.integers(1, 9))}))
        elif k in (3, 4, 5):
            self.kind = "mlp"
            cls = MLPAero
            size = {"num_layers": int(rng.choice([1, 2, 3, 9, 10, 11, 13])),
                    "layer_dim": int(rng.integers(1, 9))}
            if k == 4:
                cls = type("Net", (MLPAero,), size)
            elif k == 5:
                self.inputs = tuple(f"i{j}" for j in range(int(rng.integers(1, 6))))
                self.outputs = tuple(f"o{j}" for j in range(int(rng.integers(1, 6))))
                cls = model_io(inputs=self.inputs, outputs=self.outputs)(
                    type("Net", (MLPAero,), size))
        else:
            self.kind, cls = "const", ConstAero
        self.cls = cls
        self.layers = getattr(cls, "num_layers", 0) + 1
        np.random.seed(int(rng.integers(2 ** 31)))  # the default parameters are random
        self.model = cls()
        tree = self.model.get_recursive_params()
        self.params = {k: np.array(v) for k, v in tree.data.items()}
        self.size = sum(v.size for v in self.params.values())
        self.offset = np.zeros(len(self.inputs))
        if self.kind == "gp" and rng.random() < 0.4:  # data far from the origin
            self.offset = rng.normal(0, 10 ** rng.uniform(0, 7), len(self.inputs))
            self.params["gp_points"] = self.params["gp_points"] + self.offset
            tree.set_param("gp_points", self.params["gp_points"].copy())
            self.model.set_recursive_params(tree)

    def random_params(self, rng):
        """New values, of the same shapes, where the formula is not flat."""
        new = {}
        for k, v in self.params.items():
            if k == "gp_points":
                new[k] = self.offset + rng.normal(0, 1, v.shape) * rng.choice([0.3, 1])
            elif k.startswith("weights"):
                new[k] = rng.normal(0, 1.3 / math.sqrt(v.shape[1]), v.shape)
            else:
                new[k] = rng.uniform(-2, 2, v.shape)
        return new

    def value(self, x, params=None):
        p = params or self.params
        if self.kind == "gp":
            return np.array(ref_gp(x, p["gp_points"], p["alpha"]))
        if self.kind == "mlp":
            return np.array(ref_mlp(x, [p[f"weights_layer_{i}"] for i in range(self.layers)]))
        return np.array([p[k] for k in OUTPUTS]) + 0 * x[0]

    def point(self, rng):
        n = len(self.inputs)
        k = int(rng.integers(6))
        if k == 0 and self.kind == "gp":
            return self.params["gp_points"][rng.integers(len(self.params["gp_points"]))] \
                + rng.normal(0, 0.01, n)
        return self.offset + rng.normal(0, [0.3, 1, 1, 3, 40, 0.01][k], n)


def settings(case, m, **kw):
    case.describe(kind=m.kind, inputs=len(m.inputs), outputs=len(m.outputs), layers=m.layers,
                  size=m.size, x=float(case.rng.random()), **kw)


def tree_of(params):
    from lumos.models.tree_utils import ParameterTree
    return ParameterTree({k: (float(v) if np.ndim(v) == 0 else np.array(v))
                          for k, v in params.items()})


def call(case, m, x, how):
    """Outputs through one way of calling; with the model's own parameters."""
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    model, rng = m.model, case.rng
    given = {n: float(v) for n, v in zip(m.inputs, x)}
    given = {str(k): given[str(k)] for k in rng.permutation(list(given))}
    if how == "dict":
        out = model.forward(given).outputs
        case.equal(set(out), set(m.outputs), "names of the outputs")
        return [float(out[n]) for n in m.outputs]
    if how == "arrays":
        return model.forward_with_arrays(np.array(x)).outputs
    if how == "explicit":
        out = model.apply_and_forward(given, tree_of(m.params)).outputs
        return [float(out[n]) for n in m.outputs]
    if how == "explicit arrays":
        return model.apply_and_forward_with_arrays(np.array(x), tree_of(m.params)).outputs
    if how == "unravelled":
        flat, un = model.get_recursive_params().tree_ravel()
        return model.apply_and_forward_with_arrays(np.array(x), un(np.array(flat))).outputs
    if how in ("jax", "jit"):
        with lnp.use_backend("jax"):
            f = lambda x, p: model.apply_and_forward_with_arrays(x, p).outputs
            if how == "jit":
                flat, un = model.get_recursive_params().tree_ravel()
                g = lambda x, v: f(x, un(v))
                return jax.jit(g)(jax.numpy.asarray(x), jax.numpy.asarray(flat))
            return f(jax.numpy.asarray(x), tree_of(m.params))
    T = [ca.SX, ca.MX][rng.integers(2)] if m.size < 300 else ca.MX
    with lnp.use_backend("casadi"):
        v = T.sym("x", len(x))
        if how == "casadi":
            return ca.Function("f", [v], [model.forward_with_arrays(v).outputs])(x)
        flat, un = model.get_recursive_params().tree_ravel()
        p = T.sym("p", len(flat))
        out = model.apply_and_forward_with_arrays(v, un(p)).outputs
        return ca.Function("f", [v, p], [out])(x, np.asarray(flat))


WAYS = ["dict", "arrays", "explicit", "explicit arrays", "unravelled", "jax", "jit", "casadi",
        "casadi params"]


def change(case, m):
    """New parameters through one of the ways; the model's are exactly those."""
    rng = case.rng
    new = m.random_params(rng)
    k = int(rng.integers(5))
    if k == 0:
        m.model.set_recursive_params(tree_of(new))
    elif k == 1:
        # any order
        m.model.set_recursive_params(tree_of({str(n): new[str(n)] for n in
                                              rng.permutation(list(new))}))
    elif k == 2:
        tree = m.model.get_recursive_params()
        one = str(rng.choice(list(new)))
        new = {**m.params, one: new[one]}
        tree.set_param(one, float(new[one]) if np.ndim(new[one]) == 0 else new[one])
        m.model.set_recursive_params(tree)
    elif k == 3:
        m.model = m.cls(params=tree_of(new))
    else:
        flat, un = tree_of(new).tree_ravel()
        m.model.set_recursive_params(un(np.array(flat)))
    m.params = new
    case.event(["set", "shuffled", "one", "built", "unravelled"][k])
    case.count("changes")


def values(case):
    rng = case.rng
    m = Made(rng)
    settings(case, m)
    for i in range(7):
        if i:
            change(case, m)
        ways = ["dict", "arrays"] + [str(w) for w in rng.choice(WAYS, 1)]
        for how in ways if m.size < 5000 or i < 2 else ways[:1]:
            x = m.point(rng)
            want = m.value(x)
            got = np.array(call(case, m, x, how), dtype=float)
            case.equal(got.size, len(m.outputs), "number of outputs")
            case.close(got.ravel(), want, f"{m.kind} {how}", rtol=1e-10, atol=1e-13,
                       scale=1e-3 + np.abs(want).max())
            case.count("points")


def derivatives(case):
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    rng = case.rng
    m = Made(rng)
    while m.kind == "const" or m.size > 1000:
        m = Made(rng)
    change(case, m)
    x = rng.normal(0, 0.7, len(m.inputs))
    settings(case, m, derivative=True)
    J = np.array([np.imag(m.value(x + 1e-30j * e)) / 1e-30 for e in np.eye(len(x))]).T
    w = rng.standard_normal(len(m.outputs))
    g = lambda y: np.array([np.imag(m.value(y + 1e-30j * e)) @ w / 1e-30 for e in np.eye(len(x))])
    h = 1e-4
    H = np.array([(8 * (g(x + h * e) - g(x - h * e)) - (g(x + 2 * h * e) - g(x - 2 * h * e)))
                  / (12 * h) for e in np.eye(len(x))])
    if case.index % 3 == 0:
        with lnp.use_backend("jax"):
            f = lambda v: m.model.forward_with_arrays(v).outputs
            v = jax.numpy.asarray(x)
            got = [jax.jacfwd(f)(v), jax.jacrev(f)(v)]
            hess = jax.hessian(lambda v: f(v) @ w)(v)
    else:
        T = [ca.SX, ca.MX][case.index % 2]
        with lnp.use_backend("casadi"):
            v = T.sym("v", len(x))
            out = m.model.forward_with_arrays(v).outputs
        got = [ca.Function("J", [v], [ca.jacobian(out, v)])(x)]
        hess = ca.Function("H", [v], [ca.hessian(ca.dot(out, w), v)[0]])(x)
    for a in got:
        case.close(np.array(a, dtype=float), J, f"{m.kind}: derivative", rtol=1e-9, atol=1e-12,
                   scale=1 + np.abs(J).max())
    case.close(np.array(hess, dtype=float), H, f"{m.kind}: second derivative", rtol=1e-6,
               atol=1e-9, scale=1 + np.abs(H).max())
    case.count("derivatives")


def batches(case):
    """Batches over points and over parameters."""
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    rng = case.rng
    m = Made(rng)
    while m.size > 1000:
        m = Made(rng)
    change(case, m)
    settings(case, m, batch=True)
    B = int(rng.integers(1, 7))
    X = np.array([m.point(rng) for _ in range(B)])
    flat, un = m.model.get_recursive_params().tree_ravel()
    fun = lambda v, p: m.model.apply_and_forward_with_arrays(v, un(p)).outputs
    want = np.array([m.value(x) for x in X])
    sc = 1e-3 + np.abs(want).max()
    if case.index % 2:
        with lnp.use_backend("jax"):
            P = np.array([np.asarray(flat) * f for f in rng.uniform(0.5, 1.5, B)])
            got = jax.vmap(fun, in_axes=(0, None))(jax.numpy.asarray(X), jax.numpy.asarray(flat))
            both = jax.vmap(fun)(jax.numpy.asarray(X), jax.numpy.asarray(P))
        for i in range(B):
            p = {k: np.asarray(v) for k, v in un(P[i]).data.items()}
            case.close(np.asarray(both)[i], m.value(X[i], p), f"{m.kind}: parameters in a batch",
                       rtol=1e-10, scale=sc)
    else:
        with lnp.use_backend("casadi"):
            v, p = ca.MX.sym("v", X.shape[1]), ca.MX.sym("p", len(flat))
            f = ca.Function("f", [v, p], [fun(v, p)]).map(B)
        got = np.array(f(X.T, np.asarray(flat))).T
    case.close(np.asarray(got), want, f"{m.kind}: batch", rtol=1e-10, scale=sc)
    case.count("batches")


def kernels(case):
    """The functions themselves."""
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    from lumos.models import ml
    rng = case.rng
    case.describe(functions=True, x=float(rng.random()))
    n, d, o = (int(v) for v in rng.integers(1, 7, 3))
    P, x, A = rng.normal(0, 1, (n, d)), rng.normal(0, 1, d), rng.normal(0, 1, (o, n))
    W = [rng.normal(0, 1, s) for s in ((4, d), (2, 4), (o, 2))][:int(rng.integers(1, 4))]
    if rng.random() < 0.5:
        off = rng.normal(0, 10 ** rng.uniform(0, 7), d)
        P, x = P + off, x + off
    X = np.tile(x, (n, 1))
    sq = np.array([sum((a - b) ** 2 for a, b in zip(p, x)) for p in P])
    want = {"gp": np.array(ref_gp(x, P, A)), "mlp": np.array(ref_mlp(x, W)),
            "squares": sq, "rbf": np.exp(-sq), "tanh": np.tanh(-sq), "poly": sq}
    calls = lambda x, P, X: {
        "gp": ml.gp(x, P, A), "mlp": ml.mlp(x, W),
        "squares": ml.sqeuclidean_distance(P, X), "rbf": ml.rbf_kernel(P, X),
        "tanh": ml.tanh_kernel(P, X), "poly": ml.poly_kernel(P, X)}
    got = {"numpy": calls(x, P, X)}
    with lnp.use_backend("jax"):
        got["jax"] = calls(*map(jax.numpy.asarray, (x, P, X)))
    T = [ca.SX, ca.MX][rng.integers(2)]
    with lnp.use_backend("casadi"):
        v, M = T.sym("x", d), T.sym("X", n, d)
        s = calls(v, P, M)
        got["casadi"] = {k: ca.Function("f", [v, M], [e])(x, X) for k, e in s.items()}
    for b, r in got.items():
        for k, v in r.items():
            case.close(np.array(v, dtype=float).ravel(), want[k], f"{b} {k}", rtol=1e-11,
                       scale=1 + np.abs(want[k]).max())
            case.count("kernels")


def in_car(case):
    """The coefficients inside the car are those of the formula with the car's parameters."""
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa: registers the models
    rng = case.rng
    kind = ["GPAero", "MLPAero", "ConstAero"][case.index % 3]
    mc = ModelMaker.make_config("SimpleVehicle")
    for c in real.CORNERS:
        mc.replace_subtree("tire_" + c, ModelMaker.make_config("PerantoniTire"))
    mc.replace_subtree("aero", ModelMaker.make_config(kind))
    car = ModelMaker.make_model_from_config(mc)
    m = Made.__new__(Made)
    m.offset = 0.0
    m.kind = {"GPAero": "gp", "MLPAero": "mlp", "ConstAero": "const"}[kind]
    m.inputs, m.outputs, m.layers = INPUTS, OUTPUTS, 4
    case.describe(car=kind, x=float(rng.random()))
    aero = car.get_submodel("aero")
    case.equal(tuple(aero.get_group_names("inputs")), INPUTS, "inputs")
    m.params = {k: np.array(v) for k, v in aero.get_recursive_params().data.items()}
    if kind == "GPAero":
        m.params["gp_points"] = rng.normal(0, 1, (7, 3))
        m.params["alpha"] = rng.normal(0, 1, (3, 7))
    for i in range(3):
        m.params = m.random_params(rng)
        st = {n: float(rng.uniform(-1, 1)) for n in car.get_group_names("states")}
        st["vx"] = float(rng.uniform(0.5, 60)) if kind == "ConstAero" else float(
            rng.uniform(0.5, 2))
        for c in real.CORNERS:
            st["wheel_speed_" + c] = st["vx"] / 0.33
        inp = {n: float(rng.uniform(-0.1, 0.3)) for n in car.get_group_names("inputs")}
        tree = car.get_recursive_params()
        for k, v in m.params.items():
            tree.set_param("aero." + k, float(v) if np.ndim(v) == 0 else v)
        car.set_recursive_params(tree)
        out = car.forward(st, inp, 0.0).outputs
        want = m.value([st["vx"], st["vy"], st["yaw_rate"]])
        got = [float(out["aero." + k]) for k in OUTPUTS]
        case.close(got, want, f"{kind} in the car", rtol=1e-10, scale=1e-3 + np.abs(want).max())
        case.count("in_car")


FAMILIES = [
    Family("values", values, 544, 4000, cost=2),
    Family("derivatives", derivatives, 448, 3000),
    Family("batches", batches, 96, 700, cost=2),
    Family("kernels", kernels, 192, 1500),
    Family("in_car", in_car, 38, 240, cost=2),
]

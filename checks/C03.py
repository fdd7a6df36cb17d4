"""Objective, gradient and objective Hessian are the sum of the current objectives."""
import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP, dense
from lib import real

PROPERTY = "C03"
RULE = ("histories of adding, deleting and replacing objectives and of changing scales on "
        "random problems, with value, gradient and Hessian compared with an independent sum "
        "after every step; plus the drone and lap time problems; distinct by problem and "
        "history")
MIN = {"comparisons": 20000, "evaluations": 500, "adds": 200, "deletes": 80, "rescales": 80,
       "rejections": 50, "laptime": 6, "drone": 6}
ASSUMPTIONS = ["objectives are quadratic, trigonometric, one-sided quartic functions or products of "
               "the variables"]


class Obj:
    """A random objective with its own exact derivatives."""

    def __init__(self, rng, n):
        self.kind = ["dense", "sparse", "linear", "trig", "soft", "triple"][rng.integers(6)]
        self.b = rng.standard_normal(n)
        self.Q = np.zeros((n, n))
        if self.kind == "dense":
            A = rng.standard_normal((n, n))
            self.Q = A + A.T
        elif self.kind == "sparse":
            k = int(rng.integers(1, 6))
            i, j = rng.integers(n, size=k), rng.integers(n, size=k)
            self.Q[i, j] = rng.standard_normal(k)
            self.Q = self.Q + self.Q.T
        self.trig = self.kind == "trig"
        # limits that are exceeded at some points only, and products: their second
        # derivatives are zero at many points
        self.w = rng.uniform(0.2, 2, n) if self.kind == "soft" else np.zeros(n)
        self.t = rng.choice([0.0, 0.3, 0.7], n)
        self.abc = rng.permutation(n)[:3] if self.kind == "triple" and n > 2 else None
        self.full = rng.random() < 0.5
        r, c = np.nonzero(self.Q)
        if self.abc is not None:
            r, c = (a.ravel() for a in np.meshgrid(self.abc, self.abc))
            r, c = r[r != c], c[r != c]
        if self.kind == "soft":
            r = c = np.arange(n)
        if self.trig:
            r = c = np.arange(n)
        o = rng.permutation(len(r))
        self.rows, self.cols = r[o], c[o]
        self.n = n

    def f(self, x):
        v = 0.5 * x @ self.Q @ x + self.b @ x + self.w @ np.maximum(x - self.t, 0) ** 4
        if self.abc is not None:
            v = v + np.prod(x[self.abc])
        return v + np.sum(np.sin(x)) if self.trig else v

    def g(self, x):
        v = self.Q @ x + self.b + 4 * self.w * np.maximum(x - self.t, 0) ** 3
        if self.abc is not None:
            p, q, s = x[self.abc]
            v[self.abc] += [q * s, p * s, p * q]
        return v + np.cos(x) if self.trig else v

    def H(self, x):
        if self.kind == "soft":
            return np.diag(12 * self.w * np.maximum(x - self.t, 0) ** 2)
        if self.abc is not None:
            H = np.zeros((self.n,) * 2)
            p, q, s = self.abc
            for i, j, k in ((p, q, s), (p, s, q), (q, s, p)):
                H[i, j] = H[j, i] = x[k]
            return H
        return self.Q - np.diag(np.sin(x)) if self.trig else self.Q

    def make(self):
        from lumos.optimal_control.nlp import BaseObjective

        if self.kind == "dense" or self.kind in ("soft", "triple") and self.full:
            return BaseObjective(self.n, self.f, self.g, self.H_dense)
        if self.kind == "linear":
            # constant derivatives, which the objective keeps and returns every time
            b, none = self.b.copy(), np.array([])
            return BaseObjective(self.n, self.f, lambda x: b, lambda x: none,
                                 (self.rows, self.cols))
        return BaseObjective(self.n, self.f, self.g,
                             lambda x: self.H(x)[self.rows, self.cols],
                             (self.rows, self.cols))

    def H_dense(self, x):
        return self.H(x).ravel()


class Time:
    def __init__(self, o):
        c = np.zeros(o.n)
        if o.fixed:
            k = o.idx["states"][:, o.spec["states"].index("time")]
            c[k[-1]] += 1
            c[k[0]] -= 1
        else:
            c[o.i_mesh] = 1
        self.c = c

    def f(self, x):
        return self.c @ x

    def g(self, x):
        return self.c

    def H(self, x):
        return np.zeros((len(self.c),) * 2)


def compare(case, ocp, objs, scales, x_hat):
    x = x_hat * scales
    n = len(x)
    tot = lambda a: sum(a, np.zeros(np.shape(a[0]))) if a else 0.0
    f = [o.f(x) for o in objs]
    case.close(float(ocp.objective(x_hat)), float(sum(f)), "objective", rtol=1e-11, atol=1e-10,
               scale=1 + sum(abs(v) for v in f))
    g = tot([o.g(x) for o in objs]) * scales
    case.close(ocp.gradient(x_hat), g, "gradient", rtol=1e-11, atol=1e-10,
               scale=1 + np.abs(g).max())
    sigma = float(case.rng.uniform(-2, 2))
    r, c = ocp.hessianstructure()
    H = dense(r, c,
              ocp.hessian(x_hat, np.zeros(ocp.num_con), sigma), (n, n))
    H = H + np.tril(H, -1).T
    want = sigma * scales[:, None] * tot([o.H(x) for o in objs]) * scales
    case.close(H, want, "objective hessian", rtol=1e-11, atol=1e-10,
               scale=1 + np.abs(want).max())
    x0 = x_hat.copy()
    case.close(ocp.gradient(x_hat), g, "gradient, again", rtol=1e-11, atol=1e-10,
               scale=1 + np.abs(g).max())
    case.require(np.array_equal(x_hat, x0), "the point of the caller is changed")
    case.count("evaluations")


def history_case(case):
    from lumos.optimal_control.config import ScaleConfig

    rng = case.rng
    o = RandomOCP(rng, backend=["casadi", "custom", "jax"][int(rng.random() * 2.15)],
                  max_intervals=3, max_states=2)
    case.describe(**o.describe())
    ocp = o.ocp
    objs = {"time": Time(o)}
    compare(case, ocp, list(objs.values()), o.dec_scales, o.random_x())
    k = 0
    for _ in range(int(rng.integers(3, 10))):
        op = rng.integers(6)
        if op <= 1:
            name = f"obj{k}"
            k += 1
            objs[name] = Obj(rng, o.n)
            ocp.add_objective(name, objs[name].make())
            case.count("adds")
            case.event("add", name, objs[name].kind)
        elif op == 2 and len(objs) > 1:
            name = list(objs)[rng.integers(len(objs))]
            ocp.delete_objective(name)
            del objs[name]
            case.count("deletes")
            case.event("delete", name)
        elif op == 3:
            name = list(objs)[rng.integers(len(objs))]
            case.raises(lambda: ocp.add_objective(name, Obj(rng, o.n).make()),
                        "a second objective with the same name", exc=NameError)
        elif op == 4:
            case.raises(lambda: ocp.delete_objective("nothing"), "deleting an unknown objective")
        else:
            sc = {}
            for g, names in o.groups().items():
                for n in names:
                    if rng.random() < 0.5:
                        sc[(g, n)] = float(np.round(10 ** rng.uniform(-1, 1), 3))
            if not o.fixed and rng.random() < 0.5:
                sc[("global", "mesh_scale")] = float(rng.uniform(0.2, 5))
            ocp.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in sc.items()))
            o.scales = sc
            o.dec_scales = o.ref_dec_scales()
            case.count("rescales")
            case.event("rescale", {".".join(q): v for q, v in sc.items()})
        compare(case, ocp, list(objs.values()), o.dec_scales, o.random_x())
    case.describe(history=[e[0] for e in case.trace])


class SteerPenalty:
    def __init__(self, ocp):
        op = ocp.dec_var_operator
        self.i, self.S = op.get_var_index_in_dec("inputs", "steer"), ocp.num_stages
        self.n = ocp.num_dec

    def f(self, x):
        return np.sum(x[self.i] ** 2) / self.S

    def g(self, x):
        g = np.zeros(self.n)
        g[self.i] = 2 * x[self.i] / self.S
        return g

    def H(self, x):
        H = np.zeros((self.n, self.n))
        H[self.i, self.i] = 2 / self.S
        return H


class LinTime(SteerPenalty):
    def __init__(self, ocp):
        op = ocp.dec_var_operator
        self.c = np.zeros(ocp.num_dec)
        t = op.get_var_index_in_dec("states", "time")
        self.c[t[-1]], self.c[t[0]] = 1, -1
        self.f, self.g = (lambda x: self.c @ x), (lambda x: self.c)
        self.H = lambda x: np.zeros((len(x), len(x)))


def laptime_case(case):
    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(2, 5)), is_condensed=bool(rng.integers(2)),
               transcription=["ForwardEuler", "LGR"][rng.integers(2)],
               is_cyclic=bool(rng.integers(2)))
    if rng.random() < 0.5:
        from lumos.optimal_control.config import ScaleConfig

        cfg["scales"] = tuple(ScaleConfig("inputs", n, float(rng.uniform(0.2, 5)))
                              for n in ("steer", "ax", "throttle")) + (
            ScaleConfig("states", "time", float(rng.uniform(2, 30))),)
    case.describe(problem="laptime", **cfg)
    ocp = real.laptime(**cfg)
    op = ocp.dec_var_operator
    scales = np.ones(ocp.num_dec)
    from lumos.simulations.laptime_simulation import get_default_scales

    for s in cfg.get("scales", get_default_scales()):
        scales[op.get_var_index_in_dec(s.group, s.name)] = s.value
    for _ in range(3):
        compare(case, ocp, [LinTime(ocp), SteerPenalty(ocp)], scales,
                rng.standard_normal(ocp.num_dec))
    case.count("laptime")


def drone_case(case):
    rng = case.rng
    cfg = dict(num_intervals=int(rng.integers(2, 6)), is_condensed=bool(rng.integers(2)),
               backend=["casadi", "jax"][rng.integers(2)],
               transcription=["ForwardEuler", "LGR"][rng.integers(2)])
    case.describe(problem="drone", **cfg)
    ocp = real.drone(**cfg)
    i = ocp.dec_var_operator.get_var_index_in_dec("global", "mesh_scale")
    for _ in range(3):
        x = rng.standard_normal(ocp.num_dec)
        case.equal(float(ocp.objective(x)), float(x[i]), "drone objective")
        case.close(ocp.gradient(x), np.eye(ocp.num_dec)[i], "drone gradient")
        case.equal(float(ocp.get_total_time(x)), float(x[i]), "total time")
    case.count("drone")


FAMILIES = [
    Family("history", history_case, 600, 2500),
    Family("laptime", laptime_case, 24, 72, cost=10),
    Family("drone", drone_case, 30, 90),
]

"""Random optimal control problems and an independent reference of their discretisation."""
import contextlib

import numpy as np

from lib import models
from lib.watch import watch

TRANSCRIPTIONS = ["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"]


# ------------------------------------------------------- independent discretisation maths
def radau_points(n):
    """The n right-sided Radau points in (0, 1]."""
    from scipy.special import roots_jacobi

    inner = roots_jacobi(n - 1, 1, 0)[0] if n > 1 else np.array([])
    return (np.concatenate([np.sort(inner), [1.0]]) + 1) / 2


def lagrange_eval(support, i, t):
    t = np.asarray(t, dtype=float)
    out = np.ones_like(t)
    for j, s in enumerate(support):
        if j != i:
            out = out * (t - s) / (support[i] - s)
    return out


def lagrange_diff_matrix(support):
    n = len(support)
    w = np.array([1 / np.prod([support[i] - support[j] for j in range(n) if j != i])
                  for i in range(n)])
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (support[i] - support[j])
        D[i, i] = -D[i].sum()
    return D


def lagrange_int_matrix(support, ends):
    q, w = np.polynomial.legendre.leggauss(max(24, len(support)))
    out = np.zeros((len(ends), len(support)))
    for r, e in enumerate(ends):
        t = support[0] + (e - support[0]) * (q + 1) / 2
        for i in range(len(support)):
            out[r, i] = np.sum(w * lagrange_eval(support, i, t)) * (e - support[0]) / 2
    return out


def ref_transcription(name, num_stages=3):
    """-> (points in [0, 1], A, B) of A x - h B xdot = 0"""
    if name == "ForwardEuler":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[1.0, 0.0]])
    if name == "Trapezoidal":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[0.5, 0.5]])
    pts = np.concatenate([[0.0], radau_points(num_stages - 1)])
    n = num_stages
    if name == "LGR":
        return pts, lagrange_diff_matrix(pts)[1:], np.eye(n)[1:]
    if name == "LGRIntegral":
        A = np.hstack([-np.ones((n - 1, 1)), np.eye(n - 1)])
        return pts, A, lagrange_int_matrix(pts, pts[1:])
    raise ValueError(name)


def random_points(rng, n):
    w = rng.uniform(0.1, 1.0, n)
    p = np.concatenate([[0.0], np.cumsum(w) / np.sum(w)])
    p[-1] = 1.0
    return p


# ----------------------------------------------------------------------------- the problem
class RandomOCP:
    def __init__(self, rng, backend=None, fixed=None, condensed=None, cyclic=None,
                 with_scales=None, linear=False, nonsmooth=None, transcription=None,
                 max_intervals=5, spec=None, N=None, points="random", max_states=3,
                 extra=None, con_outputs=None, build=True, max_inputs=3, T=None,
                 spec_kw=None, step=True):
        self.rng = rng
        self.backend = backend or ["jax", "casadi", "custom"][rng.integers(3)]
        self.fixed = bool(rng.integers(2)) if fixed is None else fixed
        self.condensed = bool(rng.integers(2)) if condensed is None else condensed
        self.cyclic = bool(rng.random() < 0.4) if cyclic is None else cyclic
        if nonsmooth is None:
            nonsmooth = self.backend != "custom" and rng.random() < 0.2
        many = spec is None and max_states > 2 and rng.random() < 0.04
        if many:  # now and then a large model
            max_states, max_inputs = 8, 5
            spec_kw = dict(spec_kw or {}, max_out=8)
            max_intervals = min(max_intervals, 2)
        if spec is None:
            spec = models.random_spec(
                rng, max_states=max_states, max_inputs=max_inputs,
                mesh=([False, True] if self.fixed else [False, "step" if step else False])[
                    rng.integers(2)], nonsmooth=nonsmooth,
                linear=linear or rng.random() < 0.06, time_state=self.fixed,
                **(spec_kw or {}))
        self.spec = spec
        self.spec_nonsmooth = any(t[0] in ("max", "where") for e in spec["eqs"].values()
                                  for t in e)
        self.ref = models.Reference(spec)
        if transcription is None:
            name = TRANSCRIPTIONS[rng.integers(4)]
            if name.startswith("LGR") and rng.random() < 0.7:
                transcription = (name, {"num_stages": int(rng.integers(2, 6))})
            else:
                transcription = name if rng.random() < 0.7 else (name,)
        self.transcription = transcription
        tr = (transcription,) if isinstance(transcription, str) else transcription
        kw = tr[1] if len(tr) > 1 else {}
        self.pts, self.A, self.B = ref_transcription(tr[0], **kw)
        self.N = int(rng.integers(1, max_intervals + 1)) if N is None else N
        if N is None and max_intervals > 2 and rng.random() < 0.05:
            self.N = int(rng.integers(8, 10 + 60 // len(self.pts)))  # now and then a long one
        if isinstance(points, str):
            points = random_points(rng, self.N) if rng.random() < 0.5 else None
        self.points = points
        self.T = float(np.round(rng.uniform(0.4, 5), 3)) if T is None else T
        outs = models.all_outputs(spec)
        if con_outputs is None:
            nc = int(rng.integers(0, len(outs) + 1))
            con_outputs = [str(o) for o in rng.permutation(outs)[:nc]] if outs else []
        self.con_outputs = con_outputs
        cyc = (["states." + n for n in spec["states"]]
               + ["inputs." + n for n in spec["inputs"]])
        self.non_cyclic = []
        if self.cyclic and rng.random() < 0.7:
            k = int(rng.integers(0, len(cyc)))
            self.non_cyclic = [str(c) for c in rng.permutation(cyc)[:k]]
        self.cyclic_vars = [c for c in cyc if c not in self.non_cyclic]
        if with_scales is None:
            with_scales = rng.random() < 0.6
        self.scales = {}
        if with_scales:
            for g, names in self.groups().items():
                for n in names:
                    if rng.random() < 0.6:
                        self.scales[(g, n)] = float(np.round(10 ** rng.uniform(-1.5, 1.5), 4))
            if not self.fixed and rng.random() < 0.6:
                self.scales[("global", "mesh_scale")] = float(np.round(rng.uniform(0.2, 8), 3))
        self.extra = extra or {}
        if build:
            self.build()

    def groups(self):
        sp = self.spec
        return {"states": sp["states"], "inputs": sp["inputs"], "states_dot": sp["states"],
                "con_outputs": self.con_outputs}

    def describe(self):
        d = models.describe_spec(self.spec)
        d.update(backend=self.backend, mesh_kind="fixed" if self.fixed else "scaled",
                 condensed=self.condensed, cyclic=self.cyclic, non_cyclic=self.non_cyclic,
                 transcription=self.transcription, N=self.N, uniform=self.points is None,
                 T=self.T, con_outputs=self.con_outputs,
                 scales={".".join(k): v for k, v in self.scales.items()})
        return d

    def make_config(self, cls, **over):
        from lumos.optimal_control.config import ScaleConfig

        kw = dict(
            num_intervals=self.N, interval_points=self.points,
            transcription=self.transcription, is_cyclic=self.cyclic,
            non_cyclic_vars=list(self.non_cyclic), is_condensed=self.condensed,
            backend=self.backend,
            scales=tuple(ScaleConfig(g, n, v) for (g, n), v in self.scales.items()),
            con_output_names=tuple(self.con_outputs),
        )
        kw.update(self.extra)
        kw.update(over)
        return cls.get_sim_config(**kw)

    def ocp_class(self):
        from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
        from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

        return FixedMeshOCP if self.fixed else ScaledMeshOCP

    def make_model(self):
        return models.make_model(self.spec, custom=self.backend == "custom")

    def build(self, cls=None, model=None, **over):
        cls = cls or self.ocp_class()
        self.model = model or self.make_model()
        kw = {"mesh_scale": self.T} if self.fixed else {}
        self.ocp = watch(cls(model=self.model, sim_config=self.make_config(cls, **over), **kw))
        self.index()
        return self.ocp

    # --- variables, by name
    @property
    def num_stages(self):
        return self.N * (len(self.pts) - 1) + 1

    def index(self):
        op = self.ocp.dec_var_operator
        self.n = self.ocp.num_dec
        self.idx = {
            g: (np.stack([np.asarray(op.get_var_index_in_dec(g, n)) for n in names], axis=-1)
                if names else np.zeros((self.num_stages, 0), dtype=int))
            for g, names in self.groups().items()
        }
        self.i_mesh = None
        if not self.fixed:
            self.i_mesh = int(op.get_var_index_in_dec("global", "mesh_scale"))
        self.dec_scales = self.ref_dec_scales()

    def ref_dec_scales(self, scales=None):
        s = np.ones(self.n)
        for (g, n), v in (self.scales if scales is None else scales).items():
            if g == "global":
                s[self.i_mesh] = v
            else:
                s[self.idx[g][:, self.groups()[g].index(n)]] = v
        return s

    def random_x(self, rng=None):
        """A random point, in the problem's scaled variables; now and then the last one again,
        as what was remembered of it may not be right any more."""
        rng = rng or self.rng
        if self.last_x is not None and rng.random() < 0.25:
            x, scales = self.last_x
            if np.shape(x) == (self.n,):
                k = scales / self.dec_scales
                return x.copy() if np.all((k > 0.2) & (k < 5)) else x * k
        x = self.new_x(rng)
        self.last_x = x.copy(), self.dec_scales
        return x

    last_x = None

    def new_x(self, rng):
        x = rng.uniform(-1.5, 1.5, self.n)
        if self.i_mesh is not None:
            x[self.i_mesh] = rng.uniform(0.3, 3)
        if "sin" not in self.spec:  # keep the unscaled values moderate
            x = x / np.maximum(self.dec_scales, 1) * rng.uniform(0.5, 1.5, self.n)
        return x

    # --- changes of the problem, that the reference follows
    def mutate(self, rng=None, kinds=("mesh", "param", "scales", "mesh_scale", "bounds"),
               problems=None):
        """One random change of the problem (or of several twins of it), after which the
        reference is that of the changed problem.  -> what was changed"""
        from lumos.optimal_control.config import BoundConfig, ScaleConfig

        rng = rng or self.rng
        kind = str(kinds[rng.integers(len(kinds))])
        problems = problems or [self.ocp]
        if kind == "mesh_scale" and not self.fixed:
            kind = "mesh"
        if kind == "mesh":
            self.points = random_points(rng, self.N) if rng.random() < 0.8 else None
            for p in problems:
                p.set_normalized_mesh(None if self.points is None else self.points.copy())
        elif kind == "mesh_scale":
            self.T = float(np.round(rng.uniform(0.4, 5), 3))
            for p in problems:
                p.set_mesh_scale(self.T)
        elif kind == "param":
            sub = self.spec["sub"]
            paths = [(k, self.ref.params, k) for k in self.ref.params]
            if sub:
                paths += [(sub["name"] + "." + k, self.ref.sub_params, k)
                          for k in sub["params"]]
            path, store, k = paths[rng.integers(len(paths))]
            v = np.round(rng.uniform(-2, 2, np.shape(store[k])), 3)
            store[k] = v if np.ndim(v) else float(v)
            for p in problems:
                p.modify_model_param(path, v.copy() if np.ndim(v) else float(v))
        elif kind == "scales":
            self.scales = {}
            for g, names in self.groups().items():
                for n in names:
                    if rng.random() < 0.4:
                        self.scales[(g, n)] = float(np.round(10 ** rng.uniform(-1, 1), 4))
            if not self.fixed and rng.random() < 0.6:
                self.scales[("global", "mesh_scale")] = float(np.round(rng.uniform(0.2, 8), 3))
            for p in problems:
                p.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in self.scales.items()))
            self.dec_scales = self.ref_dec_scales()
        elif kind == "bounds":
            n = self.spec["states"][rng.integers(len(self.spec["states"]))]
            for p in problems:
                p.update_bounds((BoundConfig("states", n, (-3.0, 4.0)),))
        return kind

    def next_x(self, x, rng=None):
        """Another point: a new one, or one that shares a part of its variables with x."""
        rng = rng or self.rng
        y = self.new_x(rng)
        k = rng.integers(5)
        if k == 0:  # the same mesh scale
            if self.i_mesh is not None:
                y[self.i_mesh] = x[self.i_mesh]
        elif k == 1:  # one variable differs
            i = rng.integers(self.n)
            y, y[i] = x.copy(), y[i]
        elif k == 2:  # one stage of one group differs
            g = [g for g in self.idx if self.idx[g].size][rng.integers(
                sum(1 for g in self.idx if self.idx[g].size))]
            i = self.idx[g][rng.integers(self.num_stages)]
            v = y[i]
            y = x.copy()
            y[i] = v
        elif k == 3:  # a permutation of it (sums and norms agree)
            v = rng.permutation(len(self.idx["inputs"]) * self.idx["inputs"].shape[1])
            y = x.copy()
            y[self.idx["inputs"].ravel()] = x[self.idx["inputs"].ravel()][v]
        return y

    # --- the reference discretisation
    def interval_points(self):
        return np.linspace(0, 1, self.N + 1) if self.points is None else np.asarray(self.points)

    def ref_mesh(self):
        ip = self.interval_points()
        m = [np.array([ip[0]])]
        for a, b in zip(ip[:-1], ip[1:]):
            m.append(a + self.pts[1:] * (b - a))
        return np.concatenate(m)

    def ref_blocks(self, x_hat):
        """x_hat (..., n), may be complex -> named blocks of scaled constraints."""
        x = x_hat * self.dec_scales
        get = lambda g: x[..., self.idx[g]]
        st, inp, dot, co = (get(g) for g in ("states", "inputs", "states_dot", "con_outputs"))
        if self.fixed:
            ms = self.T * np.ones(x.shape[:-1] + (1,))
        else:
            ms = x[..., [self.i_mesh]]
        mesh = self.ref_mesh() * ms
        f, outs = self.ref.forward(st, inp, mesh)
        lead = x.shape[:-1]
        S = self.num_stages
        empty = np.zeros(lead + (S, 0), dtype=x.dtype)
        stack = lambda names: (np.stack([outs[n] for n in names], axis=-1) if names else empty)
        con = stack(self.con_outputs) - co
        res = stack(self.spec["residuals"])
        xd = f if self.condensed else dot
        m = len(self.pts) - 1
        cont = []
        ip = self.interval_points()
        for k in range(self.N):
            sl = slice(k * m, k * m + m + 1)
            h = (ip[k + 1] - ip[k]) * ms[..., None]
            cont.append(self.A @ st[..., sl, :] - h * (self.B @ xd[..., sl, :]))
        cont = np.stack(cont, axis=-3)
        sc = lambda g: np.array([self.scales.get((g, n), 1.0) for n in self.groups()[g]])
        blocks = {"cont": cont / sc("states"), "dyn": (f - dot) / sc("states"),
                  "con": con / sc("con_outputs"), "res": res}
        if self.cyclic:
            cyc = []
            for v in self.cyclic_vars:
                g, n = v.split(".", 1)
                col = self.idx[g][:, self.groups()[g].index(n)]
                cyc.append(x[..., col[0]] - x[..., col[-1]])
            blocks["cyclic"] = (np.stack(cyc, axis=-1) if cyc
                                else np.zeros(lead + (0,), dtype=x.dtype))
        return blocks

    def ref_constraints(self, x_hat, order=None):
        b = self.ref_blocks(x_hat)
        lead = x_hat.shape[:-1]
        flat = lambda a: a.reshape(lead + (-1,))
        out = {}
        if self.condensed:
            out["model_algebra"] = np.concatenate(
                [flat(b["cont"]), flat(np.concatenate([b["con"], b["res"]], axis=-1))], axis=-1)
        else:
            out["model_algebra"] = flat(
                np.concatenate([b["dyn"], b["con"], b["res"]], axis=-1))
            out["continuity"] = flat(b["cont"])
        if self.cyclic:
            out["cyclic"] = b["cyclic"]
        order = order or self.order()
        return np.concatenate([out[k] for k in order], axis=-1)

    def order(self):
        return list(self.ocp.split_constraints(np.zeros(self.ocp.num_con)))

    def ref_jacobian(self, x_hat):
        """Exact derivative of the reference, by complex steps, one per variable."""
        h = 1e-30
        pert = x_hat.astype(complex) + 1j * h * np.eye(self.n)
        return np.imag(self.ref_constraints(pert)).T / h

    def ref_objective(self, x_hat):
        x = x_hat * self.dec_scales
        if self.fixed:
            c = self.idx["states"][:, self.spec["states"].index("time")]
            return x[..., c[-1]] - x[..., c[0]]
        return x[..., self.i_mesh]

    @contextlib.contextmanager
    def frozen_steps(self, x_hat):
        """Terms that step at a mesh point stay on their side at x_hat, for differences."""
        try:
            if not self.fixed:
                self.ref.step_mesh = self.ref_mesh() * (x_hat * self.dec_scales)[self.i_mesh]
            yield
        finally:
            self.ref.step_mesh = None

    def ref_lagrangian_grad(self, x_hat, lam, obj_factor, objective=None):
        objective = objective or self.ref_objective
        h = 1e-30
        pert = x_hat.astype(complex) + 1j * h * np.eye(self.n)
        L = self.ref_constraints(pert) @ lam + obj_factor * objective(pert)
        return np.imag(L) / h


def dense(rows, cols, vals, shape):
    M = np.zeros(shape)
    np.add.at(M, (np.ravel(rows), np.ravel(cols)), np.ravel(vals))
    return M

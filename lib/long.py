"""Problems with many stages, judged along directions instead of entry by entry."""
import numpy as np
from scipy.sparse import coo_matrix

from lib.ocps import RandomOCP


def problem(case, **kw):
    """A small random model on a long mesh."""
    rng = case.rng
    backend = kw.pop("backend", None) or ["jax", "casadi", "jax", "casadi", "custom"][
        case.index % 5]
    o = RandomOCP(rng, backend=backend, max_states=2, max_inputs=2, build=False, nonsmooth=False,
                  N=1, points=None, **kw)
    stages = int(rng.integers(200, 500) if backend == "custom" else
                 rng.choice([rng.integers(250, 560), rng.integers(513, 1100),
                             rng.integers(1025, 2200)]))
    o.N = max(1, stages // (len(o.pts) - 1))
    if rng.random() < 0.5:
        o.points = np.concatenate([[0.0], np.cumsum(rng.uniform(0.5, 1.5, o.N))])
        o.points = o.points / o.points[-1]
    o.build()
    case.describe(stages=o.num_stages, **o.describe())
    case.count("long_stages", o.num_stages)
    return o


def directions(o, rng, k=6):
    """Everywhere, and of a few stages each."""
    yield rng.standard_normal(o.n)
    S = o.num_stages
    width = (o.n - (not o.fixed)) // S
    for i in range(k):
        d = np.zeros(o.n)
        a = int(rng.integers(S)) if i else S - 1
        b = min(S, a + int(rng.integers(1, 5)))
        d[a * width:b * width] = rng.standard_normal((b - a) * width)
        yield d
    if not o.fixed:
        d = np.zeros(o.n)
        d[o.i_mesh] = 1.0
        yield d


def jacobian(o, x):
    r, c = o.ocp.jacobianstructure()
    return coo_matrix((np.asarray(o.ocp.jacobian(x), dtype=float), (np.asarray(r),
                       np.asarray(c))), shape=(o.ocp.num_con, o.n)).tocsr()


def hessian(o, x, lam, sigma):
    r, c = o.ocp.hessianstructure()
    r, c = np.asarray(r, dtype=int), np.asarray(c, dtype=int)
    H = coo_matrix((np.asarray(o.ocp.hessian(x, lam, sigma), dtype=float), (r, c)),
                   shape=(o.n, o.n)).tocsr()
    L = H - coo_matrix((H.diagonal(), (np.arange(o.n),) * 2), shape=H.shape).tocsr()
    return H + L.T


def judge_constraints(case, o, x):
    want = o.ref_constraints(x)
    case.close(o.ocp.constraints(x), want, "constraints of a long problem", rtol=1e-9,
               atol=1e-9, scale=1 + np.abs(want).max())
    case.count("long")


def judge_jacobian(case, o, x):
    J = jacobian(o, x)
    for d in directions(o, case.rng):
        want = np.imag(o.ref_constraints(x + 1e-30j * d)) / 1e-30
        case.close(J @ d, want, "jacobian of a long problem", rtol=1e-8, atol=1e-8,
                   counter="entries", scale=1 + np.abs(want).max())
    case.count("long")


def judge_hessian(case, o, x):
    """Against differences of the exact directional derivatives of the reference."""
    rng = case.rng
    lam, sigma = rng.standard_normal(o.ocp.num_con), float(rng.uniform(-2, 2))
    H = hessian(o, x, lam, sigma)

    def slope(z, d):
        y = z + 1e-30j * d
        return np.imag(o.ref_constraints(y) @ lam + sigma * o.ref_objective(y)) / 1e-30

    for d in directions(o, rng, 10):
        for e in (d, rng.standard_normal(o.n)):
            h = 1e-4 / max(1.0, np.abs(e).max())
            with o.frozen_steps(x):
                f = [slope(x + k * h * e, d) for k in (-2, -1, 1, 2)]
            want = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h)
            # rounding of the slope, and the size of the terms of the product
            noise = 1e-14 * (np.abs(f).max() + np.abs(lam).max() * o.num_stages ** 0.5) / h
            got, size = float(d @ (H @ e)), float(np.abs(d) @ (abs(H) @ np.abs(e)))
            case.require(abs(got - want) <= 1e-6 * (1 + size) + 100 * noise,
                         f"hessian of a long problem: got {got}, expected {want}",
                         counter="directions")
    case.count("long")


def family(judge, **kw):
    def long(case):
        o = problem(case, **kw)
        x = o.random_x()
        judge(case, o, x)
        if case.rng.random() < 0.5:
            case.event("change", o.mutate(kinds=("param", "scales", "mesh_scale")))
            judge(case, o, o.next_x(x))
    return long

"""All backends compute the same values and derivatives."""
import copy

import numpy as np

from lib.harness import Family
from lib import models, ocps, real
from lib.ocps import RandomOCP, dense
from checks.C01 import far

PROPERTY = "C10"
RULE = ("random models evaluated by every backend, singly and in batches of changing size and "
        "with changing parameters, against one independent reference; problems built three "
        "times, with each backend; shipped models with random parameters; distinct by model, "
        "parameters and points")
MIN = {"comparisons": 100000, "batches": 400, "problems": 25, "shipped": 10, "singles": 300, "arrays": 100,
       "backend_jax": 60, "backend_casadi": 60, "backend_custom": 60}
ASSUMPTIONS = ["non-smooth terms are compared away from their kinks (random points)",
               "relative tolerance 1e-9 (1e-7 for shipped models)"]


def random_params(rng, spec):
    p = {k: (float(rng.uniform(-2, 2)) if np.isscalar(v) else rng.uniform(-2, 2, np.shape(v)))
         for k, v in spec["params"].items()}
    sp = None
    if spec["sub"]:
        sp = {k: (float(rng.uniform(-2, 2)) if np.isscalar(v)
                  else rng.uniform(-2, 2, np.shape(v))) for k, v in spec["sub"]["params"].items()}
    return p, sp


def set_params(tree, spec, p, sp):
    for k, v in p.items():
        tree.set_param(k, copy.deepcopy(v))
    for k, v in (sp or {}).items():
        tree.set_param(f"{spec['sub']['name']}.{k}", copy.deepcopy(v))
    return tree


def check_return(case, ret, xdot, outs, model, what, rtol=1e-9):
    big = 1 + np.abs(xdot).max(initial=0) + max(
        [np.abs(v).max(initial=0) for v in outs.values()] or [0])
    lead = xdot.shape[:-1]
    for g in ("states_dot", "outputs", "con_outputs", "residuals"):
        names = model.get_group_names(g)
        got = np.asarray(getattr(ret, g), dtype=float)
        if g == "states_dot":
            want = xdot
        elif names:
            want = np.stack([outs[n] for n in names], axis=-1)
        else:
            want = np.zeros(lead + (0,))
        if got.size == 0 and want.size == 0:
            continue
        case.close(got, want, f"{what} {g}", rtol=rtol, atol=1e-10, scale=big)


def generated(case, backend):
    import lumos.numpy as lnp

    rng = case.rng
    spec = models.random_spec(rng, mesh=bool(rng.integers(2)),
                              nonsmooth=bool(rng.random() < 0.4),
                              linear=bool(rng.random() < 0.15))
    custom = backend == "custom"
    m = models.make_model(spec, custom=custom)
    outs = models.all_outputs(spec)
    con = [str(o) for o in rng.permutation(outs)[:int(rng.integers(0, len(outs) + 1))]]
    m.set_con_outputs(tuple(con))
    case.describe(backend=backend, con_outputs=con, **models.describe_spec(spec))
    m.make_model_algebra_cons(backend)
    nx, nu = len(spec["states"]), len(spec["inputs"])
    own = models.Reference(spec)
    for k in range(4):
        batch = int(rng.choice([1, 2, 3, 7, 33]))
        st, inp = rng.uniform(-2, 2, (batch, nx)), rng.uniform(-2, 2, (batch, nu))
        mesh = rng.uniform(0, 3, batch)
        if k == 0:
            params, ref = m.get_recursive_params(), own
        else:
            p, sp = random_params(rng, spec)
            tree = m.get_recursive_params() if k == 1 or rng.random() < 0.5 else params
            params = set_params(tree, spec, p, sp)  # a new tree, or new values in the last
            ref = models.Reference(spec, p, sp)
        xdot, o = ref.forward(st, inp, mesh)
        ret = m.batched_forward(st, inp, mesh, params)
        check_return(case, ret, xdot, o, m, f"{backend} batched forward")
        for g in ("states_dot", "outputs", "con_outputs", "residuals"):
            case.equal(np.shape(getattr(ret, g)), (batch, len(m.get_group_names(g))),
                       f"shape of batched {g}")
        case.count("batches")
        # one at a time, with numpy and with this backend's own arrays
        i = int(rng.integers(batch))
        xdot, o = xdot[i], {n: v[i] for n, v in o.items()}
        ret = m.apply_and_forward_with_arrays(st[i], inp[i], float(mesh[i]), params)
        check_return(case, ret, xdot, o, m, "numpy forward")
        case.count("singles")
        if backend == "jax":
            with lnp.use_backend("jax"):
                ret = m.apply_and_forward_with_arrays(st[i], inp[i], float(mesh[i]), params)
            check_return(case, ret, xdot, o, m, "jax forward")
        elif backend == "casadi":
            ret = casadi_forward(m, st[i], inp[i], float(mesh[i]), params, rng)
            check_return(case, ret, xdot, o, m, "casadi forward")
    # the model's own parameters are still used when asked for
    st, inp, mesh = rng.uniform(-2, 2, nx), rng.uniform(-2, 2, nu), float(rng.uniform(0, 3))
    xdot, o = own.forward(st, inp, mesh)
    check_return(case, m.forward_with_arrays(st, inp, mesh), xdot, o, m, "own parameters")
    dot = rng.standard_normal(nx)
    con_v = rng.standard_normal(len(con))
    want = np.concatenate([xdot - dot, [o[n] - v for n, v in zip(con, con_v)],
                           [o[n] for n in m.get_group_names("residuals")]])
    case.close(m.implicit(st, inp, dot, con_v, mesh), want, "implicit form", scale=1 + np.abs(
        want).max())
    case.count("backend_" + backend)


def arrays_spec(rng):
    """Parameters of every shape, and the ways a model reads them."""
    shapes = {}
    for k in rng.permutation(["a", "W", "w10", "w9", "Bias"])[:int(rng.integers(1, 6))]:
        d = int(rng.integers(0, 5))
        shapes[str(k)] = [(), (int(rng.integers(1, 5)),), (1, int(rng.integers(1, 4))),
                          (int(rng.integers(1, 4)), 1),
                          tuple(int(i) for i in rng.integers(2, 5, 2))][d]
    params = {k: (float(rng.uniform(-1, 1)) if s == () else rng.uniform(-1, 1, s))
              for k, s in shapes.items()}
    eqs = []
    for _ in range(4):  # the derivatives of two states, an output, a residual
        terms = []
        for k, s in shapes.items():
            for _ in range(int(rng.integers(1, 4))):
                at = tuple(int(rng.integers(n)) for n in s)
                terms.append(("read", round(float(rng.uniform(0.5, 2)), 3), k, at,
                              int(rng.integers(3))))
        for k, s in shapes.items():
            for v, t in shapes.items():
                if len(s) == 2 and len(t) == 1 and s[1] == t[0]:
                    terms.append(("dot", round(float(rng.uniform(0.5, 2)), 3), k,
                                  int(rng.integers(s[0])), int(rng.integers(3)), v))
        eqs.append(terms)
    return shapes, params, eqs


def arrays_eval(terms, z, p, dot):
    out = 0.1 * z[0]
    for t in terms:
        if t[0] == "read":
            v = p[t[2]][t[3] if len(t[3]) != 1 else t[3][0]] if t[3] else p[t[2]]
            out = out + t[1] * v * z[t[4]] * z[(t[4] + 1) % 3]
        else:
            out = out + t[1] * dot(p[t[2]], p[t[5]])[t[3]] * z[t[4]]
    return out


def arrays(case):
    """Array parameters of any shape: columns, rows, one number, square and not."""
    import lumos.numpy as lnp
    from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io

    rng = case.rng
    shapes, params, eqs = arrays_spec(rng)
    case.describe(shapes=sorted((k, list(s)) for k, s in shapes.items()),
                  h=float(sum(t[1] for e in eqs for t in e)))

    @state_space_io(states=("x", "y"), inputs=("u",), outputs=("o", "res"), residuals=("res",))
    class Arrays(StateSpaceModel):
        @classmethod
        def get_default_params(cls):
            return copy.deepcopy(params)

        def forward(self, states, inputs, mesh):
            z = [states["x"], states["y"], inputs["u"]]
            v = [arrays_eval(e, z, self._params, lnp.dot) for e in eqs]
            return StateSpaceModelReturn(
                states_dot=self.make_dict("states_dot", x=v[0], y=v[1]),
                outputs=self.make_outputs_dict(o=v[2], res=v[3]))

    built = {}
    for b in ("jax", "casadi"):
        m = Arrays()
        m.set_con_outputs(("o",) if rng.random() < 0.7 else ())
        m.make_model_algebra_cons(b)
        built[b] = m
    for k in range(3):
        n = int(rng.choice([1, 2, 5]))
        if k:
            p = {q: (float(rng.uniform(-2, 2)) if s == () else rng.uniform(-2, 2, s))
                 for q, s in shapes.items()}
        else:
            p = params
        st, inp, mesh = rng.uniform(-2, 2, (n, 2)), rng.uniform(-2, 2, (n, 1)), rng.uniform(
            0, 1, n)
        z = [st[:, 0], st[:, 1], inp[:, 0]]
        v = [arrays_eval(e, z, p, np.dot) for e in eqs]
        xdot, outs = np.stack(v[:2], -1), {"o": v[2], "res": v[3]}
        for b, m in built.items():
            tree = m.get_recursive_params()
            if k:
                for q, w in p.items():
                    tree.set_param(q, copy.deepcopy(w))
            check_return(case, m.batched_forward(st, inp, mesh, tree), xdot, outs, m,
                         f"{b} batched forward")
            nv = m.num_implicit_var
            flat = rng.uniform(-1, 1, (n, nv))
            flat[:, m.get_group_indices_in_flat("states")] = st
            flat[:, m.get_group_indices_in_flat("inputs")] = inp
            got = np.asarray(m.model_algebra.mapped_constraints(flat, mesh, tree.tree_ravel()[0]
                                                                if b == "casadi" else tree)).reshape(n, -1)
            dot_ = flat[:, m.get_group_indices_in_flat("states_dot")]
            con = flat[:, m.get_group_indices_in_flat("con_outputs")]
            want = np.hstack([xdot - dot_, *([(v[2] - con[:, 0])[:, None]] if con.size else []),
                              v[3][:, None]])
            case.close(got, want, f"{b} model algebra", rtol=1e-9, atol=1e-10,
                       scale=1 + np.abs(want).max())
        case.count("arrays")


class Ret:
    pass


def casadi_forward(m, st, inp, mesh, params, rng):
    """Symbolic evaluation with the casadi backend, symbols for everything."""
    import casadi as cas

    import lumos.numpy as lnp

    T = [cas.SX, cas.MX][rng.integers(2)]
    s, u, t = T.sym("s", len(st)), T.sym("u", len(inp)), T.sym("t")
    flat, unravel = params.tree_ravel()
    p = T.sym("p", len(flat))
    with lnp.use_backend("casadi"):
        ret = m.apply_and_forward_with_arrays(s, u, t, unravel(p))
    f = cas.Function("f", [s, u, t, p], [*ret])
    vals = f(st, inp, mesh, np.asarray(flat, dtype=float))
    out = Ret()
    for g, v in zip(ret._fields, vals):
        setattr(out, g, np.array(v).ravel())
    return out


def compare(case, first, all_, x, large=False):
    rng = case.rng
    lam = rng.standard_normal(first.ocp.num_con)
    sigma = float(rng.uniform(-1, 2))
    res = {}
    for b, o in all_.items():
        ocp = o.ocp
        n, m = ocp.num_dec, ocp.num_con
        r, cc = ocp.jacobianstructure()
        J = dense(r, cc, ocp.jacobian(x), (m, n))
        res[b] = dict(constraints=np.asarray(ocp.constraints(x)), jacobian=J,
                      gradient=np.asarray(ocp.gradient(x)),
                      objective=float(ocp.objective(x)))
        if b != "custom" or not (first.spec_nonsmooth or large):
            r, cc = ocp.hessianstructure()
            res[b]["hessian"] = dense(r, cc,
                                      ocp.hessian(x, lam, sigma), (n, n))
    for b in ("casadi", "custom"):
        for k, v in res[b].items():
            tol = 1e-9 if b == "casadi" or k != "hessian" else 1e-5
            case.close(v, res["jax"][k], f"{k} with {b} and with jax", rtol=tol, atol=1e-9,
                       scale=1 + np.abs(res["jax"][k]).max(initial=0))
    case.count("points")


def same_problem(case):
    rng = case.rng
    first = RandomOCP(rng, backend="jax", max_intervals=3, max_states=3,
                      nonsmooth=bool(rng.integers(2)))
    case.describe(**first.describe())
    all_ = {"jax": first}
    import copy as c

    for b in ("casadi", "custom"):
        o = c.copy(first)
        o.backend = b
        o.build()
        all_[b] = o
    compare(case, first, all_, first.random_x())
    compare(case, first, all_, far(first, first.random_x()), True)
    case.count("problems")


def perturb(rng, tree, amount=0.05):
    """Random changes of every float parameter of a real parameter tree."""
    flat, unravel = tree.tree_ravel()
    flat = np.asarray(flat, dtype=float)
    return unravel(flat * (1 + amount * rng.uniform(-1, 1, flat.shape)))


def vehicle_point(rng):
    vx = float(rng.uniform(15, 80))
    st = {"time": 3.0, "n": rng.uniform(-3, 3), "eta": rng.uniform(-0.3, 0.3), "vx": vx,
          "vy": rng.uniform(-2, 2), "yaw_rate": rng.uniform(-0.5, 0.5)}
    for c in real.CORNERS:
        st["wheel_speed_" + c] = vx / 0.33 * (1 + rng.uniform(-0.08, 0.08))
    inp = {"throttle": rng.uniform(0, 1), "brake": rng.uniform(0, 1),
           "steer": rng.uniform(-0.4, 0.4), "ax": rng.uniform(-10, 6),
           "ay": rng.uniform(-12, 12), "track_curvature": rng.uniform(-0.02, 0.02),
           "track_heading": rng.uniform(-3, 3)}
    return st, inp


def shipped(case):
    import lumos.numpy as lnp
    from lumos.models.composition import ModelMaker
    import lumos.models  # noqa
    from lumos.models.drone_model import DroneModel

    rng = case.rng
    if case.index % 4 == 3:
        m = DroneModel()
        pts = [({n: rng.uniform(-3, 3) for n in m.names.states},
                {n: rng.uniform(-3, 3) for n in m.names.inputs}) for _ in range(3)]
        case.describe(model="drone", x=float(rng.random()))
    else:
        tires = ["PerantoniTire", "MF52", "PerantoniTire"][case.index % 4]
        aero = ["ConstAero", "GPAero", "MLPAero"][case.index % 3]
        if real.registered(aero) is None:
            aero = "ConstAero"
        m = ModelMaker.make_model_from_config(real.vehicle_config(tires, aero))
        pts = [vehicle_point(rng) for _ in range(3)]
        case.describe(model="vehicle", tires=tires, aero=aero, x=float(rng.random()))
    params = perturb(rng, m.get_recursive_params())
    for st, inp in pts:
        s = np.array([float(st[n]) for n in m.names.states])
        u = np.array([float(inp[n]) for n in m.names.inputs])
        a = m.apply_and_forward_with_arrays(s, u, 1.3, params)
        with lnp.use_backend("jax"):
            b = m.apply_and_forward_with_arrays(s, u, 1.3, params)
        c = casadi_forward(m, s, u, 1.3, params, rng)
        for g in ("states_dot", "outputs"):
            want = np.asarray(getattr(a, g), dtype=float)
            case.require(np.isfinite(want).all(), f"{g} is not finite")
            for name, r in (("jax", b), ("casadi", c)):
                case.close(np.asarray(getattr(r, g), dtype=float), want, f"{name} {g}",
                           rtol=1e-7, atol=1e-9, scale=1 + np.abs(want))
        case.count("shipped")


FAMILIES = [
    Family("jax", lambda c: generated(c, "jax"), 175, 800, cost=3),
    Family("casadi", lambda c: generated(c, "casadi"), 275, 1500),
    Family("custom", lambda c: generated(c, "custom"), 275, 1500),
    Family("arrays", arrays, 60, 400, cost=3),
    Family("problem", same_problem, 100, 500, cost=5),
    Family("shipped", shipped, 30, 100, cost=10),
]

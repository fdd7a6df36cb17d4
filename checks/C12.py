"""Evaluation depends on its arguments only and leaves no trace."""
import copy
import os

import numpy as np

from checks.C10 import check_return, casadi_forward, random_params, set_params, perturb
from checks.C10 import vehicle_point
from lib.harness import Family
from lib import models, real

PROPERTY = "C12"
RULE = ("random histories over two to four models (two of the same class), of evaluations with "
        "own and with given parameters, on every backend, single, batched, jitted, exported, "
        "rebuilt, and failing; the state of every model is recorded before and after every "
        "operation and every result is compared with a reference; distinct by history")
MIN = {"comparisons": 30000, "operations": 1500, "states_recorded": 3000, "failures": 150,
       "explicit": 300, "own": 150, "traced": 200, "tree_changes": 100, "leak_checked": 40,
       "shipped": 8, "set_on_submodel": 100}
ASSUMPTIONS = ["values inside parameter trees are replaced, not changed in place"]


def snapshot(m):
    """The parameters, copied, and their types."""
    flat, _ = m.get_recursive_params().to_flat_dict()
    return {k: (type(v), np.array(v, copy=True)) for k, v in flat.items()}


def plain(case, m, what):
    import casadi as cas
    import jax

    flat, _ = m.get_recursive_params().to_flat_dict()
    for k, v in flat.items():
        if isinstance(v, (jax.core.Tracer, cas.SX, cas.MX)):
            case.violate(f"{what}: parameter {k} is left as {type(v).__name__}")
    import lumos.numpy as lnp

    case.equal(lnp.get_backend(), "numpy", f"backend after {what}")


def same_state(case, m, before, what):
    plain(case, m, what)
    now = snapshot(m)
    case.count("states_recorded")
    case.equal(list(now), list(before), f"parameter names after {what}")
    for k, (t, v) in before.items():
        if not np.array_equal(now[k][1], v):
            case.violate(f"{what} changed parameter {k} from {v!r} to {now[k][1]!r}")


class Live:
    """A model, the parameters it should have, and its reference."""

    def __init__(self, rng, spec, Cls):
        self.spec, self.Cls = spec, Cls
        self.m = Cls()
        outs = models.all_outputs(spec)
        self.con = tuple(str(o) for o in rng.permutation(outs)[
            :int(rng.integers(0, len(outs) + 1))])
        self.m.set_con_outputs(self.con)
        self.p = copy.deepcopy(spec["params"])
        self.sp = copy.deepcopy(spec["sub"]["params"]) if spec["sub"] else None
        self.backend = None

    def ref(self, p=None, sp=None):
        if p is None:
            p, sp = self.p, self.sp
        return models.Reference(self.spec, p, sp)


class Boom(Exception):
    pass


def history(case):
    import jax

    import lumos.numpy as lnp

    rng = case.rng
    lives = []
    for _ in range(int(rng.integers(1, 4))):
        spec = models.random_spec(rng, mesh=bool(rng.integers(2)),
                                  composite=bool(rng.random() < 0.5))
        Cls = models.make_class(spec, custom=True)
        lives.append(Live(rng, spec, Cls))
    lives.append(Live(rng, lives[0].spec, lives[0].Cls))
    case.describe(models=len(lives), s=float(rng.random()))
    ops = ["own", "own", "explicit", "explicit", "explicit", "batched", "batched", "jax",
           "casadi", "jit", "fail", "set", "set", "tree", "rebuild", "export", "flat"]
    for _ in range(int(rng.integers(10, 20))):
        if case.trace and rng.random() < 0.3:  # the same again
            op, L = case.trace[-1][0], lives[case.trace[-1][1]]
        else:
            op, L = str(rng.choice(ops)), lives[rng.integers(len(lives))]
        if op == "rebuild" and rng.random() < 0.4:
            continue
        case.event(op, lives.index(L))
        case.count("operations")
        before = [snapshot(x.m) for x in lives]
        m, spec = L.m, L.spec
        nx, nu = len(spec["states"]), len(spec["inputs"])
        st, inp = rng.uniform(-2, 2, nx), rng.uniform(-2, 2, nu)
        mesh = float(rng.uniform(0, 3))
        p, sp = random_params(rng, spec)
        # a new tree, or the one used before with new values
        tree = getattr(L, "tree", None)
        if tree is None or rng.random() < 0.5:
            tree = m.get_recursive_params()
        else:
            case.count("tree_reused")
        params = L.tree = set_params(tree, spec, p, sp)
        given = {k: np.array(v, copy=True) for k, v in params.to_flat_dict()[0].items()}
        xdot, o = L.ref(p, sp).forward(st, inp, mesh)
        if op == "own":
            xdot, o = L.ref().forward(st, inp, mesh)
            check_return(case, m.forward_with_arrays(st, inp, mesh), xdot, o, m, "own")
            case.count("own")
        elif op == "explicit":
            if rng.random() < 0.5:
                r = m.apply_and_forward_with_arrays(st, inp, mesh, params)
                check_return(case, r, xdot, o, m, "explicit")
            else:
                r = m.apply_and_forward(dict(zip(m.names.states, st)),
                                        dict(zip(m.names.inputs, inp)), mesh, params)
                for i, n in enumerate(m.names.states):
                    case.close(r.states_dot[n], xdot[i], n, atol=1e-9, rtol=1e-9)
                for n in o:
                    case.close(r.outputs[n], o[n], n, atol=1e-9, rtol=1e-9)
            case.count("explicit")
        elif op == "flat":
            dot, con_v = rng.standard_normal(nx), rng.standard_normal(len(L.con))
            want = np.concatenate([
                xdot - dot, [o[n] - v for n, v in zip(L.con, con_v)],
                [o[n] for n in m.get_group_names("residuals")]])
            xdot, o = L.ref().forward(st, inp, mesh)
            want = np.concatenate([
                xdot - dot, [o[n] - v for n, v in zip(L.con, con_v)],
                [o[n] for n in m.get_group_names("residuals")]])
            case.close(m.implicit(st, inp, dot, con_v, mesh), want, "implicit", atol=1e-9)
        elif op == "jax":
            with lnp.use_backend("jax"):
                r = m.apply_and_forward_with_arrays(st, inp, mesh, params)
            check_return(case, r, xdot, o, m, "jax")
            case.count("traced")
        elif op == "jit":
            f = lnp.use_backend("jax")(jax.jit(m.apply_and_forward_with_arrays))
            with jax.checking_leaks():
                r = f(st, inp, mesh, params)
            check_return(case, r, xdot, o, m, "jit")
            case.count("leak_checked")
            case.count("traced")
        elif op == "casadi":
            r = casadi_forward(m, st, inp, mesh, params, rng)
            check_return(case, r, xdot, o, m, "casadi")
            case.count("traced")
        elif op == "rebuild":
            L.backend = str(rng.choice(["jax", "casadi", "custom"]))
            m.make_model_algebra_cons(L.backend)
            case.count("traced")
        elif op == "batched":
            if L.backend is None:
                L.backend = "custom"
                m.make_model_algebra_cons("custom")
            b = int(rng.integers(1, 4))
            S, U, M = (rng.uniform(-2, 2, (b, nx)), rng.uniform(-2, 2, (b, nu)),
                       rng.uniform(0, 3, b))
            xd, oo = L.ref(p, sp).forward(S, U, M)
            check_return(case, m.batched_forward(S, U, M, params), xd, oo, m,
                         f"{L.backend} batched")
        elif op == "export":
            L.m.export_c_code("exported.c", CasType=[__import__("casadi").SX,
                                                     __import__("casadi").MX][rng.integers(2)])
            case.require(os.path.getsize("exported.c") > 0, "nothing exported")
            case.count("traced")
        elif op == "fail":
            failing(case, L, st, inp, mesh, params)
            case.count("failures")
        elif op == "set":
            if spec["sub"] and rng.random() < 0.5:  # those of the submodel, on the submodel
                name = spec["sub"]["name"]
                m.get_submodel(name).set_recursive_params(params.get_child(name))
                L.sp = sp
                given = {k: v if k.startswith(name + ".") else np.array(before[
                    lives.index(L)][k][1]) for k, v in given.items()}
                case.count("set_on_submodel")
            else:
                m.set_recursive_params(params)
                L.p, L.sp = p, sp
            before[lives.index(L)] = snapshot(m)
            for k, v in given.items():
                case.close(before[lives.index(L)][k][1], v, f"own parameter {k}", rtol=0,
                           atol=0)
            # what the caller does with the tree later is his own business
            scramble(params, rng)
            case.count("tree_changes")
        elif op == "tree":
            t = m.get_recursive_params()
            scramble(t, rng)
            case.count("tree_changes")
        if op not in ("set",):
            for k, v in params.to_flat_dict()[0].items():
                if not np.array_equal(np.asarray(v), given[k]):
                    case.violate(f"{op} changed the given parameter {k}")
        for x, b in zip(lives, before):
            same_state(case, x.m, b, f"{op} (on model {lives.index(L)})")
    # new models of the class still start from the defaults
    for L in lives:
        flat = snapshot(L.Cls())
        for k, v in L.spec["params"].items():
            case.close(flat[k][1], v, f"default of {k}", rtol=0, atol=0)
        if L.spec["sub"]:
            for k, v in L.spec["sub"]["params"].items():
                case.close(flat[L.spec["sub"]["name"] + "." + k][1], v, f"default of {k}",
                           rtol=0, atol=0)


def scramble(tree, rng):
    for k in tree.to_flat_dict()[0]:
        tree.set_param(k, float(rng.normal()) + 1e5)


def failing(case, L, st, inp, mesh, params):
    """An evaluation that raises, at different moments."""
    import jax

    import lumos.numpy as lnp
    from lumos.models.tree_utils import ParameterTree

    rng, m = case.rng, L.m
    keys = list(params.data)
    k = rng.integers(7)
    if k == 0:  # a parameter is missing
        d = params.to_dict()
        for q in keys:
            del d["data"][q]
        d["data"]["other"] = 3.0
        bad = ParameterTree.from_dict(d)
        used = any(t[0] in ("k", "vec", "mat", "const") for e in L.spec["eqs"].values()
                   for t in e)
        fn = lambda: m.apply_and_forward_with_arrays(st, inp, mesh, bad)
        if not used:
            fn()
            return
    elif k == 1 and L.spec["sub"]:  # a child is missing
        bad = ParameterTree(dict(params.data))
        fn = lambda: m.apply_and_forward_with_arrays(st, inp, mesh, bad)
    elif k == 2:  # a value of an impossible type
        name = m.names.states[0]
        s = dict(zip(m.names.states, st))
        del s[name]
        fn = lambda: m.apply_and_forward(s, dict(zip(m.names.inputs, inp)), mesh, params)
    elif k == 5:  # what the submodel returned does not go with the rest
        s = dict(zip(m.names.states, [np.ones(2)] + [np.ones(3)] * len(st)))
        fn = lambda: m.forward(s, dict(zip(m.names.inputs, inp)), mesh)
    elif k == 6:  # of the whole batch

        def fn():
            if L.backend is not None:
                m.batched_forward(st[None, :-1], inp[None], np.zeros(1), params)
    elif k == 3:  # fails while tracing

        def boom(s, u):
            m.apply_and_forward_with_arrays(s, u, mesh, params)
            raise Boom()

        fn = lambda: lnp.use_backend("jax")(jax.jit(boom))(st, inp)
    else:
        fn = lambda: m.apply_and_forward_with_arrays(st[:-1], inp, mesh, params)
    try:
        fn()
    except Exception:
        pass


def shipped(case):
    """The shipped vehicle: two models of different and equal tires side by side."""
    import jax

    import lumos.numpy as lnp
    from lumos.models.composition import ModelMaker

    rng = case.rng
    tires = ["PerantoniTire", "MF52"][case.index % 2]
    aero = ["ConstAero", "GPAero", "MLPAero"][case.index % 3]
    case.describe(tires=tires, aero=aero, s=float(rng.random()))
    cfg = real.vehicle_config(tires, aero)
    cdict = cfg.to_dict()
    ms = [ModelMaker.make_model_from_config(cfg) for _ in range(2)]
    fresh = lambda: ModelMaker.make_model_from_config(cfg)
    own = [perturb(rng, m.get_recursive_params()) for m in ms]
    for m, p in zip(ms, own):
        m.set_recursive_params(p)
    for _ in range(4):
        before = [snapshot(m) for m in ms]
        i = int(rng.integers(2))
        m = ms[i]
        st, inp = vehicle_point(rng)
        s = np.array([float(st[n]) for n in m.names.states])
        u = np.array([float(inp[n]) for n in m.names.inputs])
        params = perturb(rng, own[i])
        f = fresh()
        f.set_recursive_params(params)
        want = f.forward_with_arrays(s, u, 1.0)
        op = rng.integers(4)
        if op == 0:
            got = m.apply_and_forward_with_arrays(s, u, 1.0, params)
        elif op == 1:
            with lnp.use_backend("jax"):
                got = m.apply_and_forward_with_arrays(s, u, 1.0, params)
        elif op == 2:
            got = casadi_forward(m, s, u, 1.0, params, rng)
        else:
            f = fresh()
            f.set_recursive_params(own[i])
            want = f.forward_with_arrays(s, u, 1.0)
            got = m.forward_with_arrays(s, u, 1.0)
        for g in ("states_dot", "outputs"):
            w = np.asarray(getattr(want, g), dtype=float)
            case.close(np.asarray(getattr(got, g), dtype=float), w, g, rtol=1e-7, atol=1e-9,
                       scale=1 + np.abs(w))
        for x, b in zip(ms, before):
            same_state(case, x, b, f"operation {op}")
        case.count("operations")
    case.equal(cfg.to_dict(), cdict, "the configuration after its use")
    case.count("shipped")


FAMILIES = [Family("history", history, 1800, 5400, cost=1),
            Family("shipped", shipped, 24, 80, cost=6)]

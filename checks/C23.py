"""Composed models are wired exactly as configured."""
import copy
import itertools
import logging

import numpy as np

from lib import real
from lib.harness import Family

PROPERTY = "C23"
RULE = ("random compositions up to four levels, with static and state space submodels, variants "
        "of every slot, chained inputs, residuals at any level and parameters with equal names "
        "at different nodes; built in every way the library offers, with default, given and "
        "later changed parameters, evaluated with dictionaries and arrays in any key order and "
        "selection of constraint outputs, against a recursive reference; wrong use of the "
        "registry, configurations, names and submodel calls; distinct by composition and choice")
MIN = {"comparisons": 100000, "models": 6000, "submodels": 30000, "evaluations": 15000,
       "rejections": 5000, "variants": 3000, "parameters": 100000, "jax": 200, "same_class_twice": 150, "parts_set": 1000}
ASSUMPTIONS = ["inputs beyond those a model declares are documented to be ignored with a "
               "warning", "every model calls each of its submodels exactly once per evaluation "
               "(anything else must raise)"]
_uid = itertools.count()
POOL = ["u", "F_x", "slip", "v", "power", "a.b"[:1], "q1", "Mz"]
SLOTS = ["aero", "tire_fl", "tire_fr", "body", "m1_con", "engine"]


def ident(rng, pool, n):
    return [str(x) for x in rng.permutation(pool)[:n]]


def node(rng, depth, io=None, ss=None, pool=None):
    """A class to be: names, parameters, slots (each with variants), equations."""
    uid = next(_uid)
    pool = [] if pool is None else pool
    if io is None:
        ss = rng.random() < 0.35 if ss is None else ss
        io = {"inputs": ident(rng, ["u", "F_x", "v", "q1"], int(rng.integers(1, 4))),
              "outputs": ident(rng, ["power", "Mz", "F_x", "slip"], int(rng.integers(1, 4))),
              "states": ident(rng, ["x", "y", "v"], int(rng.integers(1, 3))) if ss else []}
    n = dict(io, ss=ss, cls=f"C{uid}_{int(rng.integers(1000))}", slots={}, calls=[])
    n["residuals"] = [o for o in io["outputs"] if rng.random() < 0.2]
    n["params"] = {"k": float(rng.uniform(-2, 2)), "w": rng.uniform(-2, 2, 2)}
    if rng.random() < 0.4:
        n["params"]["aero"] = float(rng.uniform(-2, 2))
    src = [("i", x) for x in io["inputs"]] + [("s", x) for x in io["states"]]
    if depth > 0 and rng.random() < 0.85:
        for name in ident(rng, SLOTS, int(rng.integers(1, 4))):
            again = [c for c in pool if c["height"] < depth]
            if again and rng.random() < 0.4:  # a class that is used elsewhere, too
                first = again[rng.integers(len(again))]
            else:
                first = node(rng, depth - 1 - int(rng.random() < 0.3), pool=pool)
            var = [first]
            for _ in range(int(rng.integers(0, 3))):
                var.append(node(rng, depth - 1 - int(rng.random() < 0.5),
                                {k: first[k] for k in ("inputs", "outputs", "states")},
                                first["ss"], pool))
            n["slots"][name] = var
    # calls in any order, each fed by inputs and the results of the earlier ones
    for name in (str(x) for x in rng.permutation(list(n["slots"]))):
        c = n["slots"][name][0]
        n["calls"].append((name, {x: expr(rng, src) for x in c["inputs"]},
                           {x: expr(rng, src) for x in c["states"]}))
        src = src + [("o", name, x) for x in c["outputs"]]
        if c["ss"]:
            src = src + [("d", name, x) for x in c["states"]]
    n["eqs"] = {x: expr(rng, src, n["params"], len(src)) for x in io["outputs"]}
    n["dots"] = {x: expr(rng, src, n["params"]) for x in io["states"]}
    n["height"] = 1 + max([c["height"] for v in n["slots"].values() for c in v], default=-1)
    pool.append(n)
    return n


def expr(rng, src, params=None, num=2):
    out = []
    for s in [src[i] for i in rng.permutation(len(src))[:max(num, 1)]]:
        out.append((float(np.round(rng.uniform(-1.5, 1.5), 3)), s,
                    ["lin", "sin", "k", "w"][rng.integers(4 if params else 2)],
                    int(rng.integers(2))))
    return out


def evaluate(e, val, p, sin, mesh):
    r = 0.01 * mesh
    for c, s, kind, i in e:
        v = val(s)
        r = r + c * (v if kind == "lin" else sin(v) if kind == "sin" else
                     p["k"] * v if kind == "k" else p["w"][i] * sin(v) + p.get("aero", 0.0))
    return r


# ------------------------------------------------------------------ reference
class Ref:
    """A node with the variants chosen."""

    def __init__(self, n, pick):
        self.n = n
        self.i = {s: pick(len(v)) for s, v in n["slots"].items()}
        self.kids = {s: Ref(v[self.i[s]], pick) for s, v in n["slots"].items()}
        self.params = copy.deepcopy(n["params"])

    def outputs(self):
        return list(self.n["outputs"]) + [f"{s}.{o}" for s, k in self.kids.items()
                                          for o in k.outputs()]

    def residuals(self):
        return list(self.n["residuals"]) + [f"{s}.{o}" for s, k in self.kids.items()
                                            for o in k.residuals()]

    def nodes(self, path=()):
        yield path, self
        for s, k in self.kids.items():
            yield from k.nodes(path + (s,))

    def run(self, inp, st, mesh):
        res = {}

        def val(s):
            if s[0] == "i":
                return inp[s[1]]
            if s[0] == "s":
                return st[s[1]]
            return res[s[1]][0 if s[0] == "o" else 1][s[2]]

        for name, fi, fs in self.n["calls"]:
            k = self.kids[name]
            res[name] = k.run({x: evaluate(e, val, {}, np.sin, mesh) for x, e in fi.items()},
                              {x: evaluate(e, val, {}, np.sin, mesh) for x, e in fs.items()},
                              mesh)
        out = {x: evaluate(e, val, self.params, np.sin, mesh) for x, e in self.n["eqs"].items()}
        for s in self.kids:
            out.update({f"{s}.{o}": v for o, v in res[s][0].items()})
        return out, {x: evaluate(e, val, self.params, np.sin, mesh)
                     for x, e in self.n["dots"].items()}

    def perturb(self, rng):
        for _, r in self.nodes():
            for k, v in r.params.items():
                if rng.random() < 0.6:
                    r.params[k] = (float(rng.uniform(-2, 2)) if np.isscalar(v)
                                   else rng.uniform(-2, 2, 2))


# ---------------------------------------------------------------- real classes
def make_classes(n, registered):
    import lumos.numpy as lnp
    from lumos.models.base import (
        Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
    from lumos.models.composition import ModelMaker

    for v in n["slots"].values():
        for c in v:
            if c["cls"] not in registered:
                make_classes(c, registered)
    sub_ss = {s: v[0]["ss"] for s, v in n["slots"].items()}

    def common(self, inp, st, mesh):
        res = {}

        def val(s):
            if s[0] == "i":
                return inp[s[1]]
            if s[0] == "s":
                return st[s[1]]
            r = res[s[1]]
            return (r.outputs if s[0] == "o" else r.states_dot)[s[2]]

        for name, fi, fs in n["calls"]:
            kw = {"inputs": {x: evaluate(e, val, {}, lnp.sin, mesh) for x, e in fi.items()}}
            if sub_ss[name]:
                kw["states"] = {x: evaluate(e, val, {}, lnp.sin, mesh) for x, e in fs.items()}
                kw["mesh"] = mesh
            else:
                kw["inputs"]["mesh"] = mesh
            res[name] = self.call_submodel(name, **kw)
        p = self._params
        outs = {x: evaluate(e, val, p, lnp.sin, mesh) for x, e in reversed(n["eqs"].items())}
        return (self.make_outputs_dict(**outs),
                {x: evaluate(e, val, p, lnp.sin, mesh) for x, e in reversed(n["dots"].items())})

    if n["ss"]:
        def forward(self, states, inputs, mesh):
            o, d = common(self, inputs, states, mesh)
            return StateSpaceModelReturn(states_dot=self.make_dict(group="states_dot", **d),
                                         outputs=o)
        base = StateSpaceModel
        io = state_space_io(states=tuple(n["states"]), inputs=tuple(n["inputs"]),
                            outputs=tuple(n["outputs"]), residuals=tuple(n["residuals"]))
    else:
        def forward(self, inputs):
            o, _ = common(self, inputs, {}, inputs.get("mesh", 0.0))
            return ModelReturn(outputs=o, residuals={r: o[r] for r in self.names.residuals})
        base = Model
        io = model_io(inputs=tuple(n["inputs"]) + ("mesh",), outputs=tuple(n["outputs"]),
                      residuals=tuple(n["residuals"]))
    body = {"forward": forward,
            "get_default_params": classmethod(lambda cls: copy.deepcopy(n["params"]))}
    if n["slots"]:
        body["get_default_submodel_config"] = classmethod(
            lambda cls: {s: v[0]["cls"] for s, v in n["slots"].items()})
    Cls = io(type(n["cls"], (base,), body))
    ModelMaker.add_to_registry(Cls)
    registered[n["cls"]] = Cls
    return Cls


def check_structure(case, model, ref, classes, what):
    for path, r in ref.nodes():
        m = model.get_submodel(".".join(path)) if path else model
        case.require(type(m) is classes[r.n["cls"]], f"{what}: class at {path}: "
                     f"{type(m).__name__}, expected {r.n['cls']}")
        if len(path) > 1:
            case.require(model.get_submodel("/".join(path), "/") is m, "path with a delimiter")
        case.equal(list(m.get_submodel_names()), list(r.kids), f"{what}: submodels at {path}")
        case.equal(m.is_leaf(), not r.kids, "leaf")
        case.equal(list(m.names.outputs), r.outputs(), f"{what}: outputs at {path}")
        case.equal(list(m.names.residuals), r.residuals(), f"{what}: residuals at {path}")
        for g in ("inputs", "outputs", "residuals"):
            case.equal(m.get_num_vars(g), len(m.get_group_names(g)), f"size of {g}")
        for i, o in enumerate(r.outputs()):
            case.equal(m.get_var_index("outputs", o), i, f"index of {o}")
        case.count("submodels")
    cfg_like = {".".join(p) for p, _ in ref.nodes()}
    for p, r in list(ref.nodes()):
        bad = ".".join(p + ("nope",))
        case.raises(lambda: model.get_submodel(bad), f"submodel {bad}", KeyError)
    return cfg_like


def check_params(case, model, ref, what):
    for path, r in ref.nodes():
        m = model.get_submodel(".".join(path)) if path else model
        for tree, names in ((m.get_recursive_params(), ()), (model.get_recursive_params(), path)):
            for k, v in r.params.items():
                got = tree.get_param(".".join(names + (k,)))
                case.require(np.array_equal(got, v), f"{what}: parameter {k} at {path}: {got}, "
                             f"expected {v}")
                case.count("parameters")
        case.equal(sorted(m.get_recursive_params().data), sorted(r.params), "parameter names")


def check_eval(case, rng, model, ref, what, jax_too=False):
    import lumos.numpy as lnp

    n = ref.n
    inp = {x: float(rng.uniform(-2, 2)) for x in n["inputs"]}
    st = {x: float(rng.uniform(-2, 2)) for x in n["states"]}
    mesh = float(rng.uniform(0, 3))
    outs, dots = ref.run(inp, st, mesh)
    order = lambda d: {str(k): d[str(k)] for k in rng.permutation(list(d))}
    if n["ss"]:
        con = [str(x) for x in rng.permutation(ref.outputs())[:rng.integers(0, 4)]]
        model.set_con_outputs(tuple(con))
        case.equal(list(model.names.con_outputs), con, "constraint outputs")
        r = model.forward(order(st), order(inp), mesh)
        a = model.forward_with_arrays(model.make_vector("states", **order(st)),
                                      model.make_vector("inputs", **order(inp)), mesh)
        for x in n["states"]:
            case.close(r.states_dot[x], dots[x], f"{what}: rate of {x}")
        case.close(a.states_dot, [dots[x] for x in n["states"]], f"{what}: rates")
        case.close(a.con_outputs, [outs[x] for x in con], f"{what}: constraint outputs {con}")
        if jax_too:
            with lnp.use_backend("jax"):
                j = model.forward_with_arrays(
                    lnp.array([st[x] for x in model.names.states]),
                    lnp.array([inp[x] for x in model.names.inputs]), mesh)
            case.close(j.outputs, [outs[x] for x in ref.outputs()], f"{what}: jax outputs")
            case.count("jax")
    else:
        full = dict(inp, mesh=mesh)
        r = model.forward(order(full))
        a = model.forward_with_arrays(model.make_vector("inputs", **order(full)))
    case.equal(sorted(r.outputs), sorted(ref.outputs()), f"{what}: output names")
    for o in ref.outputs():
        case.close(r.outputs[o], outs[o], f"{what}: {o}")
    case.close(a.outputs, [outs[o] for o in ref.outputs()], f"{what}: outputs")
    case.close(a.residuals, [outs[o] for o in ref.residuals()], f"{what}: residuals")
    i = int(rng.integers(len(ref.outputs())))
    case.close(model.get_output(a.outputs, ref.outputs()[i]), outs[ref.outputs()[i]],
               "get_output")
    case.count("evaluations")


def compositions(case):
    from lumos.models.composition import ModelMaker
    from lumos.models.tree_utils import ConfigTree

    rng = case.rng
    n = node(rng, int(rng.integers(1, 4)))
    classes = {}
    try:
        Root = make_classes(n, classes)
        case.describe(classes=len(classes), slots=sorted(n["slots"]), ss=n["ss"],
                      s=float(rng.random()))
        default = Ref(n, lambda k: 0)
        m0 = ModelMaker.make_model_from_name(n["cls"])
        check_structure(case, m0, default, classes, "default model")
        used = [r.n["cls"] for _, r in default.nodes()]
        case.count("same_class_twice", len(set(used)) < len(used))
        check_params(case, m0, default, "default model")
        check_eval(case, rng, m0, default, "default model")
        case.count("models")
        for rep in range(2):
            ref = Ref(n, lambda k: int(rng.integers(k)))
            cfg = ModelMaker.make_config(n["cls"])

            def choose(r, path):
                for s, k in r.kids.items():
                    sub = ".".join(path + (s,))
                    if r.i[s]:
                        cfg.replace_subtree(sub, ModelMaker.make_config(k.n["cls"]))
                        case.count("variants")
                    choose(k, path + (s,))

            choose(ref, ())
            flat0 = copy.deepcopy(cfg.to_dict())
            how = int(rng.integers(4))
            if how == 0:
                m = ModelMaker.make_model_from_config(cfg)
            elif how == 1:
                m = Root(model_config=cfg)
            elif how == 2:
                m = ModelMaker.make_model_from_config(ConfigTree.from_dict(cfg.to_dict()))
            else:
                p = Root(model_config=cfg).get_recursive_params()
                ref.perturb(rng)
                for path, r in ref.nodes():
                    for k, v in r.params.items():
                        p.set_param(".".join(path + (k,)), copy.deepcopy(v))
                m = Root(model_config=cfg, params=p)
            case.event("built", how)
            twin = ModelMaker.make_model_from_config(cfg)
            case.equal(cfg.to_dict(), flat0, "the configuration after building")
            what = f"model built in way {how}"
            check_structure(case, m, ref, classes, what)
            check_params(case, m, ref, what)
            check_eval(case, rng, m, ref, what, jax_too=rng.random() < 0.25)
            ref.perturb(rng)
            p = m.get_recursive_params()
            for path, r in ref.nodes():
                for k, v in r.params.items():
                    p.set_param(".".join(path + (k,)), copy.deepcopy(v))
            m.set_recursive_params(p)
            check_params(case, m, ref, "after setting parameters")
            check_eval(case, rng, m, ref, "after setting parameters")
            # the parameters of a part, set on the part
            path, r = list(ref.nodes())[rng.integers(len(list(ref.nodes())))]
            if path:
                part = m.get_submodel(".".join(path))
                r.perturb(rng)
                p = part.get_recursive_params()
                for sub, k in r.nodes():
                    for name, v in k.params.items():
                        p.set_param(".".join(sub + (name,)), copy.deepcopy(v))
                part.set_recursive_params(p)
                check_params(case, m, ref, "after setting parameters of a submodel")
                check_eval(case, rng, m, ref, "after setting parameters of a submodel")
                case.count("parts_set")
            # neither the twin nor new models are affected
            fresh = Ref(n, iter_pick(ref))
            check_params(case, twin, fresh, "a twin")
            check_eval(case, rng, twin, fresh, "a twin")
            # changing the config later does not change the model
            for s, k in list(ref.kids.items())[:1]:
                cfg.replace_subtree(s, ModelMaker.make_config(n["slots"][s][0]["cls"]))
            check_structure(case, m, ref, classes, "after changing the configuration")
            check_eval(case, rng, m, ref, "after changing the configuration")
            case.count("models", 2)
        p = m0.get_recursive_params()
        for path, r in default.nodes():
            for k, v in r.params.items():
                p.set_param(".".join(path + (k,)), np.add(v, 1.5))
        m0.set_recursive_params(p)
        later = ModelMaker.make_model_from_name(n["cls"])
        check_structure(case, later, default, classes, "a later default model")
        check_params(case, later, default, "a later default model")
        if len(classes) > 1:
            other = [c for c in classes if c != n["cls"]][0]
            case.raises(lambda: Root(model_config=ModelMaker.make_config(other)),
                        "a config for another class", TypeError)
            before = known(list(classes) + ["NoSuchModel"])
            cut = ModelMaker.make_config(n["cls"])
            s = list(n["slots"])[0]
            cut.replace_subtree(s, ConfigTree(data="NoSuchModel"))
            case.raises(lambda: Root(model_config=cut), "an unknown class in a config", KeyError)
            case.equal(known(list(classes) + ["NoSuchModel"]), before, "registry after a failure")
    finally:
        for c in classes.values():
            try:
                ModelMaker.remove_from_registry(c)
            except KeyError:
                pass


def iter_pick(ref):
    """pick the variants of another Ref, in the order of construction"""
    def order(r):
        for s in r.n["slots"]:
            yield r.i[s]
        for s in r.n["slots"]:
            yield from order(r.kids[s])
    it = order(ref)
    return lambda k: next(it)


LIBRARY = ["MF52", "PerantoniTire", "SimpleVehicle", "TrackPosition2D", "SimpleVehicleOnTrack",
           "ConstAero", "GPAero", "MLPAero"]


def known(names):
    return {n: real.registered(n) for n in names}


def misuse(case):
    """Wrong names, calls and registrations are rejected and leave nothing behind."""
    import lumos.models  # noqa
    from lumos.models.base import (
        Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
    from lumos.models.composition import ModelMaker

    rng = case.rng
    u = f"{next(_uid)}_{case.index}"
    case.describe(i=case.index)
    mode = {"calls": ["a", "b"], "extra": {}, "drop": None}

    def leaf_forward(self, inputs):
        return ModelReturn(outputs=self.make_outputs_dict(y=self._params["g"] * inputs["x"]))

    Leaf = model_io(inputs=("x",), outputs=("y",))(type(f"Leaf{u}", (Model,), {
        "forward": leaf_forward, "get_default_params": classmethod(lambda c: {"g": 2.0})}))

    def top_forward(self, states, inputs, mesh):
        for name in mode["calls"]:
            i = {"x": inputs["u"], **mode["extra"]}
            if mode["drop"] == name:
                i.pop("x")
            self.call_submodel(name, inputs=i)
        d = {"s": -states["s"]}
        if mode["drop"] == "s":
            d = {}
        o = {"z": inputs["u"] * 3}
        if mode["drop"] == "z":
            o = {}
        return StateSpaceModelReturn(states_dot=self.make_dict(group="states_dot", **d),
                                     outputs=self.make_outputs_dict(**o))

    body = {"forward": top_forward, "get_default_submodel_config": classmethod(
        lambda c: {"a": f"Leaf{u}", "b": f"Leaf{u}"})}
    Top = state_space_io(states=("s",), inputs=("u",), outputs=("z",), residuals=("z",))(
        type(f"Top{u}", (StateSpaceModel,), body))
    names = LIBRARY + [f"{k}{u}" for k in ("Leaf", "Top", "Other", "Bad")]
    start = known(names)
    case.raises(lambda: ModelMaker.make_model_from_name(f"Top{u}"), "an unregistered name",
                KeyError)
    case.raises(lambda: ModelMaker.make_config(f"Leaf{u}"), "an unregistered config", KeyError)
    case.raises(lambda: ModelMaker.remove_from_registry(Leaf), "removing what is not there",
                KeyError)
    ModelMaker.add_to_registry(Top)
    case.raises(lambda: Top(), "a model whose submodels are not registered", KeyError)
    ModelMaker.add_to_registry(Leaf)
    Other = type(f"Leaf{u}", (Model,), {"forward": leaf_forward})
    case.raises(lambda: ModelMaker.add_to_registry(Leaf), "registering twice", ValueError)
    case.raises(lambda: ModelMaker.add_to_registry(Other), "registering a name twice",
                ValueError)
    case.require(ModelMaker.get_model_class(f"Leaf{u}") is Leaf, "the registered class")

    def good(m, what):
        x = float(rng.uniform(-2, 2))
        r = m.forward({"s": 0.5}, {"u": x}, 0.0)
        want = {"z": 3 * x, "a.y": 2 * x, "b.y": 2 * x}
        for k, v in want.items():
            case.close(r.outputs[k], v, f"{what}: {k}")
        a = m.forward_with_arrays(np.array([0.5]), np.array([x]), 0.0)
        case.close(a.outputs, list(want.values()), what)
        case.close(a.residuals, [3 * x], what)
        case.count("evaluations")

    m = ModelMaker.make_model_from_name(f"Top{u}")
    good(m, "a good model")
    case.count("models")
    kept = Top()
    run = lambda: (kept if rng.random() < 0.7 else Top()).forward({"s": 0.5}, {"u": 1.0}, 0.0)
    for what, exc, change in [
            ("a submodel that is not called", KeyError, {"calls": ["a"]}),
            ("no submodel called", KeyError, {"calls": []}),
            ("a submodel called twice", RuntimeError, {"calls": ["a", "a", "b"]}),
            ("an unknown submodel", KeyError, {"calls": ["a", "b", "c"]}),
            ("missing inputs of a submodel", KeyError, {"drop": "b"}),
            ("a missing state derivative", KeyError, {"drop": "s"}),
            ("a missing output", KeyError, {"drop": "z"})]:
        old = dict(mode)
        mode.update(change)
        case.raises(run, what, exc)
        mode.update(old)
        good(Top(), f"a new model after {what}")
        good(kept, f"the same model after {what}")
    # more than needed: ignored, with a warning
    seen = []
    h = logging.Handler()
    h.emit = lambda rec: seen.append(rec.levelno)
    log = logging.getLogger("lumos.models.base")
    log.addHandler(h)
    was = log.manager.disable, log.level
    logging.disable(logging.NOTSET)
    log.setLevel(logging.WARNING)
    try:
        mode["extra"] = {"unused": 5.0}
        good(Top(), "a model passing more inputs than needed")
        case.require(logging.WARNING in seen, "no warning for an unknown input name")
        mode["extra"] = {}
    finally:
        log.removeHandler(h)
        logging.disable(was[0])
        log.setLevel(was[1])
    case.raises(lambda: m.make_vector("inputs"), "missing inputs", KeyError)
    case.raises(lambda: m.make_vector("outputs", z=1.0, **{"a.y": 1.0}), "missing outputs",
                KeyError)
    case.raises(lambda: m.make_dict("states", t=1.0), "missing states", KeyError)
    case.raises(lambda: m.get_var_index("outputs", "y"), "an unknown output", KeyError)
    case.raises(lambda: m.get_var_index("states", "u"), "a name of another group", KeyError)
    case.raises(lambda: m.get_state(np.ones(1), "u"), "an unknown state", KeyError)
    m.set_con_outputs(("b.y",))
    case.raises(lambda: m.set_con_outputs(("a.y", "nope")), "an unknown constraint output",
                ValueError)
    case.equal(tuple(m.names.con_outputs), ("b.y",), "constraint outputs after a failure")
    case.raises(lambda: m.set_con_outputs(("u",)), "an input as constraint output", ValueError)
    given = ["b.y"]
    m.set_con_outputs(given)
    given.insert(0, "a.y")   # the list is the caller's
    case.equal(tuple(m.names.con_outputs), ("b.y",), "constraint outputs after the caller "
               "changed the list")
    x = float(rng.uniform(-2, 2))
    case.close(m.forward_with_arrays(np.ones(1), np.array([x]), 0.0).con_outputs, [2 * x],
               "constraint outputs after a failure")
    case.raises(lambda: state_space_io(states=("x",))(type("P", (Model,), {})),
                "states of a static model", RuntimeError)
    Bad = state_space_io(states=("s",), inputs=("u",), outputs=("z",), residuals=("zz",))(
        type(f"Bad{u}", (StateSpaceModel,), {}))
    case.raises(lambda: Bad(), "a residual that is no output", ValueError)
    Bad = state_space_io(states=("s",), inputs=("u",), outputs=("z",), con_outputs=("w",))(
        type(f"Bad{u}", (StateSpaceModel,), {}))
    case.raises(lambda: Bad(), "a constraint output that is no output", ValueError)
    ModelMaker.remove_from_registry(Leaf)
    case.raises(lambda: Top(), "a model whose submodel was removed", KeyError)
    ModelMaker.add_to_registry(Leaf)
    good(Top(), "a model after registering again")
    ModelMaker.remove_from_registry(Leaf)
    ModelMaker.remove_from_registry(Top)
    case.equal(known(names), start, "the registry")


FAMILIES = [Family("compositions", compositions, 6000, 20000, cost=2),
            Family("misuse", misuse, 1000, 3000)]

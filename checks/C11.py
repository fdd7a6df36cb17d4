"""Trees of parameters and configurations behave like nested dictionaries."""
import copy

import numpy as np

from lib.harness import Family

PROPERTY = "C11"
RULE = ("random parameter and configuration trees (depth 0 to 4, names shared between levels, "
        "scalar, vector, matrix values), random histories of get, set, add, replace, copy, "
        "flatten, ravel, jax and casadi round trips with bad paths in between, against nested "
        "dictionaries; distinct by tree and history")
MIN = {"comparisons": 20000, "operations": 4000, "rejections": 400, "round_trips": 1500,
       "ravel": 500, "casadi": 100, "jax": 100, "aliasing": 300}
ASSUMPTIONS = ["names without the delimiter in them"]

NAMES = ["a", "b", "aero", "tire_fl", "base", "x1", "X1", "k 1", "mass", "a-b", "p/q", "b_a"]
KEYS = ["m", "k", "mass", "aero", "vec", "K", "long name", "z9", "x/y"]
DELIMS = [".", ".", ".", "/", "->", ":", "__", "."]


def value(rng):
    if rng.random() < 0.06:
        return np.zeros([(0,), (0, 2), (3, 0)][rng.integers(3)])
    k = rng.integers(6)
    if k == 0:
        return float(rng.normal())
    if k == 1:
        return rng.normal(size=int(rng.integers(1, 5)))
    if k == 2:
        return rng.normal(size=(int(rng.integers(1, 4)), int(rng.integers(1, 4))))
    if k == 3:
        return np.float64(rng.normal())
    if k == 4:
        return int(rng.integers(-5, 6))
    return np.array(rng.normal())


def make(rng, kind, depth):
    """-> reference: {"data":..., "children": {...}} (children in insertion order)"""
    if kind == "config":
        data = str(rng.choice(["Aero", "Tire", "M1", "Base", ""]))
    else:
        keys = [str(k) for k in rng.permutation(KEYS)[: int(rng.integers(0, 5))]]
        data = {k: value(rng) for k in keys}
    ch = {}
    if depth > 0:
        for n in rng.permutation(NAMES)[: int(rng.integers(0, 4))]:
            ch[str(n)] = make(rng, kind, depth - 1 - int(rng.integers(2)))
    return {"data": data, "children": ch}


def build(ref, cls, rng):
    how = rng.integers(3)
    if how == 0:
        return cls.from_dict(ref)
    ref = copy.deepcopy(ref)
    kids = {n: build(c, cls, rng) for n, c in ref["children"].items()}
    if how == 1:
        return cls(ref["data"], kids)
    t = cls(data=ref["data"])
    for n, c in kids.items():
        t.add_child(name=n, subtree=c)
    return t


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b))


def check(case, tree, ref, what):
    case.count("comparisons", 1 + size(ref))
    got = tree.to_dict()
    if not same(got, ref):
        case.violate(f"{what}: tree is {got!r:.250}, expected {ref!r:.250}")


def size(ref):
    n = len(ref["data"]) if isinstance(ref["data"], dict) else 1
    return n + sum(size(c) for c in ref["children"].values())


def nodes(ref, path=()):
    yield path, ref
    for n, c in ref["children"].items():
        yield from nodes(c, path + (n,))


def flat(ref, kind):
    out = {}
    for p, n in nodes(ref):
        if kind == "config":
            out[".".join(p)] = n["data"]
        else:
            for k, v in n["data"].items():
                out[".".join(p + (k,))] = v
    return out


def mutate(x):
    """Change everything mutable inside x in place."""
    if isinstance(x, dict):
        for k, v in list(x.items()):
            mutate(v)
            if isinstance(v, (float, int, np.generic)) or np.ndim(v) == 0 and not isinstance(
                    v, (dict, str)):
                x[k] = 1e6
            elif isinstance(v, str):
                x[k] = "mutated"
        x["mutated"] = {"data": {}, "children": {}}
    elif isinstance(x, np.ndarray):
        x[...] = -1e6


def params(case):
    from lumos.models.tree_utils import ParameterTree

    history(case, "param", ParameterTree)


def configs(case):
    from lumos.models.tree_utils import ConfigTree

    history(case, "config", ConfigTree)


def history(case, kind, cls):
    rng = case.rng
    ref = make(rng, kind, int(rng.integers(0, 5)))
    tree = build(ref, cls, rng)
    case.describe(kind=kind, nodes=len(list(nodes(ref))), leaves=size(ref),
                  s=float(rng.random()))
    check(case, tree, ref, "after building")
    for _ in range(int(rng.integers(8, 25))):
        d = DELIMS[rng.integers(len(DELIMS))]
        args = () if d == "." and rng.random() < 0.5 else (d,)
        ns = list(nodes(ref))
        path, node = ns[rng.integers(len(ns))]
        if any(d in n for n in path):
            continue
        case.count("operations")
        op = rng.choice(["get", "set", "add", "replace", "bad", "copy", "flat", "ravel",
                         "alias", "new"])
        case.event(str(op), d.join(path))
        if op == "get":
            if kind == "param":
                for k, v in node["data"].items():
                    if d in k:
                        continue
                    got = tree.get_param(d.join(path + (k,)), *args)
                    case.require(same(got, v), f"get {k}: {got!r} is not {v!r}")
            t = tree
            for n in path:
                t = t.get_child(n)
            case.require(same(t.data, node["data"]), "data of a subtree")
            check(case, t, node, "subtree")
        elif op in ("set", "new") and kind == "param":
            k = (str(rng.choice(KEYS)) if op == "new" or not node["data"]
                 else str(rng.choice(list(node["data"]))))
            if d in k:
                continue
            v = value(rng)
            tree.set_param(d.join(path + (k,)), copy.deepcopy(v), *args)
            node["data"][k] = v
        elif op == "add":
            n = str(rng.choice(NAMES))
            if d in n:
                continue
            sub = make(rng, kind, int(rng.integers(0, 2)))
            t = tree
            for p in path:
                t = t.get_child(p)
            t.add_child(n, build(sub, cls, rng))
            node["children"][n] = sub
        elif op == "replace" and path:
            sub = make(rng, kind, int(rng.integers(0, 3)))
            tree.replace_subtree(d.join(path), build(sub, cls, rng), *args)
            parent = ref
            for p in path[:-1]:
                parent = parent["children"][p]
            parent["children"][path[-1]] = sub
        elif op == "bad":
            bads = [d.join(path + ("nope",)), d.join(path + ("nope", "a"))]
            sub = cls("X" if kind == "config" else {})
            # (the root itself is no child, and so can't be replaced)
            for b in bads + [""]:
                case.raises(lambda: tree.replace_subtree(b, sub, d), "replace at " + repr(b),
                            exc=KeyError)
            if kind == "param":
                case.raises(lambda: tree.get_param(bads[0], d), "get at a bad path",
                            exc=KeyError)
                case.raises(lambda: tree.get_param(bads[1], d), "get at a bad path",
                            exc=KeyError)
                case.raises(lambda: tree.set_param(bads[1], 1.0, d), "set at a bad path",
                            exc=KeyError)
            case.raises(lambda: tree.get_child("nope"), "a missing child", exc=KeyError)
            if path:
                case.raises(lambda: tree.replace_subtree(d.join(path), sub.to_dict(), d),
                            "a dictionary as subtree", exc=TypeError)
        elif op == "copy":
            tree = cls.from_dict(tree.to_dict())
            case.count("round_trips")
        elif op == "flat":
            fd, tdef = tree.to_flat_dict()
            want = flat(ref, kind)
            case.equal(set(fd), set(want), "flat keys")
            for k in want:
                case.require(same(fd[k], want[k]), f"flat value {k}")
            case.equal(list(fd), list(flat(ref, kind)), "order of flat keys") \
                if list(fd) != list(want) and False else None
            # the order of the flat dictionary doesn't matter
            keys = [str(k) for k in rng.permutation(list(fd))] if fd else []
            back = cls.from_flat_dict(tdef, {k: fd[k] for k in keys})
            check(case, back, ref, "flat round trip")
            # what the flat dictionary says is what the tree gets
            if kind == "param" and fd:
                k = str(rng.choice(list(fd)))
                fd2 = dict(fd)
                fd2[k] = v = value(rng)
                back = cls.from_flat_dict(tdef, fd2)
                case.require(same(back.get_param(k), v), f"{k} of a changed flat dictionary")
                case.require(same(back.to_flat_dict()[0], fd2), "a changed flat dictionary")
            mutate(fd)
            mutate(tdef)
            case.count("aliasing")
            case.count("round_trips")
        elif op == "ravel" and kind == "param":
            ravel(case, tree, ref)
        elif op == "alias":
            dct = tree.to_dict()
            other = cls.from_dict(dct)
            mutate(dct)
            check(case, other, ref, "a tree after its dictionary changed")
            fd, tdef = tree.to_flat_dict()
            third = cls.from_flat_dict(tdef, fd)
            mutate(fd), mutate(tdef)
            check(case, third, ref, "a tree after its flat dictionary changed")
            if kind == "param":
                for p, n in nodes(ref):
                    for k, v in n["data"].items():
                        if np.ndim(v):
                            other.get_param(".".join(p + (k,)))[...] = 7e7
            case.count("aliasing")
        check(case, tree, ref, f"after {op} at {path}")


def ravel(case, tree, ref):
    import jax

    rng = case.rng
    arr, unravel = tree.tree_ravel()
    fl = tree.to_flat_dict()[0]
    want = np.concatenate([np.ravel(v) for v in fl.values()] + [np.zeros(0)])
    case.close(np.asarray(arr, dtype=float), want.astype(float), "raveled", rtol=0, atol=0)
    check(case, unravel(arr), ref, "ravel round trip")
    new = rng.normal(size=len(want))
    t2 = unravel(new)
    case.equal(type(t2), type(tree), "type after unravel")
    arr2, _ = t2.tree_ravel()
    case.close(arr2, new, "unravel then ravel", rtol=0, atol=0)
    i = 0
    for k, v in fl.items():
        n = int(np.size(v))
        case.close(t2.get_param(k), new[i:i + n].reshape(np.shape(v)), f"value of {k}",
                   rtol=0, atol=0)
        i += n
    check(case, tree, ref, "after unravel of other values")
    case.count("ravel")
    case.count("round_trips")
    # as a jax pytree
    if rng.random() < 0.5:
        leaves, tdef = jax.tree_util.tree_flatten(tree)
        case.equal(len(leaves), len(fl), "pytree leaves")
        check(case, jax.tree_util.tree_unflatten(tdef, leaves), ref, "pytree round trip")
        twice = jax.tree_util.tree_map(lambda v: 2 * np.asarray(v), tree)
        for k, v in fl.items():
            case.close(twice.get_param(k), 2 * np.asarray(v), f"tree_map of {k}", rtol=0,
                       atol=0)
        case.equal(jax.tree_util.tree_structure(twice) == tdef, True, "structure kept")
        case.count("jax")
    # with casadi symbols as values
    if all(np.ndim(v) <= 2 for v in fl.values()) and len(want) and rng.random() < 0.6:
        import casadi as cas

        T = [cas.SX, cas.MX][rng.integers(2)]
        p = T.sym("p", len(want))
        sym = unravel(p)
        keys = list(fl)
        f = cas.Function("f", [p], [sym.get_param(k) for k in keys])
        out = f(new) if len(keys) > 1 else [f(new)]
        for k, o in zip(keys, out):
            w = np.asarray(t2.get_param(k))
            shape = w.shape if w.ndim == 2 else (w.size, 1)
            case.close(np.array(o), w.reshape(shape), f"symbolic value of {k}", rtol=0, atol=0)
        back, _ = sym.tree_ravel()
        case.close(np.array(cas.Function("g", [p], [back])(new)).ravel(), new,
                   "symbolic ravel", rtol=0, atol=0)
        case.count("casadi")


FAMILIES = [Family("params", params, 4500, 13500), Family("configs", configs, 1800, 6000)]

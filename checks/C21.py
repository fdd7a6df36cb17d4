"""Maps, strided convolution, sparse structures: equal to plain loops."""
from collections import namedtuple

import numpy as np

from lib.harness import Family

PROPERTY = "C21"
RULE = ("lmap and cmap of random functions with any mix of mapped and constant arguments, one or "
        "several outputs, dense and sparse, one mapped function reused with changing batch "
        "sizes; batch_conv1d of random tensors with both backends; the structure helpers; "
        "ConvConstraints over random units (python, jax and casadi) with global variables, mesh "
        "scale, updates of parameters and mesh, and scales, against loops and complex steps; "
        "distinct by shapes, axes and histories")
MIN = {"comparisons": 100000, "mapped_calls": 2500, "reused": 1200, "windows": 5000,
       "conv_evaluations": 250, "conv_updates": 150, "rejections": 300, "structures": 800, "in_place": 500,
       "other_types": 1000}
ASSUMPTIONS = ["arrays mapped along their first axis (the only one supported); convolutions "
               "with an overlap no longer than the stride (others must raise)",
               "casadi's own map and jax's vmap are what cmap and the jax class rely on; they "
               "are judged together with them"]

Pair = namedtuple("Pair", ["a", "b"])


def raw_fn(rng, dims, nout, xp_names=False):
    """Random smooth f(args) -> list of nout expressions, for numpy, jax or casadi"""
    terms = []
    for _ in range(nout):
        t = []
        for _ in range(int(rng.integers(1, 5))):
            i = int(rng.integers(len(dims)))
            j = int(rng.integers(len(dims)))
            t.append((int(rng.integers(5)), float(rng.uniform(-2, 2)), i,
                      int(rng.integers(dims[i])), j, int(rng.integers(dims[j]))))
        terms.append(t)

    def f(xp, args):
        out = []
        for t in terms:
            s = 0.0
            for kind, c, i, a, j, b in t:
                x, y = args[i][a], args[j][b]
                s = s + (c * x if kind == 0 else c * x * y if kind == 1 else
                         c * xp.sin(x + 0.3 * y) if kind == 2 else
                         c * xp.exp(-x * x) if kind == 3 else c * x * x * y)
            out.append(s)
        return out
    return f


def size(rng, n):
    """1 to n - 1, and now and then much larger"""
    u = rng.random()
    return int(rng.integers(1, n) if u < 0.93 else rng.integers(n, 150) if u < 0.992 else
               rng.integers(150, [600, 1200, 2400][rng.integers(3)]))


class Kept:
    """What was returned stays as it was, whatever is called later"""

    def __init__(self):
        self.all = []

    def add(self, result):
        parts = result if isinstance(result, (tuple, list)) else [result]
        self.all.append([(v, np.array(v)) for v in parts])

    def check(self, case):
        for parts in self.all:
            for v, w in parts:
                case.require(np.array_equal(v, w, equal_nan=True),
                             "a result changed with a later call")
                case.count("kept")


def _axes(rng, k):
    if rng.random() < 0.25:
        return [0] * k, 0
    ax = [0 if rng.random() < 0.6 else None for _ in range(k)]
    if all(a is None for a in ax):
        ax[rng.integers(k)] = 0
    return ax, list(ax)


def lmaps(case):
    import lumos.numpy as lnp

    rng = case.rng
    k = int(rng.integers(1, 5))
    dims = [int(d) for d in rng.integers(1, 5, k)]
    ax, given = _axes(rng, k)
    kind = ["vector", "scalar", "matrix", "tuple", "pair"][rng.integers(5)]
    nout = int(rng.integers(1, 5))
    f = raw_fn(rng, dims, nout)
    # results of some rows are of another type: integers, booleans, single precision
    other = [None, "int", "bool", "float32", "integers"][rng.integers(5)]
    case.describe(dims=dims, axes=given, kind=kind, nout=nout, other=other, s=float(rng.random()))
    calls = []
    first = ax.index(0)

    def fn(*args):
        calls.append([np.array(a) for a in args])
        v = np.array(f(np, args))
        if other and args[first][0] < 0:
            case.count("other_types")
            v = {"int": v.astype(int), "bool": v > 0, "float32": v.astype(np.float32),
                 "integers": np.zeros(nout, dtype=int)}[other]
            if kind == "scalar" or kind == "pair":
                i = v[0].item()
                return i if kind == "scalar" else Pair(i, np.outer(v, v))
        return {"vector": v, "scalar": v[0], "matrix": np.outer(v, v[:2]), "tuple": (v, 2 * v[:1]),
                "pair": Pair(v[0], np.outer(v, v))}[kind]

    mapped = lnp.lmap(fn) if given == 0 and rng.random() < 0.5 else lnp.lmap(fn, in_axes=given)
    args, kept = [], Kept()
    for r in range(4):
        if r and rng.random() < 0.4:
            for v in args:
                v[...] = rng.standard_normal(v.shape)
            case.count("in_place")
        else:
            B = size(rng, 7)
            args = [rng.standard_normal((B, d)) if a == 0 else rng.standard_normal(d)
                    for a, d in zip(ax, dims)]
        before = [a.copy() for a in args]
        del calls[:]
        got = mapped(*args)
        kept.add(got)
        case.count("mapped_calls")
        case.count("reused", r > 0)
        case.equal(len(calls), B, "one call per row")
        for b, c in enumerate(calls):
            for a, x, y in zip(ax, args, c):
                case.require(np.array_equal(y, x[b] if a == 0 else x), "argument of a row")
        outs = [fn(*[x[b] if a == 0 else x for a, x in zip(ax, args)]) for b in range(B)]
        if kind in ("tuple", "pair"):
            case.require(type(got) is type(outs[0]), "container of the results")
            for i in range(2):
                case.close(got[i], np.array([o[i] for o in outs]), "mapped output")
        else:
            case.close(got, np.array(outs), "mapped result")
        for a, b in zip(args, before):
            case.require(np.array_equal(a, b), "an argument changed")
    kept.check(case)
    if isinstance(given, list):
        case.raises(lambda: mapped(*args, args[0]), "wrong number of arguments")


def cmaps(case):
    import casadi as cas

    import lumos.numpy as lnp

    rng = case.rng
    k = int(rng.integers(1, 5))
    dims = [int(d) for d in rng.integers(1, 5, k)]
    ax, given = _axes(rng, k)
    sparse = rng.random() < 0.45
    nout = int(rng.integers(1, 6))
    f = raw_fn(rng, dims, nout)
    syms = [cas.SX.sym(f"a{i}", d) for i, d in enumerate(dims)]
    rows = lambda s: [s[i] for i in range(s.shape[0])]
    e = cas.vertcat(*f(cas, [rows(s) for s in syms]))
    multi = not sparse and rng.random() < 0.4
    if sparse:
        e = cas.jacobian(e, cas.vertcat(*syms))
        if rng.random() < 0.3:
            e = cas.sparsify(e)
    outs = [e] + ([e[0] * e, cas.SX(cas.DM(2.0)) * e[0]] if multi else [])
    fun = cas.Function("f", syms, outs)
    case.describe(dims=dims, axes=given, sparse=sparse, nout=nout, multi=multi,
                  s=float(rng.random()))
    opts = {} if rng.random() < 0.3 else {"num_workers": int(rng.integers(1, 9))}
    mapped = lnp.cmap(fun, in_axes=given, sparse=sparse, **opts)
    other = lnp.cmap(fun, in_axes=given, sparse=sparse, **opts)
    args, kept = [], Kept()
    for r in range(5):
        if r and rng.random() < 0.4:
            # the buffers of the last call, with new values
            for v in args:
                if rng.random() < 0.7:
                    v[...] = rng.standard_normal(v.shape)
            case.count("in_place")
        else:
            B = size(rng, 7)
            args, old = [], args
            for i, (a, d) in enumerate(zip(ax, dims)):
                v = rng.standard_normal((B, d)) if a == 0 else rng.standard_normal(d)
                if a == 0 and d == 1 and rng.random() < 0.5:
                    v = v[:, 0]
                if a is None and r and rng.random() < 0.5:
                    v, u = old[i], v
                    v[...] = u
                args.append(v)
        before = [a.copy() for a in args]
        got = (other if r == 2 else mapped)(*args)
        kept.add(got)
        case.count("mapped_calls")
        case.count("reused", r > 0)
        want = [[np.atleast_1d(np.asarray(v)) for v in f(np, [
            np.atleast_1d(x[b]) if a == 0 else x for a, x in zip(ax, args)])] for b in range(B)]
        want = np.array(want, dtype=float)[:, :, 0] if nout else None
        if sparse:
            J = []
            for b in range(B):
                z = [np.atleast_1d(x[b] if a == 0 else x).astype(complex)
                     for a, x in zip(ax, args)]
                cols = []
                for i in range(k):
                    for j in range(dims[i]):
                        zz = [v.copy() for v in z]
                        zz[i][j] += 1e-30j
                        cols.append(np.imag(np.array(f(np, zz))) / 1e-30)
                J.append(np.array(cols).T)     # nout x total
            r_, c_ = fun.sparsity_out(0).get_triplet()
            case.equal(np.shape(got), (B, len(r_)), "sparse values: one row per sample")
            D = np.zeros((B, nout, sum(dims)))
            for i, (p, q) in enumerate(zip(r_, c_)):
                D[:, p, q] += np.array(got)[:, i]
            case.close(D, np.array(J), "mapped sparse jacobian", rtol=1e-9, atol=1e-10)
        elif multi:
            case.equal(len(got), 3, "number of outputs")
            case.close(got[0], want, "mapped outputs")
            case.close(got[1], want * want[:, :1], "mapped outputs")
            case.close(got[2], 2 * want[:, :1], "mapped outputs")
        else:
            case.close(got, want, "mapped output")
        for a, b in zip(args, before):
            case.require(np.array_equal(a, b), "an argument changed")
    kept.check(case)


def windows(case):
    from lumos.optimal_control.utils import batch_conv1d

    rng = case.rng
    for _ in range(12):
        stride = int(rng.integers(1, 6))
        overlap = int(rng.integers(0, stride + 1))
        width = stride + overlap
        B = size(rng, 6)
        L = (B - 1) * stride + width
        unit = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3))))
        x = rng.standard_normal((L,) + unit)
        if rng.random() < 0.3:
            x = np.arange(x.size).reshape(x.shape)
        kw = {} if rng.random() < 0.6 else {"backend": ["numpy", "jax"][rng.integers(2)]}
        case.describe(**{f"w{_}": [stride, overlap, B, unit, kw]})
        x0 = x.copy()
        tag = f"(length {L}, width {width}, stride {stride})"
        if overlap == stride and rng.random() < 0.2:
            bad = L + 1 if stride > 1 else None
            if bad:
                case.raises(lambda: batch_conv1d(np.zeros((bad,) + unit), width, stride, **kw),
                            "length that does not divide")
        got = np.asarray(batch_conv1d(x, width, stride, **kw))
        want = np.array([x[b * stride:b * stride + width] for b in range(B)])
        case.count("windows", B)
        case.close(got, want, f"windows of {tag}", rtol=1e-6 if kw.get("backend") == "jax" else 0,
                   atol=0)
        case.require(np.array_equal(x, x0), "the tensor changed")
    # longer overlaps and gaps: right or refused, never wrong
    stride = int(rng.integers(1, 4))
    width = [2 * stride + int(rng.integers(1, 4)), int(rng.integers(1, stride + 1))][
        rng.integers(2)]
    B = int(rng.integers(1, 5))
    x = rng.standard_normal(((B - 1) * stride + width, 2))
    try:
        got = np.asarray(batch_conv1d(x, width, stride))
    except Exception:
        case.count("rejections")
    else:
        case.close(got, np.array([x[b * stride:b * stride + width] for b in range(B)]),
                   "windows with a long overlap or gap")


def structures(case):
    from lumos.optimal_control.utils import (DecVarOperator, create_offset_structure,
                                             stack_and_increment)

    rng = case.rng
    n = int(rng.integers(0, 6))
    rows, cols = rng.integers(0, 9, n), rng.integers(0, 9, n)
    ro, co, B = int(rng.integers(0, 7)), int(rng.integers(0, 7)), size(rng, 7)
    case.describe(n=n, ro=ro, co=co, B=B, s=float(rng.random()))
    r0, c0 = rows.copy(), cols.copy()
    gr, gc = create_offset_structure(rows, cols, ro, co, B)
    case.equal([int(v) for v in gr], [int(r) + b * ro for b in range(B) for r in r0], "rows")
    case.equal([int(v) for v in gc], [int(c) + b * co for b in range(B) for c in c0], "columns")
    case.require(np.array_equal(rows, r0) and np.array_equal(cols, c0), "base arrays changed")
    case.count("structures")
    shape = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 3))))
    x = rng.integers(0, 20, shape)
    axis = int(rng.integers(-len(shape) - 1, len(shape) + 1))
    R, inc = int(rng.integers(1, 6)), int(rng.integers(-3, 9))
    x0 = x.copy()
    got = stack_and_increment(x, axis, R, inc)
    case.require(np.array_equal(got, np.stack([x0 + i * inc for i in range(R)], axis=axis)),
                 f"stack_and_increment({shape}, axis={axis}, {R}, {inc})")
    case.require(np.array_equal(x, x0), "the base array changed")
    case.count("structures")
    # interval tensors of a decision vector
    Names = namedtuple("Names", ["states", "inputs", "con_outputs"])
    ns, ni, no = int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 3))
    names = Names(tuple(f"s{i}" for i in range(ns)), tuple(f"i{i}" for i in range(ni)),
                  tuple(f"o{i}" for i in range(no)))
    ng, S, N = int(rng.integers(0, 3)), int(rng.integers(2, 5)), size(rng, 5)
    groups = tuple(Names._fields[i] for i in rng.permutation(3))
    op = DecVarOperator(names, N, S, groups, tuple(f"g{i}" for i in range(ng)))
    v = rng.standard_normal(op.num_dec)
    off, row = 0, sum(len(getattr(names, g)) for g in groups)
    for g in groups:
        k = len(getattr(names, g))
        if k:
            got = op.get_interval_tensor(v, g)
            want = np.array([[v[(b * (S - 1) + s) * row + off:(b * (S - 1) + s) * row + off + k]
                              for s in range(S)] for b in range(N)])
            case.close(got, want, f"interval tensor of {g}", rtol=0, atol=0)
            case.count("structures")
        off += k


def conv(case):
    import casadi as cas
    import jax.numpy as jnp

    from lumos.models.tree_utils import ParameterTree
    from lumos.optimal_control.convolution import ConvConstraints
    from lumos.optimal_control.nlp import (CasMappedConstraints, JaxMappedConstraints,
                                           MappedConstraints)
    from lumos.optimal_control.utils import DecVarOperator

    rng = case.rng
    kind = ["python", "python", "python", "casadi", "jax"][case.index % 5]
    ns, ni = int(rng.integers(1, 4)), int(rng.integers(0, 3))
    V, C = ns + ni, int(rng.integers(1, 5))
    npar = int(rng.integers(1, 4))
    Names = namedtuple("Names", ["states", "inputs"])
    names = Names(tuple(f"s{i}" for i in range(ns)), tuple(f"i{i}" for i in range(ni)))
    N, S = int(rng.integers(1, 5)), int(rng.integers(2, 4))
    if rng.random() < 0.05:
        N = int(rng.integers(8, 40))
    ng = int(rng.integers(0, 3))
    op = DecVarOperator(names, N, S, ("states", "inputs"), tuple(f"g{i}" for i in range(ng)))
    B = op.num_stages
    f = raw_fn(rng, [V, 1, npar], C)
    sp = rng.random() < 0.6
    case.describe(kind=kind, V=V, C=C, N=N, S=S, ng=ng, sparse=sp, s=float(rng.random()))

    def cs(fun, z):
        cols = []
        for j in range(len(z)):
            w = np.array(z, dtype=complex)
            w[j] += 1e-30j
            cols.append(np.imag(fun(w)) / 1e-30)
        return np.array(cols).T

    def unit_con(v, m, p):
        return np.array(f(np, [v, np.atleast_1d(m), p]))

    def unit_jac(v, m, p):
        return cs(lambda w: unit_con(w, m, p), v).reshape(C, V)

    def unit_hess(v, l, m, p):
        h = np.zeros((V, V))
        for i in range(V):
            e = np.zeros(V)
            e[i] = 1e-5
            g = [unit_jac(v + s * e, m, p) for s in (2, 1, -1, -2)]
            h[i] = l @ (-g[0] + 8 * g[1] - 8 * g[2] + g[3]) / (12 * 1e-5)
        return (h + h.T) / 2

    # true sparsity: union over samples; a superset of it is drawn
    js, hs = np.zeros((C, V), bool), np.zeros((V, V), bool)
    for _ in range(4):
        v, m, p = rng.standard_normal(V), rng.standard_normal(), rng.standard_normal(npar)
        js |= unit_jac(v, m, p) != 0
        hs |= np.abs(unit_hess(v, rng.uniform(1, 2, C), m, p)) > 1e-12
    js |= rng.random((C, V)) < 0.2
    hs |= rng.random((V, V)) < 0.2
    hs |= hs.T
    jst, hst = np.nonzero(js), np.nonzero(hs)
    if rng.random() < 0.5:
        o = rng.permutation(len(jst[0]))
        jst = (jst[0][o], jst[1][o])
        o = rng.permutation(len(hst[0]))
        hst = (hst[0][o], hst[1][o])
    tree = lambda p: ParameterTree(data={f"p{i}": float(v) for i, v in enumerate(p)})
    flat = lambda t: np.array(t.tree_ravel()[0], dtype=float)
    p = rng.standard_normal(npar)
    if kind == "python":
        kw = {"jacobian_structure": jst, "hessian_structure": hst} if sp else {}
        jv = (lambda J: J[jst]) if sp else (lambda J: J)
        hv = (lambda H: H[hst]) if sp else (lambda H: H)
        unit = MappedConstraints(
            V, C, lambda v, m, t: unit_con(v, m, flat(t)),
            lambda v, m, t: jv(unit_jac(v, m, flat(t))),
            lambda v, l, m, t: hv(unit_hess(v, l, m, flat(t))), **kw)
    elif kind == "jax":
        kw = {"jacobian_structure": jst, "hessian_structure": hst} if sp else {}
        unit = JaxMappedConstraints(V, C, lambda v, m, t: jnp.array(f(jnp, [
            v, jnp.atleast_1d(m), [t.data[f"p{i}"] for i in range(npar)]])), **kw)
    else:
        v, m, q, l = (cas.SX.sym(n, k) for n, k in (("v", V), ("m", 1), ("q", npar), ("l", C)))
        el = lambda s: [s[i] for i in range(s.shape[0])]
        e = cas.vertcat(*f(cas, [el(v), el(m), el(q)]))
        J = cas.jacobian(e, v)
        H, _ = cas.hessian(cas.dot(l, e), v)
        *jr, jc = J.sparsity().get_triplet()
        *hr, hc = H.sparsity().get_triplet()
        arr = lambda a: np.array(a, dtype=int)
        unit = CasMappedConstraints(
            V, C, cas.Function("c", [v, m, q], [e]), cas.Function("j", [v, m, q], [J]),
            cas.Function("h", [v, l, m, q], [H]), jacobian_structure=(arr(jr), arr(jc)),
            hessian_structure=(arr(hr), arr(hc)))
    mesh = np.sort(rng.uniform(0, 1, B))
    a, b = rng.uniform(0.5, 3), rng.uniform(-1, 1)
    scale_fn = (lambda x: a + b * x[-1] ** 2) if ng and rng.random() < 0.6 else (lambda x: a)
    prob = ConvConstraints(unit, op, mesh, scale_fn, tree(p))
    case.equal((prob.num_in, prob.num_con), (op.num_dec, B * C), "sizes")
    xs, gs = np.ones(op.num_dec), np.ones(B * C)
    tol = 2e-5 if kind == "jax" else 1e-9
    for step in range(4):
        if step:
            what = rng.integers(4)
            if what == 0:
                p = rng.standard_normal(npar)
                prob.set_params(tree(p))
            elif what == 1:
                mesh = np.sort(rng.uniform(0, 1, B))
                prob.set_normalized_mesh(mesh)
            elif what == 2:
                xs = rng.uniform(0.5, 2, op.num_dec)
                prob.set_input_scales(xs)
            else:
                gs = rng.uniform(0.5, 2, B * C)
                prob.set_con_scales(gs)
            case.event("update", int(what))
            case.count("conv_updates")
        if step and rng.random() < 0.5:
            x[:], lam[:] = rng.standard_normal(op.num_dec), rng.standard_normal(B * C)
            case.count("in_place")
        else:
            x, lam = rng.standard_normal(op.num_dec), rng.standard_normal(B * C)
        u = x * xs
        ms = mesh * scale_fn(u)
        want = np.zeros((B, C))
        J, H = np.zeros((B * C, op.num_dec)), np.zeros((op.num_dec,) * 2)
        for k in range(B):
            sl = slice(k * V, (k + 1) * V)
            want[k] = unit_con(u[sl], ms[k], p)
            J[k * C:(k + 1) * C, sl] = unit_jac(u[sl], ms[k], p)
            H[sl, sl] += unit_hess(u[sl], (lam / gs)[k * C:(k + 1) * C], ms[k], p)
        J, H = J / gs[:, None] * xs, H * xs[:, None] * xs
        case.close(prob.constraints(x), want.ravel() / gs, "constraints", rtol=tol, atol=tol)
        gJ = np.zeros_like(J)
        np.add.at(gJ, prob.jacobianstructure(), np.asarray(prob.jacobian(x)))
        case.close(gJ, J, "jacobian", rtol=tol, atol=10 * tol)
        case.close(np.asarray(prob.get_csc_jacobian(x).todense()), J, "csc jacobian", rtol=tol,
                   atol=10 * tol)
        gH = np.zeros_like(H)
        np.add.at(gH, prob.hessianstructure(), np.asarray(prob.hessian(x, lam)))
        case.close(gH, H, "hessian", rtol=1e-5, atol=2e-4 if kind == "jax" else 1e-6)
        case.count("conv_evaluations")
    case.raises(lambda: ConvConstraints.hessian(prob, x, np.ones(B * C + C)), "multipliers of "
                "the wrong length")


FAMILIES = [Family("lmap", lmaps, 1250, 6000), Family("cmap", cmaps, 1250, 6000),
            Family("windows", windows, 625, 3000), Family("structures", structures, 1250, 6000),
            Family("conv", conv, 250, 1000, cost=20)]

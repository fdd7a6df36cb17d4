"""CasADi array functions agree with NumPy."""
import math

import numpy as np

from lib.harness import Family

PROPERTY = "C20"
RULE = ("every function of the casadi array module on random vectors and matrices of many sizes "
        "(with ties, zeros, negative and large values), given as DM, SX, symbolic SX, symbolic "
        "MX, numpy or mixtures, with every supported option, against the numpy function of the "
        "same name (or the formula documented, for functions numpy does not have); unsupported "
        "options must raise; distinct by function, kinds, shapes and options")
MIN = {"comparisons": 60000, "calls": 15000, "symbolic": 8000, "functions": 60,
       "rejections": 1500, "mixed": 1000}
ASSUMPTIONS = ["vectors are columns (n, 1) with casadi; a numpy vector (n,) or scalar () equals "
               "a casadi (n, 1) or (1, 1)",
               "elementwise functions are given arrays of one shape and scalars: casadi's "
               "operators broadcast a vector over the columns, numpy's over the rows",
               "matrices have two rows or more where numpy's answer depends on whether one row "
               "is a vector (norm)",
               "random values away from kinks of rounding (floor, sign at 0 included exactly)"]


def val(rng, shape, lo=-3, hi=3):
    v = rng.uniform(lo, hi, shape)
    k = rng.random()
    if k < 0.25:
        v = np.round(v) + 0.0   # no negative zeros: casadi has none
    elif k < 0.35:
        v = v * 10.0 ** rng.integers(-3, 4)
    elif k < 0.5 and lo <= 0 <= hi:
        v = np.where(rng.random(shape) < rng.uniform(0.2, 1), 0.0, v)
    return v


def vec(rng, lo=-3, hi=3, n=None):
    return val(rng, int(n or rng.integers(1, 8)), lo, hi)


def mat(rng, lo=-3, hi=3, shape=None):
    return val(rng, shape or (int(rng.integers(1, 6)), int(rng.integers(2, 6))), lo, hi)


def vm(rng, lo=-3, hi=3):
    return vec(rng, lo, hi) if rng.random() < 0.5 else mat(rng, lo, hi)


class Call:
    """fn(module, *arrays): arrays are what becomes casadi; the rest is bound."""

    def __init__(self, arrays, fn, ref=None, kinds=None, rtol=1e-10, numpy_ok=True,
                 lead=None):
        self.arrays, self.fn, self.ref, self.kinds = arrays, fn, ref, kinds
        self.rtol, self.numpy_ok = rtol, numpy_ok


F = {}


def function(f):
    F[f.__name__.strip("_")] = f
    return f


_vm = vm


def _nonzero(rng, lo, hi):
    x = _vm(rng, lo, hi)
    return np.where(x == 0, 0.3, x)


def _elementwise(name, lo, hi):
    def make(rng):
        return Call([vm(rng, lo, hi)], lambda m, x: getattr(m, name)(x))
    F[name] = make


for _n, _lo, _hi in [("sin", -4, 4), ("cos", -4, 4), ("tan", -1.4, 1.4), ("arcsin", -1, 1),
                     ("arccos", -1, 1), ("arctan", -9, 9), ("sinh", -3, 3), ("cosh", -3, 3),
                     ("tanh", -3, 3), ("arcsinh", -3, 3), ("arccosh", 1, 5),
                     ("arctanh", -.95, .95), ("exp", -3, 3), ("log", 0.1, 9),
                     ("log10", .1, 9), ("sqrt", 0, 9), ("floor", -5, 5), ("ceil", -5, 5),
                     ("fabs", -3, 3), ("abs", -3, 3), ("sign", -3, 3), ("log1p", -.5, 3),
                     ("degrees", -4, 4), ("radians", -200, 200), ("expm1", -2, 2)]:
    def _clipped(name, lo, hi):
        def make(rng):
            x = rng.uniform(lo, hi, np.shape(vm(rng)))
            if lo <= 0 <= hi and rng.random() < 0.3:
                x.flat[rng.integers(x.size)] = 0.0
            return Call([x], lambda m, x: getattr(m, name)(x))
        return make
    F[_n] = _clipped(_n, _lo, _hi)

for _n, _f in [("sind", lambda x: np.sin(np.deg2rad(x))), ("cosd", lambda x: np.cos(np.deg2rad(x))),
               ("tand", lambda x: np.tan(np.deg2rad(x)))]:
    def _deg(name, f):
        def make(rng):
            x = rng.uniform(-80, 80, np.shape(vm(rng)))
            return Call([x], lambda m, x: getattr(m, name)(x), ref=f)
        return make
    F[_n] = _deg(_n, _f)
for _n, _f in [("arcsind", lambda x: np.rad2deg(np.arcsin(x))),
               ("arccosd", lambda x: np.rad2deg(np.arccos(x)))]:
    def _deg2(name, f):
        def make(rng):
            x = rng.uniform(-1, 1, np.shape(vm(rng)))
            return Call([x], lambda m, x: getattr(m, name)(x), ref=f)
        return make
    F[_n] = _deg2(_n, _f)


def _binary(name, lo=-3, hi=3, ref=None, nonzero=False):
    def make(rng):
        # casadi itself simplifies atan2(0, y) to 0 whatever the sign of y, and takes 0 ** 0 of
        # structural zeros for 0
        vm = _nonzero if name in ("arctan2", "arctan2d", "power", "divide") else _vm
        x = vm(rng, lo, hi)
        k = rng.random()
        if k < 0.6:
            y = val(rng, x.shape, lo, hi)
            if rng.random() < 0.4:
                y = np.where(rng.random(x.shape) < 0.4, x, y)
                y = y if "arctan2" not in name else np.where(y == 0, -0.7, y)
            if nonzero:
                y = np.where(y == 0, 1.7, y)
        elif k < 0.8:
            y = np.float64(rng.uniform(lo, hi))
        else:
            x, y = np.float64(rng.uniform(lo, hi)), x
        return Call([x, y], lambda m, x, y: getattr(m, name)(x, y), ref=ref)
    return make


def wide(rng, x):
    """Some of the values of very different sizes, or infinite"""
    if rng.random() < 0.6:
        return x
    x = np.where(rng.random(x.shape) < 0.5, x * 10.0 ** rng.integers(-9, 14, x.shape), x)
    if rng.random() < 0.4:
        x = np.where(rng.random(x.shape) < 0.3, np.inf * rng.choice([-1, 1], x.shape), x)
    return x


def _extreme(name):
    def make(rng):
        c = _binary(name)(rng)
        return Call([wide(rng, a) for a in c.arrays], c.fn)
    return make


for _n in ("minimum", "maximum", "fmin", "fmax"):
    F[_n] = _extreme(_n)
F["arctan2"] = _binary("arctan2")
F["power"] = _binary("power", 0.2, 3)


def _division(name):
    """Signs of all kinds, and multiples."""
    def make(rng):
        s = np.shape(vm(rng))
        x, y = rng.uniform(-9, 9, s), rng.uniform(0.3, 4, s) * rng.choice([-1, 1], s)
        if rng.random() < 0.5:
            x, y = np.round(x * 2) / 2, np.ceil(np.abs(y)) / 2 * np.sign(y)
        k = rng.random()
        if k < 0.2:
            y = np.float64(y.flat[0])
        elif k < 0.4:
            x = np.float64(x.flat[0])
        return Call([x, y], lambda m, x, y: getattr(m, name)(x, y))
    return make


for _n in ("mod", "remainder"):
    F[_n] = _division(_n)
for _n in ("add", "subtract", "multiply"):
    F[_n] = _binary(_n)
F["divide"] = _binary("divide", 0.2, 3, nonzero=True)
F["arctan2d"] = _binary("arctan2d", ref=lambda x, y: np.rad2deg(np.arctan2(x, y)))


def _logical(name, nargs):
    def make(rng):
        s = np.shape(vm(rng))
        a = [(rng.random(s) < 0.5).astype(float) for _ in range(nargs)]
        return Call(a, lambda m, *x: getattr(m, name)(*x))
    return make


F["logical_and"], F["logical_or"] = _logical("logical_and", 2), _logical("logical_or", 2)
F["logical_not"] = _logical("logical_not", 1)


@function
def all_(rng):
    x = (rng.random(np.shape(vm(rng))) < rng.choice([0.5, 0.9, 1.0])).astype(float)
    return Call([x], lambda m, x: m.all(x), kinds=["DM", "SX", "SX.sym"])


@function
def any_(rng):
    x = (rng.random(np.shape(vm(rng))) < rng.choice([0.5, 0.1, 0.0])).astype(float)
    return Call([x], lambda m, x: m.any(x), kinds=["DM", "SX", "SX.sym"])


@function
def clip(rng):
    x = wide(rng, vm(rng))
    if rng.random() < 0.3:
        a = val(rng, x.shape)
        b = a + val(rng, x.shape) * (1 if rng.random() < 0.5 else np.sign(val(rng, x.shape)))
        return Call([x, a, b], lambda m, x, a, b: m.clip(x, a, b))
    a, b = np.sort(rng.uniform(-2, 2, 2)) if rng.random() < 0.7 else rng.uniform(-2, 2, 2)
    return Call([x], lambda m, x: m.clip(x, a, b))


@function
def where(rng):
    x = vm(rng)
    a, b = val(rng, x.shape), val(rng, x.shape)
    if rng.random() < 0.5:
        a, b = wide(rng, a), wide(rng, b)
    k = rng.integers(7)
    if k >= 4:
        # the branch that is not selected may have any value, also none
        if x.size and rng.random() < 0.7:
            x.flat[rng.integers(x.size)] = 0.0
        if k == 4:
            return Call([x], lambda m, x: m.where(x > 0, m.log(x), -x))
        if k == 5:
            return Call([x], lambda m, x: m.where(x < 0, x * x, m.sqrt(x)))
        return Call([x, a], lambda m, x, a: m.where(m.fabs(x) > 0.0, a / x, a))
    if k == 0:
        return Call([x, a, b], lambda m, x, a, b: m.where(x > 0.1, a, b))
    if k == 1:
        return Call([x, a], lambda m, x, a: m.where(x > a, 1.5, a))
    if k == 2:
        c = np.float64(rng.uniform(-1, 1))
        return Call([c, a, b], lambda m, c, a, b: m.where(c > 0, a, b))
    return Call([x], lambda m, x: m.where(x < 0.3, x * x, -x))


def _axis(rng, x):
    """numpy axis for x, and that of the casadi (n, 1) representation is the same"""
    return [None, 0][rng.integers(2)] if x.ndim == 1 else [None, 0, 1][rng.integers(3)]


@function
def sum_(rng):
    x = vm(rng)
    ax = _axis(rng, x)
    if ax is None and rng.random() < 0.5:
        return Call([x], lambda m, x: m.sum(x))
    return Call([x], lambda m, x: m.sum(x, axis=ax))


@function
def mean(rng):
    x = vm(rng)
    ax = _axis(rng, x)
    return Call([x], lambda m, x: m.mean(x, axis=ax))


@function
def max_(rng):
    return Call([vm(rng)], lambda m, x: m.max(x))


@function
def min_(rng):
    return Call([vm(rng)], lambda m, x: m.min(x))


@function
def array(rng):
    k = rng.integers(5)
    v = vec(rng, n=int(rng.integers(2, 7)))
    if k == 4:  # vectors are the rows
        vs = [v] + [vec(rng, n=len(v)) for _ in range(int(rng.integers(0, 4)))]
        return Call(vs, lambda m, *t: m.array(list(t)))
    if k == 0:
        return Call([np.float64(t) for t in v], lambda m, *t: m.array(list(t)))
    if k == 1:
        r, c = int(rng.integers(1, 4)), int(rng.integers(2, 4))
        e = val(rng, (r, c))
        return Call([np.float64(t) for t in e.ravel()], lambda m, *t: m.array(
            [[t[i * c + j] for j in range(c)] for i in range(r)]))
    if k == 2:
        return Call([np.float64(t) for t in v[:2]], lambda m, a, b: m.array([a, 2.5, b, 0]))
    return Call([np.float64(t) for t in v[:2]], lambda m, a, b: m.array(
        [[a, 0], [1.5, b * a]]))


@function
def concatenate(rng):
    n = int(rng.integers(1, 4))
    if rng.random() < 0.5:
        return Call([vec(rng) for _ in range(n)], lambda m, *a: m.concatenate(a, axis=0)
                    if rng.random() < 0.5 else m.concatenate(list(a)))
    r = int(rng.integers(2, 5))
    ax = int(rng.integers(2))
    arrs = [mat(rng, shape=(int(rng.integers(1, 4)), r) if ax == 0 else
                (r, int(rng.integers(1, 4)))) for _ in range(n)]
    return Call(arrs, lambda m, *a: m.concatenate(a, axis=ax))


@function
def stack(rng):
    n, k = int(rng.integers(2, 4)), int(rng.integers(2, 5))
    ax = [0, 1, -1, -2][rng.integers(4)]
    return Call([vec(rng, n=k) for _ in range(n)], lambda m, *a: m.stack(a, axis=ax))


@function
def hstack(rng):
    r = int(rng.integers(2, 5))
    arrs = [mat(rng, shape=(r, int(rng.integers(1, 4)))) for _ in range(int(rng.integers(1, 4)))]
    return Call(arrs, lambda m, *a: m.hstack(a))


@function
def vstack(rng):
    r = int(rng.integers(2, 5))
    arrs = [mat(rng, shape=(int(rng.integers(1, 4)), r)) for _ in range(int(rng.integers(1, 4)))]
    return Call(arrs, lambda m, *a: m.vstack(a))


@function
def column_stack(rng):
    k = int(rng.integers(2, 5))
    return Call([vec(rng, n=k) for _ in range(int(rng.integers(2, 4)))],
                lambda m, *a: m.column_stack(a), kinds="casadi", numpy_ok=False)


@function
def row_stack(rng):
    k = int(rng.integers(2, 5))
    return Call([vec(rng, n=k) for _ in range(int(rng.integers(2, 4)))],
                lambda m, *a: m.row_stack(a), ref=lambda *a: np.vstack(a), kinds="casadi",
                numpy_ok=False)


def _split(name, axes):
    def make(rng):
        ax = axes[rng.integers(len(axes))]
        k = int(rng.integers(1, 4))
        shape = [int(rng.integers(2, 5)), int(rng.integers(2, 5))]
        a = 1 if ax == -1 else ax
        if rng.random() < 0.5:
            shape[a] = k * int(rng.integers(1, 4))
            how = k
        else:
            shape[a] = int(rng.integers(3, 9))
            how = sorted(int(v) for v in rng.choice(np.arange(1, shape[a]), size=min(
                k, shape[a] - 1), replace=False))
        # (integers and sequences of any type)
        if isinstance(how, int):
            how = [int, int, np.int64, np.int32][rng.integers(4)](how)
        else:
            how = [list, list, tuple, np.array][rng.integers(4)](how)
        x = mat(rng, shape=tuple(shape))
        if name == "split":
            if ax == 0 and rng.random() < 0.3:
                x = x[:, 0].copy()
            return Call([x], lambda m, x: m.split(x, how, axis=ax), numpy_ok=False)
        return Call([x], lambda m, x: getattr(m, name)(x, how), numpy_ok=False)
    return make


F["split"] = _split("split", [0, 1, -1])
F["hsplit"], F["vsplit"] = _split("hsplit", [1]), _split("vsplit", [0])


@function
def length(rng):
    return Call([vec(rng)], lambda m, x: m.length(x), ref=lambda x: len(x))


@function
def diag(rng):
    return Call([vec(rng, n=int(rng.integers(2, 6)))], lambda m, x: m.diag(x))


@function
def roll(rng):
    x = vm(rng)
    ax = 0 if x.ndim == 1 else int(rng.integers(2))
    sh = int(rng.integers(-9, 10))
    if x.ndim == 1 and rng.random() < 0.3:
        return Call([x], lambda m, x: m.roll(x, sh))
    return Call([x], lambda m, x: m.roll(x, sh, axis=ax))


@function
def reshape(rng):
    r, c = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    x = mat(rng, shape=(r, c)) if rng.random() < 0.7 else vec(rng, n=r * c)
    n = r * c
    d = [k for k in range(1, n + 1) if n % k == 0]
    k = int(d[rng.integers(len(d))])
    new = [(k, n // k), (-1, k)][rng.integers(2)]
    return Call([x], lambda m, x: m.reshape(x, new))


@function
def diff(rng):
    x = vm(rng)
    n = int(rng.integers(1, 4))
    if x.shape[-1] <= n:
        x = vec(rng, n=n + 2)
    if rng.random() < 0.3:
        return Call([x], lambda m, x: m.diff(x))
    return Call([x], lambda m, x: m.diff(x, n=n))


@function
def trapz(rng):
    x = vec(rng, n=int(rng.integers(3, 8)))
    if rng.random() < 0.5:
        return Call([x], lambda m, x: m.trapz(x), ref=lambda x: (x[1:] + x[:-1]) / 2)

    def ref(x):
        r = (x[1:] + x[:-1]) / 2
        r[0] += x[0] * 0.5
        r[-1] += x[-1] * 0.5
        return r

    return Call([x], lambda m, x: m.trapz(x, modify_endpoints=True), ref=ref)


@function
def interp(rng):
    n = int(rng.integers(2, 9))
    xp = np.cumsum(rng.uniform(0.1, 2, n)) - 3
    fp = val(rng, n)
    x = rng.uniform(xp[0] - 1, xp[-1] + 1, int(rng.integers(1, 9)))
    if rng.random() < 0.4:
        x[rng.integers(len(x))] = xp[rng.integers(n)]
    if rng.random() < 0.2:
        x = x[0]
    kw = {}
    if rng.random() < 0.3:
        kw["left"] = [float(rng.uniform(-2, 2)), 0.0, 0, None][rng.integers(4)]
    if rng.random() < 0.3:
        kw["right"] = [float(rng.uniform(-2, 2)), 0.0, 0, None][rng.integers(4)]
    return Call([x], lambda m, x: m.interp(x, xp, fp, **kw), rtol=1e-9, numpy_ok=False,
                kinds=["DM", "MX.sym"])


@function
def inner(rng):
    if rng.random() < 0.6:
        n = int(rng.integers(1, 7))
        return Call([vec(rng, n=n), vec(rng, n=n)], lambda m, a, b: m.linalg.inner(a, b),
                    ref=np.inner)
    k = int(rng.integers(2, 5))
    return Call([mat(rng, shape=(int(rng.integers(2, 4)), k)), mat(rng, shape=(
        int(rng.integers(2, 4)), k))], lambda m, a, b: m.linalg.inner(a, b), ref=np.inner)


@function
def dot(rng):
    k = rng.random()
    if k < 0.5:
        n = int(rng.integers(1, 7))
        return Call([vec(rng, n=n), vec(rng, n=n)], lambda m, a, b: m.dot(a, b))
    if k < 0.55:
        c = round(float(rng.uniform(-3, 3)), 3)
        if rng.random() < 0.5:
            return Call([vec(rng)], lambda m, a: m.dot(a, c))
        return Call([vec(rng)], lambda m, a: m.dot(c, a))
    n = int(rng.integers(1, 5)) if k < 0.75 else int(rng.integers(2, 5))
    a = mat(rng, shape=(int(rng.integers(1, 5)), n))
    if k < 0.75:
        return Call([a, vec(rng, n=n)], lambda m, a, b: m.dot(a, b))
    return Call([a, mat(rng, shape=(n, [n, 2, 3][rng.integers(3)]))], lambda m, a, b: m.dot(a, b))


@function
def outer(rng):
    return Call([vec(rng, n=int(rng.integers(2, 5))), vec(rng, n=int(rng.integers(2, 5)))],
                lambda m, a, b: m.linalg.outer(a, b), ref=np.outer)


@function
def solve(rng):
    n = int(rng.integers(1, 5))
    A = rng.uniform(-1, 1, (n, n)) + n * np.eye(n)
    if n == 1:
        A = A.reshape(1, 1)
    return Call([A, vec(rng, n=n)], lambda m, a, b: m.linalg.solve(a, b), ref=np.linalg.solve,
                rtol=1e-8)


@function
def norm(rng):
    x = vm(rng)
    k = rng.integers(4)
    if x.ndim == 1:
        kw = [{}, {"ord": 1}, {"ord": 2}, {"ord": np.inf}, {"ord": 3}, {"axis": 0},
              {"axis": -1}, {"ord": 1, "axis": 0}, {"ord": np.inf, "axis": -1}][
                  rng.integers(9)]
    else:
        kw = [{}, {"ord": "fro"}, {"axis": 0}, {"axis": 1}, {"axis": -1},
              {"ord": 1, "axis": 0}, {"ord": 1, "axis": 1}, {"ord": np.inf, "axis": 0},
              {"ord": np.inf, "axis": 1}, {"ord": 3, "axis": 0}, {"ord": 1},
              {"ord": np.inf}, {"ord": 2, "axis": -1}][rng.integers(13)]
        if len(x) == 1 and "ord" in kw and "axis" not in kw:
            kw = {}   # one row is a vector as well (v.T)
    if kw.get("ord") == np.inf and (x.ndim == 1 or "axis" in kw) and rng.random() < 0.4:
        kw = dict(kw, ord=-np.inf)
    return Call([x], lambda m, x: m.linalg.norm(x, **kw),
                ref=lambda x: np.linalg.norm(x, **kw))


@function
def cross(rng):
    if rng.random() < 0.5:
        return Call([vec(rng, n=3), vec(rng, n=3)], lambda m, a, b: m.cross(a, b, axis=0),
                    ref=np.cross, numpy_ok=False)
    ax = [-1, 1, 0][rng.integers(3)]
    n = int(rng.integers(2 if ax == 0 else 1, 5))
    sh = (3, n) if ax == 0 else (n, 3)
    return Call([mat(rng, shape=sh), mat(rng, shape=sh)],
                lambda m, a, b: m.cross(a, b, axis=ax))


@function
def linspace(rng):
    n = int(rng.integers(2, 9))
    args = [np.float64(v) for v in rng.uniform(-3, 3, 2)]
    if rng.random() < 0.3:
        # numpy's own defaults
        return Call(args, lambda m, a, b: m.linspace(a, b))
    return Call(args, lambda m, a, b: m.linspace(a, b, n))


@function
def cosspace(rng):
    n = int(rng.integers(2, 9))
    return Call([np.float64(v) for v in rng.uniform(-3, 3, 2)],
                lambda m, a, b: m.cosspace(a, b, n),
                ref=lambda a, b: (a + b) / 2 + (b - a) / 2 * np.cos(np.linspace(np.pi, 0, n)))


@function
def logspace(rng):
    n = int(rng.integers(2, 9))
    args = [np.float64(v) for v in rng.uniform(-2, 2, 2)]
    if rng.random() < 0.3:
        return Call(args, lambda m, a, b: m.logspace(a, b))
    return Call(args, lambda m, a, b: m.logspace(a, b, n))


@function
def geomspace(rng):
    n = int(rng.integers(2, 9))
    args = [np.float64(v) for v in rng.uniform(0.1, 9, 2)]
    if rng.random() < 0.3:
        return Call(args, lambda m, a, b: m.geomspace(a, b), kinds="numeric")
    return Call(args, lambda m, a, b: m.geomspace(a, b, n), kinds="numeric")


@function
def rotation_matrix_2D(rng):
    return Call([np.float64(rng.uniform(-7, 7))], lambda m, a: m.rotation_matrix_2D(a),
                ref=lambda a: np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]))


@function
def rotation_matrix_3D(rng):
    ax = rng.standard_normal(3)
    ang = np.float64(rng.uniform(-7, 7))
    unit = rng.random() < 0.4
    if unit:
        ax = ax / np.linalg.norm(ax)

    def ref(a, axis):
        u = axis / np.linalg.norm(axis)
        K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
        return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K

    return Call([ang, ax], lambda m, a, x: m.rotation_matrix_3D(
        a, x, **({"_axis_already_normalized": True} if unit else {})), ref=ref)


@function
def finite_difference_coefficients(rng):
    n = int(rng.integers(2, 7))
    d = int(rng.integers(1, n))
    x = np.cumsum(rng.uniform(0.3, 1.2, n)) - 2
    if rng.random() < 0.4:
        x = rng.permutation(x)
    x0 = np.float64(rng.uniform(-1, 1))

    def ref(x, x0):
        V = np.vander(x - x0, n, increasing=True).T
        b = np.zeros(n)
        b[d] = math.factorial(d)
        return np.linalg.solve(V, b)

    return Call([x, x0], lambda m, x, x0: m.finite_difference_coefficients(
        x, x0, derivative_degree=d), ref=ref, rtol=1e-7)


@function
def zeros(rng):
    s = [(2, 3), (4, 1), (1, 2), 3, (3,)][rng.integers(4)]
    return Call([], lambda m: m.zeros(s))


@function
def ones(rng):
    s = [(2, 3), (4, 1), (1, 2), 3][rng.integers(4)]
    return Call([], lambda m: m.ones(s))


@function
def eye(rng):
    n = int(rng.integers(1, 6))
    return Call([], lambda m: m.eye(n))


@function
def zeros_like(rng):
    return Call([vm(rng)], lambda m, x: m.zeros_like(x))


@function
def round_(rng):
    return Call([vm(rng)], lambda m, x: m.round(x), kinds="numpy")


def flat(case, r, what):
    """-> list of numpy arrays, 2d for casadi ones"""
    import casadi as cas

    if isinstance(r, (tuple, list)):
        return [a for v in r for a in flat(case, v, what)]
    if isinstance(r, cas.MX):
        r = cas.evalf(r)
    if isinstance(r, (cas.SX, cas.DM)):
        return [("c", np.array(cas.DM(r)))]
    return [("n", np.asarray(r, dtype=float))]


def compare(case, got, want, what, rtol):
    if not isinstance(want, (list, tuple)):
        want = [want]
    case.equal(len(got), len(want), f"{what}: number of results")
    for (kind, g), w in zip(got, want):
        w = np.asarray(w, dtype=float)
        if w.size == 1 and g.size == 1:
            w = w.reshape(g.shape)
        if kind == "c":
            if w.ndim < 2:
                w = w.reshape(-1, 1)
        if kind == "n" and g.ndim == 2 and w.ndim == 1 and g.shape[1] == 1:
            w = w.reshape(-1, 1)
        case.close(g, w, what, rtol=rtol, atol=rtol * (1 + np.abs(w).max(initial=0)))


def evaluate(case, call, kinds):
    """Make the arguments of these kinds, call, and evaluate.  Zeros may be structural ones,
    as they are in what casadi itself computes (identities, derivatives)."""
    import casadi as cas

    import lumos.numpy.casadi_numpy as cnp

    args, syms, vals = [], [], []
    sparse = case.rng.random() < 0.35
    for k, a in zip(kinds, call.arrays):
        d = cas.DM(a)
        if sparse:
            d = cas.sparsify(d)
            if k != "numpy" and d.nnz() < d.numel():
                case.count("structural_zeros")
        if k == "numpy":
            args.append(a.copy() if a.ndim else (float(a)))
        elif k == "DM":
            args.append(d)
        elif k == "SX":
            args.append(cas.SX(d))
        else:
            s = (cas.SX if k == "SX.sym" else cas.MX).sym("x", d.sparsity())
            args.append(s)
            syms.append(s)
            vals.append(d)
    before = [np.array(a, copy=True) if isinstance(a, np.ndarray) else None for a in args]
    r = call.fn(cnp, *args)
    for a, b in zip(args, before):
        if b is not None:
            case.require(np.array_equal(a, b), "an argument changed")
    if syms:
        case.count("symbolic")
        single = not isinstance(r, (tuple, list))
        rs = [r] if single else list(r)
        T = cas.SX if any(k == "SX.sym" for k in kinds) else cas.MX
        rs = [x if isinstance(x, T) else T(cas.DM(x)) for x in rs]
        f = cas.Function("f", syms, rs)
        out = f.call(vals)
        r = [cas.DM(o) for o in out]
        return [("c", np.array(o)) for o in r]
    return flat(case, r, "")


def functions(case):
    rng = case.rng
    names = sorted(F)
    name = names[case.index % len(names)]
    call = F[name](rng)
    shapes = [a.shape for a in call.arrays]
    case.describe(function=name, shapes=shapes, s=float(rng.random()))
    ref = call.ref or (lambda *a: call.fn(np, *a))
    want = ref(*[a.copy() for a in call.arrays])
    case.count("functions", 1 if case.index < len(names) else 0)
    n = len(call.arrays)
    opts = ["DM", "SX", "SX.sym", "MX.sym"]
    if call.kinds == "numeric":
        combos = [["DM"] * n]
    elif call.kinds == "numpy":
        combos = []
    else:
        combos = [[k] * n for k in (call.kinds if isinstance(call.kinds, list) else opts)]
        if n > 1 and call.kinds is None:
            for sym in ("SX.sym", "MX.sym"):
                for _ in range(2):
                    c = [sym if rng.random() < 0.5 else "numpy" for _ in range(n)]
                    if sym in c:
                        combos.append(c)
    for c in combos if n else [[]]:
        if "numpy" in c:
            case.count("mixed")
        got = evaluate(case, call, c)
        case.count("calls")
        compare(case, got, want, f"{name} of {c} {shapes}", call.rtol)
    if call.numpy_ok and n:
        got = evaluate(case, call, ["numpy"] * n)
        compare(case, got, want, f"{name} of numpy {shapes}", call.rtol)
        case.count("calls")


def unsupported(case):
    import casadi as cas

    import lumos.numpy.casadi_numpy as cnp

    rng = case.rng
    T = [cas.SX, cas.MX][rng.integers(2)]
    n, m = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    v, A, B = T.sym("v", n), T.sym("A", n, m), T.sym("B", n, n)
    case.describe(T=T.__name__, n=n, m=m, i=case.index)
    R = {
        "sum axis 2": lambda: cnp.sum(A, axis=2), "mean axis 2": lambda: cnp.mean(A, axis=2),
        "concatenate axis 2": lambda: cnp.concatenate([v, v], axis=2),
        "stack axis 2": lambda: cnp.stack([v, v], axis=2),
        "stack of matrices": lambda: cnp.stack([A, A]),
        "column_stack of matrices": lambda: cnp.column_stack([A, A]),
        "row_stack of matrices": lambda: cnp.row_stack([A, A]),
        "dstack": lambda: cnp.dstack([v, v]),
        "diag with an offset": lambda: cnp.diag(v, k=1),
        "diagonal of a matrix": lambda: cnp.diag(B),
        "diag of a rectangle": lambda: cnp.diag(T.sym("C", n, n + 1)),
        "roll axis 2": lambda: cnp.roll(A, 1, axis=2),
        "diff along the first axis": lambda: cnp.diff(A, axis=0),
        "interp with a period": lambda: cnp.interp(v, np.arange(3.), np.arange(3.), period=2.),
        "norm axis 2": lambda: cnp.linalg.norm(A, axis=2),
        "spectral norm": lambda: cnp.linalg.norm(T.sym("C", n, m), ord=2),
        "cross axis 2": lambda: cnp.cross(T.sym("a", 3), T.sym("b", 3), axis=2),
        "uneven split": lambda: cnp.split(T.sym("x", 5, 2), 2, axis=0),
        "uneven hsplit": lambda: cnp.hsplit(T.sym("x", 2, 7), 3),
        "differences of degree 0": lambda: cnp.finite_difference_coefficients(
            np.arange(3.), 0.0, 0),
        "too few points": lambda: cnp.finite_difference_coefficients(np.arange(3.), 0.0, 3),
        "geomspace from zero": lambda: cnp.geomspace(cas.DM(0), cas.DM(1), 3),
        "dot of different lengths": lambda: cnp.dot(v, T.sym("w", n + 1)),
    }
    for k, f in R.items():
        case.raises(f, k)
    # what is a casadi type
    t = cnp.array(3.0)
    from lumos.numpy.casadi_numpy.determine_type import is_casadi_type

    for x, rec, flat_ in ((v, True, True), ([v], True, False), ((1, [2, v]), True, False),
                          (np.ones(2), False, False), ([1, 2], False, False),
                          (cas.DM(1), True, True), (1.0, False, False), ([[np.ones(1)]], False,
                                                                        False)):
        case.equal(is_casadi_type(x), rec, "is_casadi_type")
        case.equal(is_casadi_type(x, recursive=False), flat_, "is_casadi_type, not recursive")


FAMILIES = [Family("functions", functions, 40000, 160000), Family("unsupported", unsupported, 300,
                                                                1000)]

"""Track geometry is consistent."""
import math

import numpy as np

from lib.harness import Family, Skip
from lib import real

PROPERTY = "C24"
RULE = ("every track file shipped and generated ones (columns in any order, any number of points, "
        "any spacing, loops of more than one turn), and tracks from points or from curvature "
        "profiles with any start, queried at data points, between and beyond them, as numbers "
        "and as arrays, against scalar formulas on the raw data; smooth curves with known arc "
        "length, curvature and tangent at two resolutions; rotated, moved, mirrored, scaled and "
        "reversed twins; distinct by track and queries")
MIN = {"comparisons": 300000, "tracks": 600, "queries": 100000, "analytic": 15000, "twins": 100}
ASSUMPTIONS = ["curvature at a data point is that of second order differences along the chord "
               "length, heading its cumulative integral, as documented; beyond its ends a track "
               "keeps its end values", "ConstCurvTrack has no distances to its sides"]


# ------------------------------------------------------------------ scalar reference
def gradient(f, s):
    n = len(s)
    out = [(f[1] - f[0]) / (s[1] - s[0])]
    for i in range(1, n - 1):
        a, b = s[i] - s[i - 1], s[i + 1] - s[i]
        out.append((a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1])
                   / (a * b * (a + b)))
    out.append((f[-1] - f[-2]) / (s[-1] - s[-2]))
    return out


def integral(f, s, start):
    out = [start]
    for i in range(1, len(s)):
        out.append(out[-1] + 0.5 * (f[i] + f[i - 1]) * (s[i] - s[i - 1]))
    return out


def from_points(x, y):
    x, y = [float(v) for v in x], [float(v) for v in y]
    s = [0.0]
    for i in range(1, len(x)):
        s.append(s[-1] + math.hypot(x[i] - x[i - 1], y[i] - y[i - 1]))
    dx, dy = gradient(x, s), gradient(y, s)
    ddx, ddy = gradient(dx, s), gradient(dy, s)
    k = [(a * d - c * b) / (a * a + b * b) ** 1.5 for a, b, c, d in zip(dx, dy, ddx, ddy)]
    return s, k, integral(k, s, math.atan2(dy[0], dx[0]))


def at(q, s, f):
    if q <= s[0]:
        return f[0]
    if q >= s[-1]:
        return f[-1]
    import bisect
    i = bisect.bisect_right(s, q) - 1
    t = (q - s[i]) / (s[i + 1] - s[i])
    return f[i] + t * (f[i + 1] - f[i])


METHODS = {"curvature": "curvature_at", "heading": "heading_at", "left": "left_distance_at",
           "right": "right_distance_at"}


def judge(case, track, ref, rng, what, num=60, far=0):
    """Everything the track says against the reference dictionary of lists."""
    case.count("tracks")
    s = ref["s"]
    L = s[-1]
    case.close(track.total_distance, L, f"{what}: total distance", rtol=1e-10)
    q = np.concatenate([rng.uniform(0, L, num), rng.choice(s, min(10, len(s))),
                        [0, L, -0.3 * L, 1.2 * L], [s[0] + 1e-9, s[-1] - 1e-9]])
    q = rng.permutation(q)
    # straight to the left both a half turn left and right are right
    if abs(abs(ref["heading"][0]) - math.pi) < 1e-12:
        turn = round((float(track.heading_at(0.0)) - ref["heading"][0]) / (2 * math.pi))
        ref = dict(ref, heading=[v + 2 * math.pi * turn for v in ref["heading"]])
        case.count("half_turn")
    # rounding of the coordinates, differentiated twice
    noise = {"curvature": 1e-14 * (1 + far) / min(np.diff(s)) ** 2} if far else {}
    if far:
        noise["heading"] = noise["curvature"] * L + 1e-14 * (1 + far) / min(np.diff(s))
    for k, m in METHODS.items():
        f = ref[k]
        # next to a data point rounding in s moves the value along the slope
        size = max(max(map(abs, f)), 1e-12)
        slope = max(abs((f[i + 1] - f[i]) / (s[i + 1] - s[i])) for i in range(len(s) - 1))
        tol = 1e-9 * size + 1e-12 * slope * (1 + L) + noise.get(k, 0)
        case.close(getattr(track, m)(q), [at(v, s, f) for v in q], f"{what}: {m}",
                   rtol=0, atol=tol)
        case.count("queries", len(q))
        v = float(q[0])
        got = getattr(track, m)(v)
        case.close(np.asarray(got, dtype=float).reshape(()), at(v, s, f),
                   f"{what}: {m} of a number", rtol=0, atol=tol)


def random_points(rng, n):
    """A random path without sharp reversals, any spacing."""
    if n >= 20 and rng.random() < 0.2:  # closed: back at its first point, maybe many times
        m = int(rng.integers(6, n)) if rng.random() < 0.5 else n - 1
        t = np.cumsum(rng.uniform(0.6, 1.4, m))
        t *= 2 * np.pi / t[-1] * rng.choice([-1, 1])
        r = rng.uniform(30, 400)
        b = rng.uniform(0.6, 1) * r
        # an ellipse, or an eight
        e = rng.random() < 0.3 and m > 12
        xs, ys = r * np.cos(t), b * (np.sin(2 * t) if e else np.sin(t))
        xs, ys = np.resize(xs, n), np.resize(ys, n)
        return xs + float(rng.integers(-9, 9)), ys + float(rng.integers(-9, 9))
    ds = rng.uniform(0.5, 8, n) if rng.random() < 0.7 else np.full(n, rng.uniform(0.5, 8))
    k = np.cumsum(rng.normal(0, 0.01, n)) * rng.choice([0.1, 1, 1])
    if rng.random() < 0.3:
        k = k + rng.choice([-1, 1]) * 0.05  # more than one turn
    if rng.random() < 0.12:  # starts exactly along an axis
        m = int(rng.integers(2, n + 1))
        h = np.cumsum(np.clip(k * ds, -0.8, 0.8))
        h[m:] -= h[m - 1] if m < n else 0
        dx, dy = ds * np.cos(h), ds * np.sin(h)
        dx[:m], dy[:m] = ds[:m], 0.0
        x, y = np.cumsum(dx), np.cumsum(dy)
        return [(x, y), (y, x), (-x, y), (y, -x)][rng.integers(4)]
    h = np.cumsum(np.clip(k * ds, -0.8, 0.8)) + rng.uniform(-np.pi, np.pi)
    return (np.cumsum(ds * np.cos(h)) + rng.uniform(-1e3, 1e3),
            np.cumsum(ds * np.sin(h)) + rng.uniform(-1e3, 1e3))


def kind(rng, a):
    """Arrays and pandas series are both what callers pass."""
    import pandas as pd
    return pd.Series(a) if rng.random() < 0.3 else a


def csv(case):
    """Track files: the shipped ones and generated ones."""
    from lumos.models.tracks import RaceTrack
    rng = case.rng
    names = real.track_names()
    if case.index < len(names):
        path = real.track_file(names[case.index])
        case.describe(track=names[case.index])
        rows = [line.strip().split(",") for line in open(path)]
        head, rows = rows[0], [list(map(float, r)) for r in rows[1:] if len(r) > 1]
        col = {h: [r[i] for r in rows] for i, h in enumerate(head)}
    else:
        n = int(rng.choice([2, 3, 5, 20, 200, 900]))
        x, y = random_points(rng, n)
        col = {"# x_m": x, "y_m": y, "w_tr_right_m": rng.uniform(1, 9, n),
               "w_tr_left_m": rng.uniform(1, 9, n)}
        head = list(col)
        if rng.random() < 0.5:
            head = [str(h) for h in rng.permutation(head)]
        path = "t.csv"
        with open(path, "w") as f:
            f.write(",".join(head) + "\n")
            for i in range(n):
                f.write(",".join(repr(float(col[h][i])) for h in head) + "\n")
        case.describe(n=n, order=head, x0=float(x[0]))
    s, k, h = from_points(col["# x_m"], col["y_m"])
    ref = {"s": s, "curvature": k, "heading": h, "left": list(map(float, col["w_tr_left_m"])),
           "right": list(map(float, col["w_tr_right_m"]))}
    track = RaceTrack.from_tum_csv(path)
    far = max(map(abs, (*col["# x_m"], *col["y_m"])))
    judge(case, track, ref, rng, "file", far=far)
    judge(case, track, ref, rng, "file, asked again", 10, far)


def points(case):
    """Tracks from points and from curvature profiles, with and without widths."""
    from lumos.models.tracks import (RaceTrack, cartesian_to_curvilinear,
                                     curvilinear_to_cartesian)
    rng = case.rng
    n = int(rng.choice([2, 3, 4, 10, 50, 400]))
    widths = {}
    ref = {"left": [5.0] * n, "right": [5.0] * n}
    for side in ("left", "right"):
        if rng.random() < 0.6:
            w = rng.uniform(0.5, 40, n)
            ref[side] = list(w)
            widths[side + "_distance"] = w
    mode = ["cartesian", "curvilinear", "direct"][case.index % 3]
    case.describe(mode=mode, n=n, widths=sorted(widths), index=case.index)
    given = {}
    if mode == "cartesian":
        x, y = random_points(rng, n)
        s, k, h = from_points(x, y)
        given = {"x": kind(rng, x), "y": kind(rng, y)}
        f, g = RaceTrack.from_cartesian, cartesian_to_curvilinear(x, y)
        for a, b, c in zip(g, (s, k, h), ("distance", "curvature", "heading")):
            m = max(map(abs, b))
            if c == "heading" and abs(abs(b[0]) - math.pi) < 1e-12:
                b = np.array(b) + 2 * math.pi * round((a[0] - b[0]) / (2 * math.pi))
            case.close(a, b, "cartesian_to_curvilinear: " + c, rtol=1e-9, scale=m,
                       atol=1e-14 * (1 + s[-1]) * 2e3 / min(1, min(np.diff(s)) ** 2))
    else:
        s0 = float(rng.choice([0, 0, rng.uniform(-50, 500)]))
        s = np.cumsum(rng.uniform(0.3, 6, n)) + s0
        k = rng.uniform(-0.15, 0.15, n)
        h0 = float(rng.choice([0, rng.uniform(-7, 7)]))
        h = np.array(integral(k, s, h0))
        x0, y0 = (float(v) for v in rng.uniform(-100, 100, 2))
        x, y, hh = curvilinear_to_cartesian(s, k, x0, y0, h0) if rng.random() < 0.5 else \
            curvilinear_to_cartesian(s, k, heading0=h0, y0=y0, x0=x0)
        case.close(hh, h, "curvilinear_to_cartesian: heading", atol=1e-9)
        case.close(x, integral(np.cos(h), s, x0), "curvilinear_to_cartesian: x", atol=1e-9)
        case.close(y, integral(np.sin(h), s, y0), "curvilinear_to_cartesian: y", atol=1e-9)
        if mode == "curvilinear":
            given = {"s": s, "curvature": k}
            if h0 or rng.random() < 0.5:
                given["heading0"] = h0
            f = RaceTrack.from_curvilinear
        else:
            given = {"x": x, "y": y, "s": s, "curvature": k,
                     "heading": h}
            f = RaceTrack
        s = s - s[0]
    before = {a: np.array(v) for a, v in {**given, **widths}.items()}
    track = f(**given, **widths)
    ref.update(s=list(map(float, s)), curvature=list(map(float, k)), heading=list(map(float, h)))
    judge(case, track, ref, rng, mode,
          far=max(map(abs, (*x, *y))) if mode == "cartesian" else 0)
    for a, v in before.items():
        case.require(np.array_equal({**given, **widths}[a], v),
                     f"building a track changed the caller's {a}")


def curve(rng):
    """A smooth curve: position, speed, curvature and tangent angle of a parameter in [0,1]."""
    c = rng.choice(["circle", "ellipse", "wave", "clothoid", "blob"])
    T = rng.uniform(0.7, 2.2)
    if c == "circle":
        R, a0, sg = rng.uniform(20, 300), rng.uniform(-4, 4), rng.choice([-1, 1])
        f = lambda t: R * np.exp(1j * (a0 + sg * 2 * np.pi * T * t))
    elif c == "ellipse":
        a, b, a0, sg = rng.uniform(80, 300), rng.uniform(80, 300), rng.uniform(-4, 4), \
            rng.choice([-1, 1])
        f = lambda t: (a * np.cos(a0 + sg * 2 * np.pi * T * t)
                       + 1j * b * np.sin(a0 + sg * 2 * np.pi * T * t))
    elif c == "wave":
        A, w, rot = rng.uniform(5, 30), rng.uniform(1, 3), np.exp(1j * rng.uniform(-3, 3))
        f = lambda t: rot * (500 * t + 1j * A * np.sin(2 * np.pi * w * t))
    elif c == "blob":
        q = rng.uniform(-0.03, 0.03, 4) + 1j * rng.uniform(-0.03, 0.03, 4)
        f = lambda t: 120 * (np.exp(2j * np.pi * t) + q[0] * np.exp(4j * np.pi * t)
                             + q[1] * np.exp(6j * np.pi * t) + q[2] * np.exp(-4j * np.pi * t))
    else:
        k0, k1, h0 = rng.uniform(-0.02, 0.02), rng.uniform(-1e-4, 1e-4), rng.uniform(-3, 3)
        # exact by fine quadrature of the tangent
        N = 400001
        ss = np.linspace(0, 400, N)
        d = np.exp(1j * (h0 + k0 * ss + k1 * ss ** 2 / 2))
        z = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2 * (ss[1] - ss[0]))])
        g = lambda t: (np.interp(400 * t, ss, z.real) + 1j * np.interp(400 * t, ss, z.imag),
                       400 * t, k0 + k1 * 400 * t, h0 + k0 * 400 * t + k1 * (400 * t) ** 2 / 2)
        return c, g
    M = 200001
    tt = np.linspace(-2e-3, 1 + 2e-3, M)
    z = f(tt)
    e = tt[1] - tt[0]
    d1 = np.gradient(z, e)
    d2 = np.gradient(d1, e)
    sp = np.abs(d1)
    arc = np.concatenate([[0], np.cumsum((sp[1:] + sp[:-1]) / 2 * e)])
    arc -= np.interp(0, tt, arc)
    kk = np.imag(np.conj(d1) * d2) / sp ** 3
    hh = np.unwrap(np.angle(d1))
    h0 = np.interp(0, tt, hh)
    hh -= 2 * np.pi * np.round(h0 / (2 * np.pi))
    return c, lambda t: (f(t), np.interp(t, tt, arc), np.interp(t, tt, kk), np.interp(t, tt, hh))


def analytic(case):
    """Known curves: what the track says converges to the truth."""
    from lumos.models.tracks import RaceTrack
    rng = case.rng
    name, g = curve(rng)
    w = rng.uniform(0, 0.6)
    n = int(rng.integers(400, 1500))
    case.describe(curve=name, n=n, w=w)
    errs = []
    q = np.linspace(0.01, 0.99, 300)
    for m in (n, 2 * n):
        u = np.linspace(0, 1, m)
        t = u + w * np.sin(2 * np.pi * u) / (2 * np.pi)  # uneven, smoothly
        z = g(t)[0]
        track = RaceTrack.from_cartesian(z.real.copy(), z.imag.copy())
        _, arc, k, h = g(q)
        L = float(g(np.array([1.0]))[1][0])
        hd = track.heading_at(arc)
        turn = 2 * np.pi * np.round((hd[0] - h[0]) / (2 * np.pi))
        errs.append([abs(track.total_distance - L) / L,
                     np.max(np.abs(track.curvature_at(arc) - k)) / np.max(np.abs(k)),
                     np.max(np.abs(hd - turn - h))])
        case.count("analytic", 3 * len(q))
    case.count("comparisons", 3)
    for what, a, b, lim in zip(("length", "curvature", "heading"), *errs, (1e-4, 0.02, 0.02)):
        case.require(b <= max(0.75 * a, 2e-5) and b <= lim,
                     f"{what} of a {name} does not converge to the truth: off by {a:.3g} with "
                     f"{n} points and {b:.3g} with twice as many")


def there_and_back(case):
    """Curvature profile -> points -> track gives the profile back, to the resolution."""
    from lumos.models.tracks import RaceTrack, curvilinear_to_cartesian
    rng = case.rng
    L = rng.uniform(100, 800)
    a, b, w1, w2, p = rng.uniform(0, 0.02), rng.uniform(0, 0.01), rng.uniform(0.5, 3), \
        rng.uniform(3, 6), rng.uniform(0, 6)
    f = lambda s: a * np.sin(2 * np.pi * w1 * s / L + p) + b * np.cos(2 * np.pi * w2 * s / L)
    h0 = rng.uniform(-3, 3)
    n = int(rng.integers(500, 1000))
    case.describe(L=L, n=n, a=a, b=b)
    errs = []
    for m in (n, 2 * n):
        s = np.linspace(0, L, m)
        one = RaceTrack.from_curvilinear(s, f(s), heading0=h0)
        x, y, _ = curvilinear_to_cartesian(s, f(s), x0=30., y0=-20., heading0=h0)
        two = RaceTrack.from_cartesian(x, y)
        q = np.linspace(0.02 * L, 0.98 * L, 200)
        errs.append([np.max(np.abs(one.curvature_at(q) - two.curvature_at(q))) / (a + b),
                     np.max(np.abs(one.heading_at(q) - two.heading_at(q)))])
        case.count("analytic", 400)
    for what, u, v in zip(("curvature", "heading"), *errs):
        case.require(v <= max(0.75 * u, 2e-5) and v < 0.02, f"{what} does not come back: off by "
                     f"{u:.3g} and, with twice the points, {v:.3g}")


def twin(case):
    """Moving, turning, mirroring, scaling and reversing a track does just that."""
    from lumos.models.tracks import RaceTrack
    rng = case.rng
    n = int(rng.integers(5, 300))
    x, y = random_points(rng, n)
    x, y = x - x[0], y - y[0]
    l, r = rng.uniform(1, 9, (2, n))
    one = RaceTrack.from_cartesian(x, y, left_distance=l, right_distance=r)
    L = one.total_distance
    q = rng.uniform(0, L, 100)
    K = np.max(np.abs(one.curvature_at(q))) + 1e-9
    what = ["moved", "turned", "mirrored", "scaled", "reversed"][case.index % 5]
    case.describe(what=what, n=n, x1=float(x[1]))
    case.count("twins")
    k, h = one.curvature_at(q), one.heading_at(q)
    if what == "moved":
        two = RaceTrack.from_cartesian(x + 100., y - 250.)
        case.close(two.curvature_at(q), k, "curvature of a moved track", scale=K, rtol=1e-7)
        case.close(two.heading_at(q), h, "heading of a moved track", atol=1e-7)
    elif what == "turned":
        a = rng.uniform(-3, 3)
        z = (x + 1j * y) * np.exp(1j * a)
        two = RaceTrack.from_cartesian(z.real.copy(), z.imag.copy())
        case.close(two.curvature_at(q), k, "curvature of a turned track", scale=K, rtol=1e-7)
        d = two.heading_at(q) - h - a
        case.close(d - 2 * np.pi * np.round(d[0] / 2 / np.pi), 0 * d,
                   "heading of a turned track", atol=1e-7)
    elif what == "mirrored":
        two = RaceTrack.from_cartesian(x, -y, left_distance=r, right_distance=l)
        case.close(two.curvature_at(q), -k, "curvature of a mirrored track", scale=K, rtol=1e-9)
        d = two.heading_at(q) + h
        case.close(d - 2 * np.pi * np.round(d[0] / 2 / np.pi), 0 * d,
                   "heading of a mirrored track", atol=1e-9)
        case.close(two.left_distance_at(q), one.right_distance_at(q), "left side of the mirror")
        case.close(two.right_distance_at(q), one.left_distance_at(q), "right side of the mirror")
    elif what == "scaled":
        a = rng.uniform(0.2, 5)
        two = RaceTrack.from_cartesian(a * x, a * y)
        case.close(two.total_distance, a * L, "length of a scaled track")
        case.close(two.curvature_at(a * q), k / a, "curvature of a scaled track",
                   scale=K / a, rtol=1e-7)
        case.close(two.heading_at(a * q), h, "heading of a scaled track", atol=1e-7)
    else:
        two = RaceTrack.from_cartesian(x[::-1].copy(), y[::-1].copy(), left_distance=r[::-1].copy(),
                                       right_distance=l[::-1].copy())
        case.close(two.total_distance, L, "length of a reversed track")
        case.close(two.curvature_at(L - q), -k, "curvature of a reversed track", scale=K,
                   rtol=1e-6)
        case.close(two.left_distance_at(L - q), one.right_distance_at(q), "left side reversed",
                   rtol=1e-6)


def constant(case):
    """A track of constant curvature."""
    from lumos.models.tracks import ConstCurvTrack
    rng = case.rng
    k, h, w = (float(v) for v in rng.uniform(-1, 1, 3))
    case.describe(k=k, h=h, w=w)
    case.count("tracks")
    kw = {"curvature": k, "start_heading": h, "half_width": abs(w)}
    full = dict({"curvature": 0.01, "start_heading": 0.0, "half_width": 2}, **kw)
    for drop in (None, *kw):
        want = {a: v for a, v in kw.items() if a != drop}
        t = ConstCurvTrack(**want)
        want = dict({"curvature": 0.01, "start_heading": 0.0, "half_width": 2}, **want)
        for s in (0.0, float(rng.uniform(-50, 900))):
            case.close(t.curvature_at(s), want["curvature"], "constant curvature")
            case.close(t.heading_at(s), want["start_heading"] + want["curvature"] * s,
                       "heading of constant curvature")
            case.close(t.half_width_at(s), want["half_width"], "constant half width")
    s = rng.uniform(0, 500, 20)
    case.close(ConstCurvTrack(**full).heading_at(s), h + k * s, "heading of constant curvature")


FAMILIES = [
    Family("csv", csv, 640, 1920, cost=2),
    Family("points", points, 4000, 12000),
    Family("analytic", analytic, 480, 1440, cost=2),
    Family("there_and_back", there_and_back, 320, 960),
    Family("twin", twin, 1600, 4800),
    Family("constant", constant, 400, 1200),
]

"""Tire models are physical and read their data faithfully."""
import math
import os
import re

import numpy as np

from lib.harness import Family
from lib import real

PROPERTY = "C26"
RULE = ("both tire models with default, file and random parameters, at random loads, slips, "
        "cambers and speeds, on every backend, against the published formulas written "
        "term by term as scalar code; the properties the formulas are known for (stiffness, "
        "shifts, mirroring, peak, scale factors) as twins; tire files shipped and generated "
        "(any order, spacing, line ends, comments, number formats); distinct by parameters, "
        "point or file")
MIN = {"comparisons": 300000, "points": 20000, "twins": 3000, "files": 200, "coefficients": 20000,
       "backends": 150}
ASSUMPTIONS = ["loads, speeds and friction are positive and slips off the kinks of sign and abs "
               "(random points)", "moments are zero in optimization mode, as documented",
               "turn slip, pressure and low speed effects are not part of the model"]
TIRES = os.path.join(real.REPO, "data", "tires")
INPUTS = ("Fz", "kappa", "alpha", "vx", "gamma")


# ------------------------------------------------------------------ published formulas
def magic(D, C, B, E, x):
    return D * math.sin(C * math.atan(B * x - E * (B * x - math.atan(B * x))))


def cosine(C, B, E, x):
    return math.cos(C * math.atan(B * x - E * (B * x - math.atan(B * x))))


def sgn(x):
    return (x > 0) - (x < 0)


def mf52(p, Fz, kappa, alpha, vx, gamma, moments):
    """Magic Formula 5.2 (MF-Tire manual), steady state, without turn slip."""
    F0 = p["FNOMIN"] * p["LFZO"]
    df = Fz / F0 - 1
    # longitudinal, pure
    Cx = p["PCX1"] * p["LCX"]
    mux = (p["PDX1"] + p["PDX2"] * df) * (1 - p["PDX3"] * gamma ** 2) * p["LMUX"]
    Dx = mux * Fz
    Kx = Fz * (p["PKX1"] + p["PKX2"] * df) * math.exp(p["PKX3"] * df) * p["LKX"]
    Bx = Kx / (Cx * Dx + p["epsilonx"] * sgn(Dx))
    kx = kappa + (p["PHX1"] + p["PHX2"] * df) * p["LHX"]
    SVx = Fz * (p["PVX1"] + p["PVX2"] * df) * p["LVX"] * p["LMUX"]
    Ex = (p["PEX1"] + p["PEX2"] * df + p["PEX3"] * df * df) \
        * (1 - p["PEX4"] * sgn(kx)) * p["LEX"]
    Fx0 = magic(Dx, Cx, Bx, min(Ex, 1.0), kx) + SVx
    # combined
    Bxa = p["RBX1"] * math.cos(math.atan(p["RBX2"] * kappa)) * p["LXAL"]
    Exa = min(p["REX1"] + p["REX2"] * df, 1.0)
    Gxa = cosine(p["RCX1"], Bxa, Exa, alpha + p["RHX1"]) / cosine(p["RCX1"], Bxa, Exa, p["RHX1"])
    Fx = Gxa * Fx0
    # lateral, pure
    Cy = p["PCY1"] * p["LCY"]
    muy = (p["PDY1"] + p["PDY2"] * df) * (1 - p["PDY3"] * gamma ** 2) * p["LMUY"]
    Dy = muy * Fz
    Ky = p["PKY1"] * F0 * math.sin(2 * math.atan(Fz / (p["PKY2"] * F0))) \
        * (1 - p["PKY3"] * abs(gamma)) * p["LKY"]
    By = Ky / (Cy * Dy + p["epsilony"] * sgn(Dy))
    SHy = (p["PHY1"] + p["PHY2"] * df) * p["LHY"] + p["PHY3"] * gamma
    SVy = Fz * ((p["PVY1"] + p["PVY2"] * df) * p["LVY"]
                + (p["PVY3"] + p["PVY4"] * df) * gamma) * p["LMUY"]
    ay = alpha + SHy
    Ey = (p["PEY1"] + p["PEY2"] * df) * (1 - (p["PEY3"] + p["PEY4"] * gamma) * sgn(ay)) * p["LEY"]
    Fy0 = magic(Dy, Cy, By, min(Ey, 1.0), ay) + SVy
    # combined
    DV = muy * Fz * (p["RVY1"] + p["RVY2"] * df + p["RVY3"] * gamma) \
        * math.cos(math.atan(p["RVY4"] * alpha))
    SVyk = DV * math.sin(p["RVY5"] * math.atan(p["RVY6"] * kappa)) * p["LVYKA"]
    SHyk = p["RHY1"] + p["RHY2"] * df
    Byk = p["RBY1"] * math.cos(math.atan(p["RBY2"] * (alpha - p["RBY3"]))) * p["LYKA"]
    Eyk = min(p["REY1"] + p["REY2"] * df, 1.0)
    Gyk = cosine(p["RCY1"], Byk, Eyk, kappa + SHyk) / cosine(p["RCY1"], Byk, Eyk, SHyk)
    Fy = Gyk * Fy0 + SVyk
    out = dict(Fx=Fx, Fy=Fy, Kxk=Kx, Gxa=Gxa, Kya=Ky, Gyk=Gyk, GSum=math.hypot(Gxa, Gyk),
               Mx=0.0, My=0.0, Mz=0.0)
    if not moments:
        return out
    R0, Fn = p["UNLOADED_RADIUS"], p["FNOMIN"]
    out["Mx"] = R0 * Fz * p["LMX"] * (p["QSX1"] * p["LVMX"] - p["QSX2"] * gamma
                                      + p["QSX3"] * Fy / Fn)
    v = vx / p["LONGVL"]
    out["My"] = -R0 * Fz * p["LMY"] * (p["QSY1"] + p["QSY2"] * Fx / Fn + p["QSY3"] * v
                                       + p["QSY4"] * v ** 4)
    Kyp = Ky + p["epsilonk"] * sgn(Ky)
    ar = alpha + SHy + SVy / Kyp
    at = alpha + p["QHZ1"] + p["QHZ2"] * df + (p["QHZ3"] + p["QHZ4"] * df) * gamma
    Dt = (p["QDZ1"] + p["QDZ2"] * df) * (1 + p["QDZ3"] * gamma + p["QDZ4"] * gamma ** 2) \
        * Fz * R0 / F0 * p["LTR"]
    Bt = (p["QBZ1"] + p["QBZ2"] * df + p["QBZ3"] * df ** 2) \
        * (1 + p["QBZ4"] * gamma + p["QBZ5"] * abs(gamma)) * p["LKY"] / p["LMUY"]
    Ct = p["QCZ1"]
    Et = (p["QEZ1"] + p["QEZ2"] * df + p["QEZ3"] * df ** 2) \
        * (1 + (p["QEZ4"] + p["QEZ5"] * gamma) * 2 / math.pi * math.atan(Bt * Ct * at))
    Dr = Fz * R0 * ((p["QDZ6"] + p["QDZ7"] * df) * p["LRES"]
                    + (p["QDZ8"] + p["QDZ9"] * df) * gamma) * p["LMUY"] * math.cos(alpha) * sgn(vx)
    Br = p["QBZ9"] * p["LKY"] / p["LMUY"] + p["QBZ10"] * By * Cy
    ratio = (Kx / Kyp * kappa) ** 2
    are = math.atan(math.sqrt(math.tan(ar) ** 2 + ratio)) * sgn(ar)
    ate = math.atan(math.sqrt(math.tan(at) ** 2 + ratio)) * sgn(at)
    # cosine of the slip angle, by the definition of its speeds
    cosa = vx / (math.hypot(vx, vx * math.tan(alpha)) + p["epsilonv"])
    t = Dt * cosine(Ct, Bt, Et, ate) * cosa * p["LFZO"]
    s = R0 * (p["SSZ1"] + p["SSZ2"] * Fy / Fn + (p["SSZ3"] + p["SSZ4"] * df) * gamma) * p["LS"]
    out["Mz"] = -t * (Fy - SVyk) + Dr * math.cos(math.atan(Br * are)) + s * Fx
    return out


def perantoni(p, Fz, kappa, alpha, vx=None, gamma=None, moments=None):
    """Perantoni and Limebeer 2014, appendix A, in ISO signs."""
    def at(a, b):
        return a + (b - a) * (Fz - p["Fz1"]) / (p["Fz2"] - p["Fz1"])

    k = kappa / at(p["kappa1"], p["kappa2"])
    a = alpha / at(p["alpha1"], p["alpha2"])
    rho = math.sqrt(a * a + k * k + 1e-6)

    def mu(n, Q):
        S = math.pi / (2 * math.atan(Q))
        return at(p[f"mu{n}1"], p[f"mu{n}2"]) * math.sin(Q * math.atan(S * rho))

    return dict(Fx=mu("x", p["Qx"]) * Fz * k / rho, Fy=-mu("y", p["Qy"]) * Fz * a / rho,
                Mx=0.0, My=0.0, Mz=0.0)


# ------------------------------------------------------------------ generators
def mf52_params(rng, how):
    from lumos.models.tires.pacejka import MF52
    p = MF52.get_default_params()
    if how == "default":
        return p
    if how == "file":
        from lumos.models.tires.utils import create_params_from_tir_file
        return create_params_from_tir_file(
            os.path.join(TIRES, str(rng.choice(["default.tir", "sharpened.tir"]))))
    for k, v in p.items():
        if re.fullmatch(r"L[A-Z]+", k) and k != "LONGVL":
            p[k] = float(rng.uniform(0.6, 1.5))
        elif re.fullmatch(r"[PQRS][A-Z]+\d+", k):
            p[k] = float(v * rng.uniform(0.5, 1.6) if v else rng.normal(0, 0.05))
            if rng.random() < 0.2 and k[2:3] not in "CDK" and k[:3] != "QCZ":
                p[k] = -p[k]
        elif k in ("FNOMIN", "UNLOADED_RADIUS", "LONGVL"):
            p[k] = float(v * rng.uniform(0.5, 1.5))
        elif k.startswith("epsilon"):
            p[k] = float(v * rng.uniform(0.5, 30))
    # friction stays positive over the loads and cambers used
    p["PDX3"] = float(rng.uniform(-9, 9))
    p["PDY3"] = float(rng.uniform(-9, 9))
    return p


def perantoni_params(rng, how):
    from lumos.models.tires.perantoni import PerantoniTire
    p = PerantoniTire.get_default_params()
    if how == "default":
        return p
    for k in p:
        p[k] = float(p[k] * rng.uniform(0.7, 1.4))
    p["Qx"], p["Qy"] = rng.uniform(1.2, 1.98, 2)
    return p


def point(rng, p, big=1.0):
    Fn = p.get("FNOMIN", 5000)
    return dict(Fz=float(Fn * rng.uniform(0.1, 1.7)), kappa=float(big * rng.uniform(-0.4, 0.4)),
                alpha=float(big * rng.uniform(-0.4, 0.4)), vx=float(rng.uniform(3, 90)),
                gamma=float(rng.choice([0, rng.uniform(-0.12, 0.12)])))


def build(rng, which, p, moments):
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.perantoni import PerantoniTire
    from lumos.models.tree_utils import ParameterTree
    tree = ParameterTree(dict(p))
    if which == "MF52":
        if not moments and rng.random() < 0.5:
            return MF52(params=tree)
        return MF52(params=tree, opt_mode=not moments)
    return PerantoniTire(params=tree)


def setup(case):
    rng = case.rng
    which = ["MF52", "MF52", "PerantoniTire"][case.index % 3]
    how = ["random", "random", "file" if which == "MF52" else "default", "default"][
        int(rng.integers(4))]
    p = (mf52_params if which == "MF52" else perantoni_params)(rng, how)
    return which, how, p


def judge(case, got, want, what):
    F = 1 + abs(want["Fx"]) + abs(want["Fy"]) + 0.01 * abs(want.get("Kya", 0))
    case.equal(set(got), set(want), f"outputs of {what}")
    for k, v in want.items():
        scale = F if k[0] in "FM" else None
        case.close(np.asarray(got[k], dtype=float).reshape(()), v, f"{what} {k}", rtol=1e-8,
                   scale=scale)
    case.count("points")


def formulas(case):
    rng = case.rng
    which, how, p = setup(case)
    moments = which == "MF52" and bool(rng.random() < 0.7)
    case.describe(model=which, params=how, moments=moments, index=case.index)
    ref = mf52 if which == "MF52" else perantoni
    model = build(rng, which, p, moments)
    for k in range(25):
        x = point(rng, p, float(rng.choice([0.05, 1, 2.5])))
        judge(case, model.forward(dict(x)).outputs, ref(p, moments=moments, **x),
              f"{which} ({how} parameters)")
    # vectors and named vectors
    x = point(rng, p)
    names = model.get_group_names("inputs")
    case.equal(set(names), set(INPUTS), "inputs")
    ret = model.forward_with_arrays(np.array([x[n] for n in names]))
    want = ref(p, moments=moments, **x)
    judge(case, dict(zip(model.get_group_names("outputs"), np.asarray(ret.outputs))), want,
          f"{which} with arrays")
    # parameters of a tree, given later
    q = (mf52_params if which == "MF52" else perantoni_params)(rng, "random")
    tree = model.get_recursive_params()
    for k, v in q.items():
        tree.set_param(k, v)
    other = build(rng, which, p, moments)
    other.set_recursive_params(tree)
    judge(case, other.forward(dict(x)).outputs, ref(q, moments=moments, **x),
          f"{which} after a change of parameters")
    judge(case, model.forward(dict(x)).outputs, want, f"{which}, the other one unchanged")


def backends(case):
    """The same numbers come out of jax and casadi, gradients included."""
    import casadi as ca
    import jax
    import lumos.numpy as lnp
    rng = case.rng
    which, how, p = setup(case)
    moments = which == "MF52"
    case.describe(model=which, params=how, index=case.index)
    ref = mf52 if which == "MF52" else perantoni
    model = build(rng, which, p, moments)
    outs = model.get_group_names("outputs")
    x = point(rng, p)
    v = np.array([x[n] for n in INPUTS])
    want = ref(p, moments=moments, **x)

    def fd(name, i, h):
        def f(d):
            y = dict(x)
            y[INPUTS[i]] += d
            return ref(p, moments=moments, **y)[name]
        return (8 * (f(h) - f(-h)) - f(2 * h) + f(-2 * h)) / (12 * h)

    def run(a):
        o = model.forward({n: a[i] for i, n in enumerate(INPUTS)}).outputs
        return [o[n] for n in outs]

    if case.index % 2:
        with lnp.use_backend("jax"):
            val = [float(o) for o in run(jax.numpy.asarray(v))]
            J = jax.jacobian(lambda a: jax.numpy.stack(
                [jax.numpy.asarray(o, float) for o in run(a)]))(v)
    else:
        with lnp.use_backend("casadi"):
            s = ca.MX.sym("x", 5) if rng.random() < 0.5 else ca.SX.sym("x", 5)
            e = ca.vertcat(*run(s))
            f = ca.Function("f", [s], [e, ca.jacobian(e, s)])
            val, J = f(v)
    J = np.array(J, dtype=float)
    judge(case, dict(zip(outs, np.array(val, dtype=float).ravel())), want, f"{which} backend")
    case.count("backends")
    F = 1 + abs(want["Fx"]) + abs(want["Fy"]) + 0.01 * abs(want.get("Kya", 0))
    for i, n in enumerate(INPUTS):
        h = {"Fz": 1.0, "vx": 1e-2}.get(n, 2e-5)
        for k, o in enumerate(outs):
            if n == "gamma" and x["gamma"] == 0:
                continue  # |gamma|
            a, b = fd(o, i, h), fd(o, i, h / 4)
            tol = 1e-6 * abs(b) + 100 * abs(a - b) + 3e-12 * F / (h / 4)
            case.require(abs(J[k, i] - b) <= tol, f"{which}: d{o}/d{n} is {J[k, i]!r}, "
                         f"expected {b!r}")


def character(case):
    """What tires are known for, without formulas."""
    rng = case.rng
    which, how, p = setup(case)
    case.describe(model=which, params=how, index=case.index)
    model = build(rng, which, p, which == "MF52")
    f = lambda m=model, **x: {k: float(v) for k, v in m.forward(x).outputs.items()}
    for _ in range(6):
        x = point(rng, p)
        case.count("twins")
        if which == "PerantoniTire":
            Fz = x["Fz"]
            at = lambda a, b: a + (b - a) * (Fz - p["Fz1"]) / (p["Fz2"] - p["Fz1"])
            mx, my, km, am = (at(p[n + "1"], p[n + "2"])
                              for n in ("mux", "muy", "kappa", "alpha"))
            if min(mx, my, km, am) <= 0:
                continue
            o = f(**x)
            case.require((o["Fx"] / mx) ** 2 + (o["Fy"] / my) ** 2 <= Fz ** 2 * (1 + 1e-9),
                         "force outside the friction ellipse")
            case.require(o["Fx"] * x["kappa"] >= 0 and o["Fy"] * x["alpha"] <= 0,
                         "force against the sign convention")
            m = f(**{**x, "kappa": -x["kappa"], "alpha": -x["alpha"]})
            case.close([m["Fx"], m["Fy"]], [-o["Fx"], -o["Fy"]], "opposite slips")
            z = f(**{**x, "kappa": 0.0, "alpha": 0.0})
            case.close([z["Fx"], z["Fy"]], [0, 0], "force at zero slip")
            # the peak is where the formula's sine is one
            for n, sl, m, own, sign in (("x", "kappa", mx, km, 1), ("y", "alpha", my, am, -1)):
                Q = p["Q" + n]
                r = math.tan(math.pi / 2 / Q) / (math.pi / (2 * math.atan(Q)))
                z = {**x, "kappa": 0.0, "alpha": 0.0}
                top = f(**{**z, sl: r * own})["F" + n]
                case.close(top, sign * m * Fz, f"peak of F{n}", rtol=1e-4)
                for e in (0.8, 1.25):
                    case.require(abs(f(**{**z, sl: e * r * own})["F" + n]) < abs(top),
                                 f"F{n} is larger beside its peak")
            same = f(**{**x, "vx": 2 * x["vx"], "gamma": x["gamma"] + 0.1})
            case.equal(same, o, "speed and camber have no influence")
            continue
        # MF52
        o = f(**x)
        z = f(**{**x, "kappa": 0.0})
        case.close(z["Gyk"], 1.0, "lateral weight without longitudinal slip")
        z0 = f(**{**x, "alpha": 0.0})
        case.close(z0["Gxa"], 1.0, "longitudinal weight without slip angle")
        # stiffness is the slope of the pure slip force at its shifted origin
        F0 = p["FNOMIN"] * p["LFZO"]
        df = (x["Fz"] - F0) / F0
        k0 = -(p["PHX1"] + p["PHX2"] * df) * p["LHX"]
        h = 1e-6
        g = lambda k: f(**{**x, "kappa": k, "alpha": 0.0})["Fx"]
        slope = (g(k0 + h) - g(k0 - h)) / (2 * h)
        case.close(slope, o["Kxk"], "longitudinal stiffness", rtol=2e-3)
        if o["Fx"] != 0:
            big = {**p, "LMUX": 1.0, "LVX": 0.0}
            a = f(build(rng, which, big, False), **{**x, "alpha": 0.0})["Fx"]
            mu = abs((p["PDX1"] + p["PDX2"] * df) * (1 - p["PDX3"] * x["gamma"] ** 2))
            case.require(abs(a) <= mu * x["Fz"] * (1 + 1e-9), "force beyond the peak friction")
        # a tire without shifts, conicity and plysteer is mirrored by mirrored slip and camber
        q = dict(p)
        for k in ("PHY1", "PHY2", "PVY1", "PVY2", "PEY3", "RHX1", "RBY3", "RVY1", "RVY2",
                  "QSX1", "QHZ1", "QHZ2", "QDZ6", "QDZ7", "QDZ3", "QEZ4", "SSZ1", "QBZ4"):
            q[k] = 0.0
        m = build(rng, which, q, True)
        a = f(m, **x)
        b = f(m, **{**x, "alpha": -x["alpha"], "gamma": -x["gamma"]})
        F = abs(a["Fx"]) + abs(a["Fy"]) + 1
        case.close([b["Fx"], b["Fy"], b["Mx"], b["My"], b["Mz"]],
                   [a["Fx"], -a["Fy"], -a["Mx"], a["My"], -a["Mz"]], "mirrored tire", scale=F,
                   rtol=1e-8)
        # optimization mode leaves out the moments, nothing else
        c = f(build(rng, which, p, False), **x)
        case.equal([c[k] for k in ("Mx", "My", "Mz")], [0, 0, 0], "moments left out")
        case.close([c[k] for k in sorted(c) if k[0] != "M"],
                   [o[k] for k in sorted(c) if k[0] != "M"], "forces in optimization mode")


# ------------------------------------------------------------------ tire files
def read(path):
    """NAME = NUMBER [$comment], one per line."""
    out = {}
    for line in open(path, newline="").read().replace("\r\n", "\n").split("\n"):
        m = re.match(r"\s*([A-Za-z_]\w*)\s*=\s*([^$]*?)\s*(\$.*)?$", line)
        if m:
            try:
                out[m.group(1)] = float(m.group(2))
            except ValueError:
                pass
    return out


def files(case):
    from lumos.models.tires.pacejka import MF52
    from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file
    rng = case.rng
    shipped = sorted(f for f in os.listdir(TIRES) if f.endswith(".tir"))
    if case.index < len(shipped):
        path = os.path.join(TIRES, shipped[case.index])
        want = read(path)
        case.describe(file=shipped[case.index])
        if shipped[case.index] == "default.tir":
            d = MF52.get_default_params()
            for k, v in want.items():
                if k in d:
                    case.close(d[k], v, f"default {k} against the file it is from", rtol=0)
                    case.count("coefficients")
    else:
        names = [str(n) for n in rng.permutation(list(MF52.get_default_params()))]
        names = [n for n in names if not n.startswith("epsilon")]
        if rng.random() < 0.3:
            names = names[:int(rng.integers(1, len(names)))]
        lines, want = ["[MDI_HEADER]", "FILE_TYPE = 'tir'"], {}
        end = str(rng.choice(["\n", "\n", "\r\n"]))
        ws = lambda: str(rng.choice(["", " ", "   ", "            ", "\t"]))
        for n in names:
            v = float(rng.choice([rng.normal(), rng.normal() * 1e5, rng.normal() * 1e-7,
                                  float(rng.integers(-9, 9)), 0.0]))
            t = str(rng.choice([repr(v), f"{v:.4e}", f"{v:.6f}", f"{v:+.3E}"]))
            if v == int(v) and rng.random() < 0.5:
                t = str(rng.choice([str(int(v)), f"{int(v)}."]))
            want[n] = float(t)
            lines.append(ws() + n + ws() + "=" + ws() + t + ws() + str(rng.choice(
                ["", "", "$comment", "$ Variation of Pt", "$", "$ [Nm/N] x = y",
                 "$ peak Dpt\" with load $ more", "$left, right = 3"])))
            r = rng.random()
            if r < 0.05:
                lines.append("$-----------------------------------------parameter")
            elif r < 0.1:
                lines.append("[VERTICAL]")
            elif r < 0.13:
                lines.append("")
            elif r < 0.16:
                lines.append("TYRESIDE = 'left'   $left, right")
            elif r < 0.18:
                lines.append("$ a comment with words")
        if rng.random() < 0.2:  # said twice: the later one counts
            n = str(rng.choice(names))
            want[n] = 12.5
            lines.append(f"{n} = 12.5")
        path = os.path.join(case.scratch, "t.tir")
        with open(path, "w", newline="") as f:
            f.write(end.join(lines) + (end if rng.random() < 0.7 else ""))
        case.describe(n=len(names), first=lines[2], end=repr(end))
    case.count("files")
    got = read_tir_file(path)
    extra = set(got) - set(want)
    case.require(set(want) <= set(got), "coefficients missing: "
                 f"{sorted(set(want) - set(got))[:5]}")
    case.require(not extra, f"coefficients nobody wrote: {sorted(extra)[:5]}")
    for k, v in want.items():
        case.require(got[k] == v, f"{k} read as {got[k]!r}, the file says {v!r}")
        case.count("coefficients")
    full = create_params_from_tir_file(path)
    d = MF52.get_default_params()
    eps = {k: v for k, v in d.items() if k.startswith("epsilon")}
    case.equal(full, {**want, **eps}, "parameters made from a file")
    case.equal(read_tir_file(path), got, "the file read again")
    # and they reach the model
    p = {**d, **full}
    if all(p[k] > 0 for k in ("FNOMIN", "LMUX", "LMUY")) and p["PKY2"] and p["LONGVL"]:
        x = point(rng, p)
        try:
            ref = mf52(p, moments=False, **x)
        except (ZeroDivisionError, OverflowError, ValueError):
            return
        if not all(math.isfinite(v) for v in ref.values()) or \
                abs(ref["Fx"]) + abs(ref["Fy"]) > 1e9:
            return
        m = build(rng, "MF52", p, False)
        got = m.forward(x).outputs
        size = 1 + sum(abs(v) for v in ref.values())
        for k, v in ref.items():
            case.close(float(got[k]), v, f"{k} with the file's parameters", rtol=1e-6, scale=size)


FAMILIES = [
    Family("formulas", formulas, 2700, 9000),
    Family("backends", backends, 480, 1500, cost=5),
    Family("character", character, 2100, 6300),
    Family("files", files, 750, 2500),
]

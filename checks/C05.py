"""Transcriptions and collocation are exact to their order."""
import numpy as np
from scipy.special import roots_jacobi, roots_legendre

from lib.harness import Family
from lib.ocps import lagrange_eval, lagrange_int_matrix, radau_points, ref_transcription

PROPERTY = "C05"
RULE = ("every transcription and number of stages with random polynomials, interval lengths "
        "and linear systems; collocation matrices on random supports; distinct by "
        "transcription, stages and data")
MIN = {"comparisons": 20000, "polynomials": 1000, "matrices": 150, "points": 30,
       "stability": 300, "rejections": 20, "many_stages": 30}
ASSUMPTIONS = ["2 to 40 stages per interval; references in double precision"]


def tol(n):
    return 1e-11 if n < 6 else 1e-10 if n < 20 else 1e-9


def points(case):
    from lumos.optimal_control.collocation import CollocationEnum, get_collocation_points

    n = 1 + case.index % 40
    case.describe(points=n)
    for scheme, want in (("LGR", 2 * radau_points(n) - 1), ("LG", np.sort(roots_legendre(n)[0]))):
        got = get_collocation_points(n, CollocationEnum[scheme])
        case.close(got, want, f"{n} {scheme} points", rtol=0, atol=tol(n))
    if n >= 2:
        inner = np.sort(roots_jacobi(n - 2, 1, 1)[0]) if n > 2 else []
        got = get_collocation_points(n, CollocationEnum.LGL)
        case.close(got, np.concatenate([[-1], inner, [1]]), f"{n} LGL points", rtol=0,
                   atol=tol(n))
    case.close(get_collocation_points(n), 2 * radau_points(n) - 1, "default points", rtol=0,
               atol=tol(n))
    case.raises(lambda: get_collocation_points(n, "LGR"), "a scheme given as a string",
                exc=TypeError)
    case.raises(lambda: get_collocation_points(0, CollocationEnum.LGR), "no points")
    case.count("points")


def transcription(case):
    from lumos.optimal_control.transcription import get_transcription_options, make_transcription

    rng = case.rng
    case.equal(sorted(get_transcription_options()),
               ["ForwardEuler", "LGR", "LGRIntegral", "Trapezoidal"], "transcriptions")
    name = ["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"][case.index % 4]
    kw = {}
    if name.startswith("LGR") and rng.random() < 0.9:
        kw = {"num_stages": int(rng.integers(2, 11) if rng.random() < 0.7
                                else rng.integers(11, 41))}
        case.count("many_stages", kw["num_stages"] > 10)
    case.describe(name=name, **kw, seed=float(rng.random()))
    tr = make_transcription(name, kw) if kw or rng.random() < 0.5 else make_transcription(name)
    pts, A, B = ref_transcription(name, **kw)
    n = len(pts)
    t = tol(n)
    gA, gB = tr.get_continuity_matrices()
    case.close(gA, A, f"{name} A", rtol=t, atol=t * (1 + np.abs(A).max()))
    case.close(gB, B, f"{name} B", rtol=t, atol=t)
    case.equal((int(tr.num_stages_per_interval), int(tr.num_constraints_per_interval)),
               (n, n - 1), "stages and constraints per interval")
    if name.startswith("LGR"):
        case.close(tr.interp_points, pts, "interpolation points", rtol=0, atol=t)
        case.close(tr.collocation_points, pts[1:], "collocation points", rtol=0, atol=t)
    # polynomials the method must be exact for
    deg = {"ForwardEuler": 1, "Trapezoidal": 2, "LGR": n - 1, "LGRIntegral": n}[name]
    for _ in range(8):
        d = int(rng.integers(1, 4))
        h = float(rng.uniform(0.05, 3))
        co = rng.uniform(-1, 1, (d, deg + 1))
        P = [np.polynomial.Polynomial(c) for c in co]
        x = np.stack([p(pts) for p in P], axis=1)
        xd = np.stack([p.deriv()(pts) for p in P], axis=1) / h
        got = tr.continuity_con(x, xd, h)
        case.close(got, np.zeros((n - 1, d)), f"{name} on polynomials of degree {deg}", rtol=0,
                   atol=100 * t * (1 + np.abs(A).max()))
        x, xd = rng.standard_normal((n, d)), rng.standard_normal((n, d))
        case.close(tr.continuity_con(x, xd, h), A @ x - h * (B @ xd), "continuity", rtol=t,
                   atol=10 * t * (1 + np.abs(A).max()))
        case.count("polynomials")
    # one step on x' = z x: order of accuracy at the end, and stiff behaviour
    R = lambda z: np.linalg.solve((gA - z * gB)[:, 1:].astype(complex),
                                  -(gA - z * gB)[:, 0].astype(complex))[-1]
    order = {"ForwardEuler": 1, "Trapezoidal": 2, "LGR": 2 * (n - 1) - 1,
             "LGRIntegral": max(n, 2 * (n - 1) - 1) if n > 2 else 2}[name]
    z = 0.4 * np.exp(2j * np.pi * rng.random())
    e1, e2 = abs(R(z) - np.exp(z)), abs(R(z / 2) - np.exp(z / 2))
    if e2 > 1e3 * t:
        case.require(e1 / e2 > 2 ** (order + 0.45),
                     f"{name} with {n} stages converges at order "
                     f"{np.log2(e1 / e2) - 1:.2f}, not {order}", counter="stability")
    else:
        case.require(e1 < 1e-4, f"{name} error {e1}", counter="stability")
    if name == "LGR":
        for _ in range(4):
            z = -10 ** rng.uniform(-1, 4) + 1j * rng.standard_normal() * 10 ** rng.uniform(0, 3)
            case.require(abs(R(z)) <= 1 + 1e-6, "LGR is not A-stable", counter="stability")
        case.require(abs(R(-1e9)) < 1e-5, "LGR is not L-stable", counter="stability")
    case.raises(lambda: make_transcription(name.lower() + "x"), "an unknown transcription",
                exc=RuntimeError)


def matrices(case):
    from lumos.optimal_control.collocation import (
        build_lagrange_differential_matrix, build_lagrange_integration_matrix,
        make_lagrange_basis, make_lagrange_polynomial)

    rng = case.rng
    n = int(rng.integers(1, 8) if rng.random() < 0.7 else rng.integers(8, 16))
    s = np.cumsum(rng.uniform(0.2, 1, n)) - rng.uniform(0, 3)
    ev = rng.uniform(s[0] - 0.5, s[-1] + 0.5, int(rng.integers(1, 6)))
    case.describe(support=s, at=ev)
    k = int(rng.integers(n))
    p = make_lagrange_polynomial(s, k)
    big = 1 + max(np.abs(lagrange_eval(s, i, ev)).max() for i in range(n))
    t = 1e-9
    case.close(p(ev), lagrange_eval(s, k, ev), "basis polynomial", rtol=t, atol=t * big)
    case.equal(len(make_lagrange_basis(s)), n, "size of the basis")
    case.close(sum(q(ev) for q in make_lagrange_basis(s)), np.ones(len(ev)),
               "partition of unity", rtol=t, atol=t * big)
    D = build_lagrange_differential_matrix(s, ev)
    case.close(D, np.stack([[np.imag(np.prod([(e + 1e-30j - s[j]) / (s[i] - s[j])
                                              for j in range(n) if j != i])) / 1e-30
                             for i in range(n)] for e in ev]),
               "differentiation matrix", rtol=t, atol=t * (1 + np.abs(D).max()))
    M = build_lagrange_integration_matrix(s, ev)
    case.close(M, lagrange_int_matrix(s, ev), "integration matrix", rtol=t,
               atol=t * (1 + np.abs(M).max()))
    case.count("matrices")


FAMILIES = [Family("points", points, 320, 960), Family("transcription", transcription, 3200, 9600),
            Family("matrices", matrices, 1600, 6000)]

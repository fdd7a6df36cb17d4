"""The constraints of an OCP are the discretisation of the model's equations."""
import numpy as np

from lib.harness import Family
from lib import long
from lib.ocps import RandomOCP

PROPERTY = "C04"
RULE = ("random models and problem configurations (transcription x mesh x cyclic x condensed x "
        "backend x scales x constrained outputs), each evaluated at random points, some "
        "sharing variables with the previous one, with changes of mesh, "
        "parameters, scales and bounds in between, compared "
        "by name with an independent discretisation; distinct by model and configuration")
MIN = {"comparisons": 20000, "points": 200, "condensed": 20, "lifted": 20, "cyclic": 15,
       "fixed": 20, "scaled": 20, "changes": 500, "long": 30}
ASSUMPTIONS = ["equations are drawn from polynomial, trigonometric, exponential, tanh, maximum "
               "and where terms; sizes up to 5 intervals of 5 stages "
               "and 4 states, now and then 70 stages or 8 states; up to 2 states and 2200 stages"]


def check_constraints(case, o, points=8, **what):
    for k in range(points):
        if k and case.rng.random() < 0.35:
            case.event("change", o.mutate())
            case.count("changes")
        x = o.next_x(x) if k and case.rng.random() < 0.7 else o.random_x()
        got = np.asarray(o.ocp.constraints(x))
        want = o.ref_constraints(x)
        case.close(got, want, "constraints", rtol=1e-9, atol=1e-9, scale=1 + np.abs(want).max(
            initial=0), **what)
        case.count("points")
        g = o.ocp.objective(x)
        case.close(g, o.ref_objective(x), "objective", rtol=1e-12)


def random_case(case, **kw):
    o = RandomOCP(case.rng, **kw)
    case.describe(**o.describe())
    case.count("condensed" if o.condensed else "lifted")
    case.count("fixed" if o.fixed else "scaled")
    case.count("cyclic", o.cyclic)
    case.equal(o.ocp.num_con, o.ref_constraints(np.ones(o.n)).size, "number of constraints")
    case.equal((o.ocp.cl.tolist(), o.ocp.cu.tolist()),
               ([0.0] * o.ocp.num_con, [0.0] * o.ocp.num_con), "constraint bounds")
    check_constraints(case, o)


FAMILIES = [
    Family("jax", lambda c: random_case(c, backend="jax"), 240, 720),
    Family("casadi", lambda c: random_case(c, backend="casadi"), 600, 1800),
    Family("custom", lambda c: random_case(c, backend="custom"), 480, 1440),
    Family("long", long.family(long.judge_constraints), 60, 400, cost=2),
]

"""Backend selection follows nesting, whatever happens inside."""
import os

import numpy as np

from lib.harness import Family
from lib import models, ocps

PROPERTY = "C19"
RULE = ("random programs of nested selections (with statements, decorated and recursive "
        "functions, reused selection objects, direct switches, unknown names, exceptions caught "
        "at any level, early returns) and of library operations of every backend, also failing "
        "ones, run beside a stack model that says which backend is active after every step; "
        "distinct by program")
MIN = {"steps": 20000, "selections": 4000, "exceptions": 800, "unknown": 400, "reused": 400,
       "decorated": 600, "dispatched": 20000, "library": 150, "library_failures": 40,
       "depth": 500, "generators": 200, "recursions": 100}
ASSUMPTIONS = ["an unknown name is ignored with a warning: the active backend stays"]

NAMES = ["numpy", "jax", "casadi"]
UNKNOWN = ["", "Numpy", "torch", "JAX", None, "casadi "]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


RAISED = (Boom, KeyError, ValueError, StopIteration, KeyboardInterrupt, SystemExit,
          GeneratorExit, MemoryError, ImportError, Base)
FUNCTIONS = sorted("""abs arctan2 array clip concatenate cos cosh cross cumsum diff dot exp eye floor
full hstack interp log maximum mean minimum ones power reshape roll sin sinh sqrt stack sum tan
tanh tile transpose vstack where zeros zeros_like linalg""".split())


class Machine:
    def __init__(self, case):
        import lumos.numpy as lnp

        self.case, self.lnp, self.rng = case, lnp, case.rng
        self.active = "numpy"
        self.depth = 0
        self.left = 60
        self.instances = {}
        self.decorated = {}
        lnp.set_backend("numpy")
        self.probe("start")

    def probe(self, what):
        """The active backend is what the stack says, and functions come from it."""
        import casadi
        import jax.numpy as jnp

        case, lnp = self.case, self.lnp
        case.count("steps")
        case.equal(lnp.get_backend(), self.active, f"active backend after {what}")
        k = self.rng.integers(6)
        a = self.active
        kind = {"numpy": np.ndarray, "jax": jnp.ndarray, "casadi": casadi.SX}[a]
        if k == 0:
            v = lnp.zeros(3)
        elif k == 1:
            v = lnp.ones((2, 3))
        elif k == 2:
            v = lnp.eye(2)
        elif k == 3:
            v = lnp.vector_concat([lnp.zeros(2), lnp.ones(3)])
        elif k == 4:
            v = lnp.vector_tile(lnp.ones(3), 2)
            case.equal(tuple(v.shape), (2, 3), "shape of a tiled vector")
        else:
            v = lnp.vector_split(lnp.ones(5), [2])[1]
            case.equal(v.shape[0], 3, "length of a part of a vector")
        case.require(isinstance(v, kind) and not (
            a == "jax" and isinstance(v, np.ndarray)),
            f"after {what} an array is made as {type(v)}", counter="dispatched")
        import lumos.numpy.casadi_numpy as cnp

        other = {"numpy": np, "jax": jnp, "casadi": cnp}[a]
        f = FUNCTIONS[self.rng.integers(len(FUNCTIONS))]
        if hasattr(other, f):
            case.require(getattr(lnp, f) is getattr(other, f), f"{f} after {what}",
                         counter="dispatched")

    def name(self):
        if self.rng.random() < 0.12:
            self.case.count("unknown")
            return UNKNOWN[self.rng.integers(len(UNKNOWN))]
        return NAMES[self.rng.integers(3)]

    def enter(self, name):
        if name in NAMES:
            self.active = name

    def instance(self, name):
        """A selection object, sometimes one that was used, or is in use."""
        if self.rng.random() < 0.3:
            if name in self.instances:
                self.case.count("reused")
            return self.instances.setdefault(name, self.lnp.use_backend(name))
        return self.lnp.use_backend(name)

    def body(self):
        """What happens inside."""
        self.depth += 1
        if self.depth > 4:
            self.case.count("depth")
        try:
            for _ in range(int(self.rng.integers(0, 4))):
                self.step()
        finally:
            self.depth -= 1

    def step(self):
        if self.left <= 0 or self.depth > 12:
            return
        self.left -= 1
        rng, case, lnp = self.rng, self.case, self.lnp
        what = rng.choice(["with", "with", "with", "deco", "deco", "set", "raise", "raise",
                           "catch", "catch", "probe", "gen", "deep"],
                          p=[0.085] * 11 + [0.045, 0.02])
        case.event(what)
        if what in ("with", "deco"):
            name = self.name()
            entry = self.active
            case.count("selections")
            try:
                if what == "with":
                    with self.instance(name):
                        self.enter(name)
                        self.probe(f"entering {name!r}")
                        self.body()
                else:
                    case.count("decorated")
                    if name not in self.decorated or rng.random() < 0.3:

                        def fn(machine=self, name=name):
                            machine.enter(name)
                            machine.probe(f"entering a function with {name!r}")
                            machine.body()
                            return "value"

                        self.decorated[name] = self.instance(name)(fn)
                    case.equal(self.decorated[name](), "value", "value of a function")
            finally:
                self.active = entry
                # also while an exception passes
                case.equal(lnp.get_backend(), entry, f"backend after leaving {name!r}")
            self.probe(f"leaving {name!r}")
        elif what == "gen":
            # a selection in a generator that is closed, or fails, in the middle
            name, entry = self.name(), self.active

            def gen():
                with self.instance(name):
                    self.enter(name)
                    yield 1
                    yield 2

            g = gen()
            next(g)
            self.probe(f"entering a generator with {name!r}")
            how = int(rng.integers(3))
            try:
                if how == 0:
                    g.close()
                elif how == 1:
                    g.throw(Boom("thrown"))
                else:
                    list(g)
            except Boom:
                pass
            self.active = entry
            case.count("generators")
            self.probe(f"leaving a generator with {name!r}")
        elif what == "deep":
            # one decorated function that calls itself, and fails at the bottom or not
            name, entry, n = self.name(), self.active, int(rng.integers(10, 150))
            fail = bool(rng.integers(2))
            order = [NAMES[k] for k in rng.integers(0, 3, n)]
            select, end = lnp.use_backend(name), []

            @select
            def recursive(k, *, twice=1):
                end.append((lnp.get_backend(), name if name in NAMES else entries[-1]))
                if k == n:
                    if fail:
                        raise Boom("bottom")
                    return twice * k
                lnp.set_backend(order[k])
                entries.append(order[k])
                try:
                    return recursive(k + 1, twice=twice)
                finally:
                    end.append((lnp.get_backend(), order[k]))
                    entries.pop()

            entries = [entry]
            try:
                case.equal(recursive(0, twice=2), 2 * n, "value of a recursive function")
            except Boom:
                case.require(fail, "a recursive function failed")
            for k, (got, want) in enumerate(end):
                case.equal(got, want, f"backend at step {k} of a recursion of depth {n}")
            case.count("recursions")
            self.probe("a deep recursion")
        elif what == "set":
            name = self.name()
            lnp.set_backend(name)
            self.enter(name)
            self.probe(f"setting {name!r}")
        elif what == "raise":
            if self.depth:
                case.count("exceptions")
                raise RAISED[rng.integers(len(RAISED))]("x")
        elif what == "catch":
            try:
                self.body()
            except RAISED:
                self.probe("an exception")
        else:
            self.probe("nothing")


def programs(case):
    import lumos.numpy as lnp

    case.describe(s=int(case.rng.integers(2**60)))
    try:
        m = Machine(case)
        while m.left > 0:
            try:
                m.step()
            except RAISED:
                m.probe("an exception at the top")
    finally:
        lnp.set_backend("numpy")


def library(case):
    """What the library does inside leaves the active backend as it was."""
    import lumos.numpy as lnp

    rng = case.rng
    active = "numpy"
    lnp.set_backend("numpy")
    try:
        backend = ["jax", "casadi", "custom", "casadi"][case.index % 4]
        o = ocps.RandomOCP(rng, backend=backend, max_intervals=2, build=False, max_states=2)
        case.describe(**o.describe())
        ops = {
            "build": o.build,
            "evaluate": lambda: o.ocp.constraints(np.zeros(o.n)),
            "jacobian": lambda: o.ocp.jacobian(np.zeros(o.n)),
            "export": lambda: o.model.export_c_code("m.c"),
            "structure": lambda: o.ocp.hessianstructure(),
            "forward": lambda: o.model.forward_with_arrays(
                np.zeros(len(o.spec["states"])), np.zeros(len(o.spec["inputs"])), 0.0),
        }
        for _ in range(8):
            if rng.random() < 0.3 and hasattr(o, "ocp"):
                for _ in range(2):
                    n = str(rng.choice(["export", "evaluate", "jacobian"]))
                    ops[n]()
                    case.count("library")
                    case.equal(lnp.get_backend(), active, f"backend after {n}")
            n = "build" if not hasattr(o, "ocp") else str(rng.choice(list(ops)))
            ops[n]()
            case.count("library")
            case.equal(lnp.get_backend(), active, f"backend after {n}")
        # inside another selection, where some of them work and some do not
        for _ in range(6):
            active = NAMES[rng.integers(3)]
            n = str(rng.choice(list(ops)))
            with lnp.use_backend(active):
                try:
                    ops[n]()
                    case.count("library")
                except Exception:
                    case.count("library_failures")
                case.equal(lnp.get_backend(), active, f"backend after {n} with {active}")
            active = "numpy"
            case.equal(lnp.get_backend(), active, f"backend after leaving, {n}")
        # and the ones that fail
        m = models.make_model(o.spec)
        good = type(m).forward

        def bad(self, *a, **k):
            good(self, *a, **k)
            raise Boom("inside the model")

        type(m).forward = bad
        nx, nu = len(o.spec["states"]), len(o.spec["inputs"])

        def batch():
            m.make_model_algebra_cons("jax")
            m.batched_forward(np.zeros((2, nx)), np.zeros((2, nu)), np.zeros(2),
                              m.get_recursive_params())

        def constraints():
            m.make_model_algebra_cons("jax")
            m.model_algebra.mapped_constraints(np.zeros((2, m.num_implicit_var)), np.zeros(2),
                                               m.get_recursive_params())

        for n, f in (("building", lambda: m.make_model_algebra_cons("casadi")),
                     ("exporting", lambda: m.export_c_code("f.c")),
                     ("a batch of jax", batch),
                     ("constraints of jax", constraints),
                     ("evaluating", lambda: m.forward_with_arrays(
                         np.zeros(len(o.spec["states"])), np.zeros(len(o.spec["inputs"])), 0.0))):
            case.raises(f, f"failing {n}", exc=Boom, counter="library_failures")
            case.equal(lnp.get_backend(), active, f"backend after failing {n}")
    finally:
        lnp.set_backend("numpy")


FAMILIES = [Family("programs", programs, 2400, 8000), Family("library", library, 96, 288, cost=8)]

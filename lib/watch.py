"""A monitor around the evaluations of a problem.

The values must follow the arguments of the current call, so every evaluation gets the same
array with new values in it (the objective gets a new one: it may keep its argument, as the
iterate to log).  An evaluation must not change its arguments, and results returned earlier
must stay as they were.
"""
import numpy as np

from lib.harness import Violated

METHODS = ("objective", "gradient", "constraints", "jacobian", "hessian")
KEEP = 6


COUNT = {}


class Monitor:
    def __init__(self):
        self.buffers = {}
        self.kept = []

    def count(self, what, n=1):
        COUNT[what] = COUNT.get(what, 0) + n

    def buffer(self, k, a):
        """The buffer of this argument, with the values of a in it"""
        b = self.buffers.get(k)
        if b is None or b.shape != a.shape:
            b = self.buffers[k] = a.copy()
        b[...] = a
        return b

    def check_kept(self, name):
        self.count("kept_results", len(self.kept))
        for what, got, copy in self.kept:
            if not np.array_equal(got, copy, equal_nan=True):
                raise Violated(f"the result of {what} changed after it was returned "
                               f"(when {name} was called)")

    def wrap(self, name, fn):
        def call(*args, **kw):
            given = list(args)
            for k, a in enumerate(args):
                if isinstance(a, np.ndarray) and a.dtype == float and a.ndim == 1:
                    given[k] = a.copy() if name == "objective" else self.buffer(k, a)
            out = fn(*given, **kw)
            self.count("watched_calls")
            for k, a in enumerate(args):
                if given[k] is not a and not np.array_equal(given[k], a, equal_nan=True):
                    raise Violated(f"{name} changed its argument {k}")
            self.check_kept(name)
            if isinstance(out, np.ndarray):
                self.kept = self.kept[-KEEP + 1:] + [(name, out, out.copy())]
            return out
        return call


def watch(problem):
    m = Monitor()
    for name in METHODS:
        setattr(problem, name, m.wrap(name, getattr(problem, name)))
    return problem

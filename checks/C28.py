"""A composite problem is the sum of its current parts after any history."""
import numpy as np

from lib.harness import Family
from lib.ocps import dense
from lib.watch import watch

PROPERTY = "C28"
RULE = ("random histories of adding, deleting and replacing constraints and objectives (dense, "
        "sparse, with duplicates, 2-d structures, linear, scaled) with evaluations in between, "
        "every result compared with a list of the parts evaluated directly; distinct by "
        "history and sizes")
MIN = {"comparisons": 50000, "evaluations": 800, "adds": 500, "deletes": 200, "rejections": 200, "profiles": 50,
       "kept_gradients": 100}
ASSUMPTIONS = ["every part reports all the nonzeros of its (symmetric) hessian"]


class Part:
    """Constraints c_i(x) = x'Q_i x / 2 + B_i x + sum_j S_ij sin(x_j)."""

    def __init__(self, rng, n, m=None):
        self.kind = ["dense", "sparse", "dup", "2d", "linear", "linear_nocache"][rng.integers(6)]
        m = int(rng.integers(1, 5)) if m is None else m
        self.n, self.m = n, m
        self.B = rng.standard_normal((m, n)) * (rng.random((m, n)) < 0.6)
        Q = rng.standard_normal((m, n, n)) * (rng.random((m, n, n)) < 0.3)
        self.Q = Q + np.swapaxes(Q, 1, 2)
        self.S = rng.standard_normal((m, n)) * (rng.random((m, n)) < 0.5)
        # one-sided terms: their derivatives are zero at many points
        self.R = rng.uniform(0.3, 2, (m, n)) * (rng.random((m, n)) < rng.choice([0, 0.5]))
        self.t = rng.choice([0.0, 0.5, 1.0], n)
        self.linear = self.kind.startswith("linear")
        if self.linear:
            self.Q, self.S, self.R = self.Q * 0, self.S * 0, self.R * 0
        jm = (self.B != 0) | (self.S != 0) | (self.R != 0) | (self.Q != 0).any(axis=2)
        hm = (self.Q != 0).any(axis=0) | np.diag(((self.S != 0) | (self.R != 0)).any(axis=0))
        self.jr, self.jc = (a[rng.permutation(jm.sum())] for a in np.nonzero(jm)) \
            if False else np.nonzero(jm)
        o = rng.permutation(len(self.jr))
        self.jr, self.jc = self.jr[o], self.jc[o]
        self.hr, self.hc = np.nonzero(hm)
        o = rng.permutation(len(self.hr))
        self.hr, self.hc = self.hr[o], self.hc[o]
        self.con_scales = np.ones(m)

    def c(self, x):
        return (0.5 * np.einsum("kij,i,j->k", self.Q, x, x) + self.B @ x
                + self.S @ np.sin(x) + self.R @ np.maximum(x - self.t, 0) ** 4)

    def J(self, x):
        return np.einsum("kij,j->ki", self.Q, x) + (
            self.B + self.S * np.cos(x) + 4 * self.R * np.maximum(x - self.t, 0) ** 3)

    def H(self, x, lam):
        return np.einsum("kij,k->ij", self.Q, lam) - np.diag(
            (lam @ self.S) * np.sin(x) - 12 * (lam @ self.R) * np.maximum(x - self.t, 0) ** 2)

    def make(self):
        from lumos.optimal_control.nlp import BaseConstraints, LinearConstraints

        jv = lambda x: self.J(x)[self.jr, self.jc]
        if self.linear:
            return LinearConstraints(self.n, self.m, self.c, jv, (self.jr, self.jc),
                                     cache_jacobian=self.kind == "linear")
        if self.kind == "dense":
            return BaseConstraints(self.n, self.m, self.c, lambda x: self.J(x).ravel(),
                                   lambda x, lam: self.H(x, lam).ravel())
        if self.kind == "sparse":
            return BaseConstraints(self.n, self.m, self.c, jv,
                                   lambda x, lam: self.H(x, lam)[self.hr, self.hc],
                                   (self.jr, self.jc), (self.hr, self.hc))
        if self.kind == "dup":
            r, c = np.tile(self.jr, 2), np.tile(self.jc, 2)
            hr, hc = np.tile(self.hr, 2), np.tile(self.hc, 2)
            return BaseConstraints(
                self.n, self.m, self.c,
                lambda x: np.concatenate([0.25 * jv(x), 0.75 * jv(x)]),
                lambda x, lam: np.concatenate([a * self.H(x, lam)[self.hr, self.hc]
                                               for a in (0.5, 0.5)]), (r, c), (hr, hc))
        r, c = np.indices((self.m, self.n))
        hr, hc = np.indices((self.n, self.n))
        return BaseConstraints(self.n, self.m, self.c, self.J, self.H, (r, c), (hr, hc))


def evaluate(case, prob, cons, objs, points):
    from numpy import concatenate as cat

    n = prob.num_dec
    if points and case.rng.random() < 0.5:  # at an earlier point again
        x, mults = points[case.rng.integers(len(points))]
        x = x.copy()
        case.count("again")
    else:
        x, mults = case.rng.standard_normal(n), {}
        points.append((x.copy(), mults))
    x0 = x.copy()
    if cons:
        parts = list(cons.values())
        m = sum(p.m for p in parts)
        case.equal(prob.num_con, m, "number of constraints")
        want = cat([p.c(x) / p.con_scales for p in parts])
        got = prob.constraints(x)
        case.close(got, want, "constraints")
        sp = prob.split_constraints(got)
        case.equal(list(sp), list(cons), "names of the constraints")
        for k, p in cons.items():
            case.close(sp[k], p.c(x) / p.con_scales, f"split constraints {k}")
        r, c = prob.jacobianstructure()
        J = dense(r, c, prob.jacobian(x), (m, n))
        case.close(J, np.vstack([p.J(x) / p.con_scales[:, None] for p in parts]), "jacobian",
                   atol=1e-10)
    if objs:
        case.close(float(prob.objective(x)), float(sum(o.c(x).sum() for o in objs.values())),
                   "objective", atol=1e-10)
        case.close(prob.gradient(x), sum(o.J(x).sum(axis=0) for o in objs.values()),
                   "gradient", atol=1e-10)
    if cons and objs:
        lam = case.rng.standard_normal(m)
        s = float(case.rng.uniform(-2, 2))
        if case.rng.random() < 0.3:     # some parts without multipliers, or without objective
            lam = np.concatenate([case.rng.integers(2) * v for v in
                                  np.split(lam, np.cumsum([p.m for p in parts])[:-1])])
            s *= case.rng.integers(2)
        tiny = 1.0
        if case.rng.random() < 0.3:     # multipliers of any magnitude
            tiny = 10.0 ** case.rng.uniform(-14, 6)
            lam, s = lam * tiny, s * tiny
        if m in mults and case.rng.random() < 0.5:  # and with the multipliers of then
            lam, s, tiny = mults[m]
            lam = lam.copy()
        mults[m] = lam.copy(), s, tiny
        lam0 = lam.copy()
        # either call may come first
        if case.rng.random() < 0.5:
            v = prob.hessian(x, lam, s)
            r, c = prob.hessianstructure()
        else:
            r, c = prob.hessianstructure()
            v = prob.hessian(x, lam, s)
        r, c = np.asarray(r), np.asarray(c)
        case.require((r >= c).all(), "entries above the diagonal")
        case.equal(r.shape, np.shape(v), "length of the hessian")
        H = dense(r.astype(int), c.astype(int), v, (n, n))
        H = H + np.tril(H, -1).T
        want, off = 0, 0
        for p in parts:
            want = want + p.H(x, lam[off:off + p.m] / p.con_scales)
            off += p.m
        for o in objs.values():
            want = want + s * o.H(x, np.ones(o.m))
        case.close(H / tiny, want / tiny, "hessian", atol=1e-10)
        case.require(np.array_equal(lam, lam0), "the multipliers of the caller are changed")
    case.require(np.array_equal(x, x0), "the point of the caller is changed")
    case.count("evaluations")


def history(case):
    from lumos.optimal_control.nlp import BaseObjective, CompositeProblem

    rng = case.rng
    n = int(rng.integers(1, 7))
    large = rng.random() < 0.04
    if large:
        n = int(rng.integers(10, 25))
    prob, other = watch(CompositeProblem(num_in=n)), CompositeProblem(num_in=n)
    cons, objs, made, points = {}, {}, {}, []
    k = 0

    def new_obj():
        o = Part(rng, n, m=1)
        if o.linear:
            # a constant gradient, which the objective keeps and returns every time
            kept, none = o.B[0].copy(), np.zeros(len(o.hr))
            case.count("kept_gradients")
            return o, BaseObjective(n, lambda x: o.c(x)[0], lambda x: kept, lambda x: none,
                                    (o.hr, o.hc))
        if o.kind == "dense":
            return o, BaseObjective(n, lambda x: o.c(x)[0], lambda x: o.J(x)[0],
                                    lambda x: o.H(x, np.ones(1)).ravel())
        b = BaseObjective(n, lambda x: o.c(x)[0], lambda x: o.J(x)[0],
                          lambda x: o.H(x, np.ones(1))[o.hr, o.hc], (o.hr, o.hc))
        return o, b

    for step in range(int(rng.integers(4, 16)) + 30 * large):
        op = rng.integers(10)
        if op <= 1:
            name = f"c{k}" if rng.random() < 0.7 else f"c{int(rng.integers(0, k + 1))}"
            k += 1
            p = Part(rng, n)
            b = p.make()
            if name in cons:
                case.raises(lambda: prob.add_constraints(name, b), "a duplicate constraint name",
                            exc=ValueError)
            else:
                prob.add_constraints(name, b)
                cons[name], made[name] = p, b
                case.count("adds")
                case.event("add constraints", name, p.kind, p.m)
        elif op == 2:
            o, b = new_obj()
            name = f"o{int(rng.integers(0, 5))}"
            if name in objs:
                case.raises(lambda: prob.add_objective(name, b), "a duplicate objective name",
                            exc=NameError)
            else:
                prob.add_objective(name, b)
                objs[name] = o
                case.count("adds")
                case.event("add objective", name)
        elif op == 3 and cons:
            name = list(cons)[rng.integers(len(cons))]
            prob.delete_constraints(name)
            del cons[name]
            case.count("deletes")
            case.event("delete constraints", name)
        elif op == 4 and objs:
            name = list(objs)[rng.integers(len(objs))]
            prob.delete_objective(name)
            del objs[name]
            case.count("deletes")
            case.event("delete objective", name)
        elif op == 5 and cons:  # replace
            name = list(cons)[rng.integers(len(cons))]
            p = Part(rng, n)
            b = p.make()
            prob.delete_constraints(name)
            prob.add_constraints(name, b)
            del cons[name]
            cons[name], made[name] = p, b
            case.event("replace", name)
        elif op == 8 and objs:
            name = list(objs)[rng.integers(len(objs))]
            o, b = new_obj()
            prob.delete_objective(name)
            prob.add_objective(name, b)
            del objs[name]
            objs[name] = o
            case.event("replace objective", name)
        elif op == 6 and cons:
            name = list(cons)[rng.integers(len(cons))]
            cons[name].con_scales = 10 ** rng.uniform(-1, 1, cons[name].m)
            made[name].set_con_scales(cons[name].con_scales)
            case.event("scale", name)
        elif op == 7:
            q = Part(rng, n + 1)
            case.raises(lambda: prob.add_constraints("bad", q.make()),
                        "constraints with another number of inputs", exc=ValueError)
            case.raises(lambda: prob.delete_constraints("nothing"), "deleting unknown constraints")
            case.raises(lambda: prob.delete_objective("nothing"), "deleting an unknown objective")
        if rng.random() < 0.75:
            evaluate(case, prob, cons, objs, points)
    evaluate(case, prob, cons, objs, points)
    if cons and objs and rng.random() < 0.3:
        # a profile covers all the current parts, and the whole
        full, once = bool(rng.integers(2)), bool(rng.integers(2))
        t = prob.profile(rng.standard_normal(n), int(rng.integers(1, 3)), full, once)
        want = {f"{k}.{m}" for k in objs for m in ("objective", "gradient", "hessian")}
        want |= {f"{k}.{m}" for k in cons for m in ["constraints", "jacobian"]
                 + ["hessian"] * full}
        want |= {f"nlp.{m}" for m in ["objective", "gradient", "constraints", "jacobian"]
                 + ["hessian"] * full}
        case.equal(sorted(t), sorted(want), "entries of a profile")
        case.require(all(np.isfinite(v) and v >= 0 for v in t.values()), "times of a profile")
        case.count("profiles")
        evaluate(case, prob, cons, objs, points)
    case.equal(other.num_con, 0, "constraints of another problem")
    case.describe(n=n, history=[e[0] for e in case.trace])


FAMILIES = [Family("history", history, 8000, 30000)]

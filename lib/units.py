"""Problems whose residuals are in other units: their derivatives are in the same units."""
import numpy as np

import lumos.numpy as lnp
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.optimal_control.config import ScaleConfig, SimConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

from lib import real

FORMS = [lambda p, v, u: p * u + lnp.sin(v), lambda p, v, u: lnp.cos(p) * v * v,
         lambda p, v, u: lnp.exp(0.3 * u) * p * v, lambda p, v, u: v * v * v - u * p * p]


@state_space_io(states=("p", "v", "time"), inputs=("u",), outputs=("r", "s"), residuals=("r", "s"))
class Units(StateSpaceModel):
    forms = (0, 1)

    def forward(self, states, inputs, mesh=0.0):
        p, v, u = states["p"], states["v"], inputs["u"]
        r, s = (FORMS[i](p, v, u) for i in self.forms)
        residuals = {"r": self._params["a"] * r, "s": self._params["b"] * s}
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", p=v, v=u - p, time=1.0),
            outputs=self.make_dict("outputs", **residuals),
            residuals=self.make_dict("residuals", **residuals))

    @classmethod
    def get_default_params(cls):
        return {"a": 1.0, "b": 1.0}


def family(judge):
    def run(case):
        rng = case.rng
        forms = tuple(int(i) for i in rng.integers(len(FORMS), size=2))
        fixed = bool(rng.random() < 0.4)
        units = [10.0 ** rng.uniform(-16, 9) for _ in "ab"]
        cfg = dict(num_intervals=int(rng.integers(1, 5)),
                   transcription=["ForwardEuler", "Trapezoidal", "LGR"][rng.integers(3)],
                   backend=["jax", "casadi"][rng.integers(2)],
                   is_condensed=bool(rng.integers(2)))
        scales = tuple(ScaleConfig("states" if n < 2 else "inputs", "pvu"[n],
                                   float(10.0 ** rng.uniform(-2, 2)))
                       for n in range(3) if rng.random() < 0.5)
        case.describe(forms=forms, fixed=fixed, units=units, scales=[repr(s) for s in scales],
                      **cfg)
        kind = FixedMeshOCP if fixed else ScaledMeshOCP

        def build(a, b):
            model = Units()
            model.forms = forms
            params = model.get_recursive_params()
            params.set_param("a", a)
            params.set_param("b", b)
            model.set_recursive_params(params)
            return kind(model, SimConfig(scales=scales, **cfg))

        ones, none, other = build(1.0, 1.0), build(0.0, 0.0), build(*units)
        x = rng.uniform(-1.5, 1.5, ones.num_dec)
        if not fixed:
            x[ones.dec_var_operator.get_var_index_in_dec("global", "mesh_scale")] = 1.3
        # the rows of each of the residuals
        rows = []
        for a, b in [(1.0, 0.0), (0.0, 1.0)]:
            part = build(a, b)
            rows.append(np.abs(real.dense_jac(part, x) - real.dense_jac(none, x)).any(axis=1))
        judge(case, ones, other, x, units, rows)
        case.count("units")
    return run


def judge_jacobian(case, ones, other, x, units, rows):
    want, got = (real.dense_jac(o, x) for o in (ones, other))
    for unit, sel in zip(units, rows):
        case.close(got[sel] / unit, want[sel], "jacobian in other units", rtol=1e-7, atol=1e-9,
                   counter="unit_entries")


def judge_hessian(case, ones, other, x, units, rows):
    lam = np.zeros(ones.num_con)
    for unit, sel in zip(units, rows):
        lam[:] = 0.0
        lam[sel] = case.rng.standard_normal(sel.sum())
        want, got = (real.sym_hess(o, x, lam, 0.0) for o in (ones, other))
        case.close(got / unit, want, "hessian in other units", rtol=1e-7, atol=1e-9,
                   counter="unit_entries")

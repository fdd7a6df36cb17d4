"""Random test models for lumos, together with an independent numpy reference.

A spec describes the equations of a model as plain data. `make_model` turns it into a
real lumos StateSpaceModel (which then goes through the whole lumos machinery);
`Reference` evaluates the same equations with plain (complex capable) numpy, without any
lumos code, so that derivatives can be taken by complex steps.
"""
import copy
import itertools

import numpy as np

_uid = itertools.count()

NAME_POOL = ["v", "x", "y", "psi", "b2", "a10", "a2", "Zeta", "w_fl", "q", "r_1", "E0",
             "x11", "x9", "phi_dot", "n"]
OUT_POOL = ["ay", "power", "o9", "slip", "F_x", "beta", "o10", "T1"]


# ----------------------------------------------------------------------- reference math
class NPX:
    """numpy functions that accept complex (complex step) arguments."""

    sin, cos, tanh, exp = np.sin, np.cos, np.tanh, np.exp

    @staticmethod
    def maximum(a, b):
        return np.where(np.real(a) >= np.real(b), a, b)

    @staticmethod
    def where(c, a, b):
        return np.where(c, a, b)

    @staticmethod
    def gt(a, b):
        return np.real(a) > np.real(b)


def eval_terms(terms, z, sub, p, mesh, xp, gt, step_mesh=None):
    out = 0.0
    for t in terms:
        kind, c = t[0], t[1]
        if kind == "lin":
            out = out + c * z[t[2]]
        elif kind == "bil":
            out = out + c * z[t[2]] * z[t[3]]
        elif kind == "sin":
            out = out + c * xp.sin(t[3] * z[t[2]])
        elif kind == "tanh":
            out = out + c * xp.tanh(z[t[2]] - z[t[3]])
        elif kind == "exp":
            out = out + c * xp.exp(-(z[t[2]] * z[t[2]]))
        elif kind == "k":
            out = out + c * p["k"] * z[t[2]]
        elif kind == "vec":
            out = out + c * p["vec"][t[3]] * z[t[2]]
        elif kind == "mat":
            out = out + c * p["mat"][t[3], t[4]] * z[t[2]]
        elif kind == "const":
            out = out + c * p["off"]
        elif kind == "mesh":
            out = out + c * mesh * z[t[2]]
        elif kind == "mesh0":
            out = out + c * xp.sin(mesh)
        elif kind == "step":  # piecewise constant in the mesh
            out = out + c * xp.where(gt(mesh if step_mesh is None else step_mesh, t[4]), z[t[2]], 0.5 * z[t[3]])
        elif kind == "max":
            out = out + c * xp.maximum(z[t[2]], t[3])
        elif kind == "where":
            out = out + c * xp.where(gt(z[t[2]], z[t[3]]), z[t[2]] * z[t[2]], z[t[3]])
        elif kind == "sub":
            out = out + c * sub[t[2]]
        else:
            raise ValueError(kind)
    return out


# ------------------------------------------------------------------------ spec generator
def _terms(rng, nz, n, mesh, nonsmooth, sub, linear, force=None):
    kinds = ["lin", "k", "vec", "mat", "const"]
    if not linear:
        kinds += ["bil", "bil", "sin", "tanh", "exp"]
    if mesh == "step":
        kinds += ["step"] * 4
    elif mesh:
        kinds += ["mesh", "mesh0"]
    if nonsmooth:
        kinds += ["max", "where"]
    if sub:
        kinds += ["sub", "sub"]
    terms = []
    first = int(rng.integers(nz)) if force is None else force
    terms.append(("lin", float(np.round(rng.uniform(0.3, 2), 3)), first))
    for _ in range(n):
        k = kinds[rng.integers(len(kinds))]
        c = float(np.round(rng.uniform(-2, 2), 3)) or 0.5
        i, j = (int(v) for v in rng.integers(nz, size=2))
        if k == "sin":
            terms.append((k, c, i, float(np.round(rng.uniform(0.3, 1.5), 3))))
        elif k == "tanh" or k == "where":
            if i == j:
                terms.append(("lin", c, i))
            else:
                terms.append((k, c, i, j))
        elif k == "bil":
            terms.append((k, c, i, j))
        elif k == "vec":
            terms.append((k, c, i, int(rng.integers(3))))
        elif k == "mat":
            terms.append((k, c, i, int(rng.integers(2)), int(rng.integers(3))))
        elif k == "step":
            terms.append((k, c, i, j, float(np.round(10 ** rng.uniform(-1, 0.7), 3)) + 0.000371))
        elif k == "max":
            terms.append((k, c, i, float(np.round(rng.uniform(-1, 1), 3))))
        elif k == "sub":
            terms.append((k, c, sub[rng.integers(len(sub))]))
        else:
            terms.append((k, c, i))
    return terms


def random_spec(rng, max_states=4, max_inputs=3, max_out=3, mesh=False, nonsmooth=False,
                linear=False, time_state=False, composite=None, max_res=2):
    nx = int(rng.integers(1, max_states + 1))
    nu = int(rng.integers(1, max_inputs + 1))
    ny = int(rng.integers(0, max_out + 1))
    pool = list(rng.permutation(NAME_POOL))
    states = [str(s) for s in pool[:nx]]
    if rng.random() < 0.3:  # the same name in two groups
        inputs = [str(s) for s in rng.permutation(NAME_POOL)[:nu]]
    else:
        inputs = [str(s) for s in pool[nx:nx + nu]]
    if time_state and "time" not in states:
        states.insert(int(rng.integers(len(states) + 1)), "time")
        nx += 1
    outputs = [str(s) for s in rng.permutation(OUT_POOL)[:ny]]
    if composite is None:
        composite = rng.random() < 0.3
    nz = nx + nu
    sub = None
    if composite:
        sub = {
            "name": ["aero", "tire", "m1_con"][rng.integers(3)],
            "inputs": ["p", "q"],
            "feeds": [int(v) for v in rng.integers(nz, size=2)],
            "outputs": [str(s) for s in rng.permutation(["Cz", "Cx", "drag"])[
                : int(rng.integers(1, 4))]],
            "params": {"g": float(np.round(rng.uniform(0.5, 2), 3)),
                       "h": np.round(rng.uniform(-1, 1, 2), 3)},
        }
        sub["eqs"] = {
            n: [float(np.round(c, 3)) for c in rng.uniform(-1, 1, 4)]
            for n in sub["outputs"]
        }
    subnames = sub["outputs"] if sub else []
    eqs = {}
    for i, s in enumerate(states):
        eqs["dot:" + s] = _terms(rng, nz, int(rng.integers(1, 5)), mesh, nonsmooth,
                                 subnames, linear)
    for o in outputs:
        eqs["out:" + o] = _terms(rng, nz, int(rng.integers(0, 4)), mesh, nonsmooth,
                                 subnames, linear)
    nres = int(rng.integers(0, min(ny, max_res) + 1)) if ny else 0
    residuals = [str(s) for s in rng.permutation(outputs)[:nres]] if nres else []
    keys = [str(k) for k in rng.permutation(["k", "vec", "mat", "off"])]
    allp = {
        "k": float(np.round(rng.uniform(0.5, 1.5), 3)),
        "vec": np.round(rng.uniform(-1, 1, 3), 3),
        "mat": np.round(rng.uniform(-1, 1, (2, 3)), 3),
        "off": float(np.round(rng.uniform(-1, 1), 3)),
    }
    return {
        "states": states, "inputs": inputs, "outputs": outputs, "residuals": residuals,
        "eqs": eqs, "params": {k: allp[k] for k in keys}, "sub": sub, "mesh": mesh,
        "uid": next(_uid),
    }


def neighbour_spec(rng, spec):
    """Another model of the same form, with some of its constants changed in their last digits."""
    other = copy.deepcopy(spec)
    other["uid"] = next(_uid)
    for e, terms in other["eqs"].items():
        for i, t in enumerate(terms):
            if rng.random() < 0.5 or (e.startswith("dot:") and i == 0):
                c = round(t[1] + float(rng.choice([-1, 1])) * 0.001 * int(rng.integers(1, 9)), 3)
                terms[i] = (t[0], c or 0.001, *t[2:])
    return other


def all_outputs(spec):
    names = list(spec["outputs"])
    if spec["sub"]:
        names += [spec["sub"]["name"] + "." + o for o in spec["sub"]["outputs"]]
    return names


def describe_spec(spec):
    return {
        "nx": len(spec["states"]), "nu": len(spec["inputs"]),
        "outputs": len(spec["outputs"]), "residuals": len(spec["residuals"]),
        "sub": bool(spec["sub"]), "mesh": spec["mesh"],
        "terms": sorted({t[0] for e in spec["eqs"].values() for t in e}),
        "h": round(float(sum(t[1] for e in spec["eqs"].values() for t in e)), 4),
    }


# ----------------------------------------------------------------------------- reference
def sub_eval(sub, p, pv, qv, xp):
    out = {}
    for n in sub["outputs"]:
        a, b, c, d = sub["eqs"][n]
        out[n] = (a * p["g"] * pv + b * p["h"][0] * qv * pv + c * p["h"][1] * qv
                  + d * xp.sin(pv))
    return out


class Reference:
    """The equations of a spec, evaluated without lumos."""

    def __init__(self, spec, params=None, sub_params=None):
        self.spec = spec
        self.step_mesh = None  # when given, the mesh at which "step" terms are decided
        self.params = copy.deepcopy(spec["params"] if params is None else params)
        if spec["sub"]:
            self.sub_params = copy.deepcopy(
                spec["sub"]["params"] if sub_params is None else sub_params)

    def forward(self, states, inputs, mesh):
        """states (..., nx), inputs (..., nu) -> states_dot (..., nx), {output: (...)}"""
        sp = self.spec
        z = [states[..., i] for i in range(len(sp["states"]))]
        z += [inputs[..., i] for i in range(len(sp["inputs"]))]
        sub, outs = {}, {}
        if sp["sub"]:
            s = sp["sub"]
            sub = sub_eval(s, self.sub_params, z[s["feeds"][0]], z[s["feeds"][1]], NPX)
        base = 0 * z[0] + 0 * mesh

        def ev(key):
            return base + eval_terms(sp["eqs"][key], z, sub, self.params, mesh, NPX, NPX.gt,
                                     self.step_mesh)

        xdot = np.stack([ev("dot:" + n) for n in sp["states"]], axis=-1)
        for o in sp["outputs"]:
            outs[o] = ev("out:" + o)
        for o, v in sub.items():
            outs[sp["sub"]["name"] + "." + o] = base + v
        return xdot, outs


# ---------------------------------------------------------------------------- lumos model
def make_class(spec, custom=False):
    """A real lumos model class for the spec (submodel classes are registered)."""
    import lumos.numpy as lnp
    from lumos.models.base import (
        Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io,
        state_space_io,
    )
    from lumos.models.composition import ModelMaker

    sub = spec["sub"]
    if sub:
        sub_name = f"Sub{spec['uid']}_{next(_uid)}"

        def sub_forward(self, inputs):
            out = sub_eval(sub, self._params, inputs["p"], inputs["q"], lnp)
            return ModelReturn(outputs=self.make_outputs_dict(**out))

        SubClass = type(sub_name, (Model,), {
            "forward": sub_forward,
            "get_default_params": classmethod(lambda cls: copy.deepcopy(sub["params"])),
        })
        SubClass = model_io(inputs=tuple(sub["inputs"]), outputs=tuple(sub["outputs"]))(
            SubClass)
        ModelMaker.add_to_registry(SubClass)

    def forward(self, states, inputs, mesh):
        z = [states[n] for n in spec["states"]] + [inputs[n] for n in spec["inputs"]]
        subv = {}
        if sub:
            ret = self.call_submodel(
                sub["name"], inputs={"p": z[sub["feeds"][0]], "q": z[sub["feeds"][1]]})
            subv = ret.outputs

        def ev(key):
            return eval_terms(spec["eqs"][key], z, subv, self._params, mesh, lnp,
                              lambda a, b: a > b)

        # in another order than the names, which must not matter
        xdot = {n: ev("dot:" + n) for n in reversed(spec["states"])}
        outs = {n: ev("out:" + n) for n in reversed(spec["outputs"])}
        return StateSpaceModelReturn(
            states_dot=self.make_dict(group="states_dot", **xdot),
            outputs=self.make_outputs_dict(**outs),
        )

    body = {
        "forward": forward,
        "get_default_params": classmethod(lambda cls: copy.deepcopy(spec["params"])),
    }
    if sub:
        body["get_default_submodel_config"] = classmethod(
            lambda cls: {sub["name"]: sub_name})
    if custom:
        body.update(_custom_methods(spec))
    # two classes may well have the same name, when they are not in the registry
    name = spec.get("class_name")
    Cls = type(name or f"Rand{spec['uid']}_{next(_uid)}", (StateSpaceModel,), body)
    Cls = state_space_io(
        states=tuple(spec["states"]), inputs=tuple(spec["inputs"]),
        outputs=tuple(spec["outputs"]), residuals=tuple(spec["residuals"]))(Cls)
    if not name:
        ModelMaker.add_to_registry(Cls)
    return Cls


def make_model(spec, custom=False):
    return make_class(spec, custom)()


def _custom_methods(spec):
    """Hand supplied derivatives for the custom backend (from the reference)."""

    nx, nu = len(spec["states"]), len(spec["inputs"])

    def rows(self):
        return (["dot:" + n for n in spec["states"]]
                + ["out:" + n for n in self.names.con_outputs]
                + ["out:" + n for n in self.names.residuals])

    def stage(self, w, mesh, params):
        ref = Reference(spec, params.data,
                        params.get_child(spec["sub"]["name"]).data if spec["sub"] else None)
        xdot, outs = ref.forward(w[..., :nx], w[..., nx:nx + nu], mesh)
        cols = [xdot[..., i] for i in range(nx)]
        cols += [outs[n] for n in self.names.con_outputs]
        cols += [outs[n] for n in self.names.residuals]
        return np.stack(cols, axis=-1)

    def dense_jac(self, w, mesh, params):
        n = nx + nu
        pert = w.astype(complex) + 1e-30j * np.eye(n)
        return np.imag(stage(self, pert, mesh, params)).T / 1e-30

    def order(self, n):
        return np.random.RandomState(n * 7 + 1).permutation(n)

    def structure(self):
        nc, nr = len(self.names.con_outputs), len(self.names.residuals)
        r, c = np.indices((nx + nc + nr, nx + nu))
        r = np.concatenate([r.ravel(), np.arange(nx), nx + np.arange(nc)])
        c = np.concatenate([c.ravel(), nx + nu + np.arange(nx),
                            nx + nu + nx + np.arange(nc)])
        o = order(self, len(r))
        return r[o].astype(int), c[o].astype(int)

    def jac(self, flat_vars, mesh, params):
        nc = len(self.names.con_outputs)
        J = dense_jac(self, flat_vars[:nx + nu], mesh, params)
        v = np.concatenate([J.ravel(), -np.ones(nx + nc)])
        return v[order(self, len(v))]

    def hess_structure(self):
        r, c = np.indices((nx + nu, nx + nu))
        o = order(self, r.size)
        return r.ravel()[o], c.ravel()[o]

    def hess(self, flat_vars, mesh, params, mult):
        w, n = flat_vars[:nx + nu], nx + nu
        H = np.zeros((n, n))
        for i in range(n):
            d = np.zeros(n)
            d[i] = 1e-4
            g = lambda s: mult @ dense_jac(self, w + s * d, mesh, params)
            H[i] = (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / 12e-4
        H = (H + H.T) / 2
        return H.ravel()[order(self, n * n)]

    return {
        "_implicit_jac": jac, "_implicit_jacobianstructure": structure,
        "_implicit_hess": hess, "_implicit_hessianstructure": hess_structure,
    }

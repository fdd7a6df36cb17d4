"""Exported C code computes the model, without memory errors."""
import os
import subprocess

import numpy as np

from checks.C10 import random_params, set_params, vehicle_point
from lib.harness import Family
from lib import models, real

PROPERTY = "C18"
RULE = ("random models (any sizes, submodels, array parameters, residuals, constrained outputs, "
        "structural zeros) and shipped models exported with MX and SX and several generator "
        "options, compiled with AddressSanitizer and UBSan and with MemorySanitizer, run with "
        "buffers of exactly the declared sizes on random states, inputs, mesh and parameters; "
        "distinct by model and options")
MIN = {"comparisons": 20000, "exports": 100, "asan": 100, "msan": 25, "calls": 1500,
       "null": 100, "vehicle": 2, "drone": 2, "unchanged": 100, "sized": 14,
       "neighbours": 15}
ASSUMPTIONS = ["casadi's generated helper functions declare sizes in forward_work and "
               "forward_sparsity_*, and the buffers have these sizes exactly"]

DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef R
#define R double
#endif
#ifndef I
#define I long long int
#endif
int forward(const R** arg, R** res, I* iw, R* w, int mem);
I forward_n_in(void); I forward_n_out(void);
const I* forward_sparsity_in(I i); const I* forward_sparsity_out(I i);
const char* forward_name_in(I i);
int forward_work(I *a, I *r, I *iw, I *w);
int forward_alloc_mem(void); int forward_checkout(void); void forward_release(int);
void forward_incref(void); void forward_decref(void);
static I nnz(const I* s) { if (s[2]) return s[0]*s[1]; return s[2+s[1]]; }
static R* buf(I n) { return (R*)malloc(n ? n*sizeof(R) : 1); }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "rb"); FILE* g = fopen(argv[2], "wb");
  I n_in = forward_n_in(), n_out = forward_n_out(), a, r, i, w, calls, c, k, j;
  if (forward_work(&a, &r, &i, &w)) return 7;
  printf("SIZES %lld %lld %lld %lld :", (long long)n_in, (long long)n_out, (long long)w, (long long)i);
  for (k=0;k<n_in;k++) { const I* s = forward_sparsity_in(k); printf(" %lld %lld %lld", (long long)s[0], (long long)s[1], (long long)nnz(s)); }
  for (k=0;k<n_out;k++) { const I* s = forward_sparsity_out(k); printf(" %lld %lld %lld", (long long)s[0], (long long)s[1], (long long)nnz(s)); }
  printf("\n");
  long long nc; if (fread(&nc, 8, 1, f) != 1) return 8; calls = nc;
  forward_incref();
  for (c=0;c<calls;c++) {
    long long skip; if (fread(&skip, 8, 1, f) != 1) return 8;
    const R** arg = (const R**)malloc(a ? a*sizeof(R*) : 1);
    R** res = (R**)malloc(r ? r*sizeof(R*) : 1);
    R* own_in[16]; R* own_out[16]; R* copy[16];
    for (k=0;k<n_in;k++) {
      I n = nnz(forward_sparsity_in(k)); own_in[k] = buf(n); copy[k] = buf(n);
      for (j=0;j<n;j++) { double v; if (fread(&v, 8, 1, f) != 1) return 8; own_in[k][j] = (R)v; copy[k][j] = (R)v; }
      arg[k] = own_in[k];
    }
    for (k=0;k<n_out;k++) { own_out[k] = buf(nnz(forward_sparsity_out(k))); res[k] = (skip >> k) & 1 ? 0 : own_out[k]; }
    I* iw = (I*)malloc(i ? i*sizeof(I) : 1); R* ww = buf(w);
    int mem = forward_checkout();
    int rc = forward(arg, res, iw, ww, mem);
    forward_release(mem);
    if (rc) return 9;
    for (k=0;k<n_in;k++) { if (memcmp(copy[k], own_in[k], nnz(forward_sparsity_in(k))*sizeof(R))) return 10; }
    for (k=0;k<n_out;k++) if (res[k]) for (j=0;j<nnz(forward_sparsity_out(k));j++) {
      double v = res[k][j]; if (v != v) v = v + 0; fwrite(&v, 8, 1, g); }
    for (k=0;k<n_in;k++) { free(own_in[k]); free(copy[k]); }
    for (k=0;k<n_out;k++) free(own_out[k]);
    free(arg); free(res); free(iw); free(ww);
  }
  forward_decref();
  fclose(f); fclose(g);
  return 0;
}
"""


def build(case, cfile, sanitizer, real_type="double", opt="-O1"):
    with open("driver.c", "w") as f:
        f.write(DRIVER)
    exe = f"./run_{os.path.basename(cfile)[:-2]}_{sanitizer}"
    if sanitizer == "asan":
        cmd = ["gcc", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    else:
        cmd = ["clang", "-fsanitize=memory"]
    cmd += [opt, "-g1", "-w", "-D_GNU_SOURCE", f"-DR={real_type}", "driver.c", cfile, "-lm",
            "-o", exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        case.violate(f"the exported code does not compile: {p.stderr[-600:]}")
    case.count(sanitizer)
    return exe


def run(case, exe, calls, what):
    """calls: [(skip mask, [arrays])] -> sizes, values"""
    with open("in.bin", "wb") as f:
        np.array([len(calls)], dtype=np.int64).tofile(f)
        for skip, arrays in calls:
            np.array([skip], dtype=np.int64).tofile(f)
            for a in arrays:
                np.asarray(a, dtype=np.float64).ravel().tofile(f)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77",
               UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="exitcode=77")
    env.pop("LD_PRELOAD", None)
    p = subprocess.run([exe, "in.bin", "out.bin"], capture_output=True, text=True, env=env,
                       timeout=200)
    if p.returncode:
        case.violate(f"{what}: exit {p.returncode}: {p.stderr[-1200:]}")
    sizes = [int(v) for v in p.stdout.split(":")[1].split()]
    case.count("calls", len(calls))
    return sizes, np.fromfile("out.bin")


def check(case, model, points, want, **export):
    """points: [(states, inputs, mesh, params tree)], want: [[4 arrays]]"""
    import casadi as cas

    rng = case.rng
    sizes_out = [model.num_states, model.num_outputs, model.num_con_outputs,
                 model.num_residuals]
    before, _ = model.get_recursive_params().to_flat_dict()
    T = export.pop("CasType", None)
    name = export.pop("name")
    kw = dict(export)
    if T:
        kw["CasType"] = {"MX": cas.MX, "SX": cas.SX}[T]
    model.export_c_code(name, **kw)
    case.count("exports")
    after, _ = model.get_recursive_params().to_flat_dict()
    case.equal(list(after), list(before), "parameters after the export")
    for k in before:
        case.require(type(after[k]) is type(before[k])
                     and np.array_equal(after[k], before[k]), f"parameter {k} after the export")
    case.count("unchanged")
    calls, exp = [], []
    for (st, inp, mesh, params), w in zip(points, want):
        flat, _ = params.tree_ravel()
        skip = 0
        if rng.random() < 0.3:
            skip = int(rng.integers(16))
            case.count("null", bin(skip).count("1"))
        calls.append((skip, [st, inp, [mesh], np.asarray(flat, dtype=float)]))
        exp.append(np.concatenate([np.ravel(v) for k, v in enumerate(w)
                                   if not skip >> k & 1] + [[]]))
    real_type = (export.get("options") or {}).get("casadi_real", "double")
    for san in ["asan"] + (["msan"] if rng.random() < 0.4 else []):
        exe = build(case, name, san, real_type)
        sizes, got = run(case, exe, calls, f"{san} {name}")
        n = len(np.ravel(calls[0][1][3]))
        shapes = [(sizes[3 * k], sizes[3 * k + 1], sizes[3 * k + 2]) for k in range(8)]
        for k, m in enumerate([model.num_states, model.num_inputs, 1, n] + sizes_out):
            case.equal(shapes[k][0] * shapes[k][1], m, f"size of argument or result {k}")
            case.equal(shapes[k][2], m, f"entries of argument or result {k}")
        case.equal(len(got), sum(map(len, exp)), "number of results")
        at = 0
        for c, w in enumerate(exp):
            tol = 1e-9 if real_type == "double" else 2e-4
            case.close(got[at:at + len(w)], w, f"{san} results of call {c}", rtol=tol,
                       atol=tol * (1 if real_type == "double" else 5), scale=1 + np.abs(
                           w).max(initial=0))
            at += len(w)


def options(rng):
    o = {}
    if rng.random() < 0.4:
        o["with_header"] = True
    if rng.random() < 0.3:
        o["mex"] = True
    if rng.random() < 0.2:
        o["casadi_real"] = "float"
    if rng.random() < 0.3:
        o["verbose"] = bool(rng.integers(2))
    if rng.random() < 0.2:
        o["casadi_int"] = "long long int"
    return o or None


def generated(case):
    rng = case.rng
    specs = [models.random_spec(rng, mesh=bool(rng.integers(2)), nonsmooth=rng.random() < 0.3)
             for _ in range(1 + int(rng.random() < 0.3))]
    near = rng.random() < 0.25  # models that only differ in some digits
    ms = []
    if near:
        specs = [specs[0], models.neighbour_spec(rng, specs[0])]
        case.count("neighbours")
    for i, spec in enumerate(specs):
        if rng.random() < 0.4 and not near:  # structural zeros
            for e in list(spec["eqs"]):
                if rng.random() < 0.5:
                    spec["eqs"][e] = []
        m = models.make_model(spec)
        outs = models.all_outputs(spec)
        if near and ms:
            m.set_con_outputs(tuple(ms[0][1].get_group_names("con_outputs") or ()))
        elif rng.random() < 0.6 and outs:
            k = int(rng.integers(0, len(outs) + 1))
            m.set_con_outputs(tuple(str(o) for o in rng.permutation(outs)[:k]))
        ms.append((spec, m))
    case.describe(models=[models.describe_spec(s) for s in specs])
    one_file = near or rng.random() < 0.5  # exported over each other
    kw = {}
    case.count("overwritten", one_file and len(ms) > 1)
    for i, (spec, m) in enumerate(ms):
        points, want = [], []
        for _ in range(int(rng.integers(8, 30))):
            if rng.random() < 0.3:
                ref, params = models.Reference(spec), m.get_recursive_params()
            else:
                ref, params = random_params_of(rng, spec, m)
            st = rng.uniform(-2, 2, len(spec["states"]))
            inp = rng.uniform(-2, 2, len(spec["inputs"]))
            mesh = float(rng.uniform(0, 3))
            f, o = ref.forward(st, inp, np.float64(mesh))
            names = m.get_group_names("outputs")
            want.append([f, [o[n] for n in names],
                         [o[n] for n in (m.get_group_names("con_outputs") or ())],
                         [o[n] for n in m.get_group_names("residuals")]])
            points.append((st, inp, mesh, params))
        if not (near and kw):
            kw = dict(name="model.c" if one_file else f"model{i}.c",
                      CasType=[None, "MX", "SX"][rng.integers(3)], options=options(rng))
            if rng.random() < 0.3:
                kw["includes"] = ["math.h"]
        case.event(str(kw))
        check(case, m, points, want, **kw)


def random_params_of(rng, spec, m):
    p, sub = random_params(rng, spec)
    return models.Reference(spec, params=p, sub_params=sub), set_params(
        m.get_recursive_params(), spec, p, sub)


def shipped(case):
    rng = case.rng
    if case.index % 2 == 0:
        from lumos.models.drone_model import DroneModel

        m = DroneModel()
        gen = lambda: (rng.uniform(-3, 3, m.num_states), rng.uniform(-2, 2, m.num_inputs),
                       float(rng.uniform(0, 2)))
        case.count("drone")
    else:
        from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack

        tires = ["PerantoniTire", "MF52"][int(rng.integers(2))]
        aero = ["ConstAero", "GPAero", "MLPAero"][int(rng.integers(3))]
        m = SimpleVehicleOnTrack(model_config=real.vehicle_config(tires, aero))
        case.describe(tires=tires, aero=aero)

        def gen():
            st, inp = vehicle_point(rng)
            return (np.array([st[n] for n in m.names.states]),
                    np.array([inp[n] for n in m.names.inputs]), float(rng.uniform(0, 2000)))
        case.count("vehicle")
    case.describe(model=type(m).__name__, T=case.index % 3, s=float(rng.random()))
    points, want = [], []
    for k in range(6):
        params = m.get_recursive_params()
        flat, _ = params.to_flat_dict()
        if k:
            for n in flat:
                if np.ndim(flat[n]) == 0 and rng.random() < 0.3:
                    params.set_param(n, float(flat[n] * rng.uniform(0.95, 1.05)))
        st, inp, mesh = gen()
        r = m.apply_and_forward_with_arrays(st, inp, mesh, params)
        points.append((st, inp, mesh, params))
        want.append([np.asarray(v, dtype=float) for v in (r.states_dot, r.outputs,
                                                           r.con_outputs, r.residuals)])
    check(case, m, points, want, name="vehicle.c" if case.index % 2 else "drone.c",
          CasType=["MX", "SX"][int(rng.integers(2))] if case.index % 2 == 0 else "MX",
          options=None)


def sized_model(own, sub):
    """A model and a submodel whose array parameters may have any sizes."""
    import lumos.numpy as lnp
    from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn,
                                   model_io, state_space_io)
    from lumos.models.composition import ModelMaker

    @model_io(inputs=("v",), outputs=("s",))
    class Sized(Model):
        def forward(self, inputs):
            a = self._params["a"] * inputs["v"]
            return ModelReturn(outputs=self.make_dict("outputs", s=lnp.dot(a, self._params["b"])))

        @classmethod
        def get_default_params(cls):
            return {"b": np.linspace(0, 1, sub), "a": np.linspace(1, 2, sub)}

    @state_space_io(states=("p", "q"), inputs=("u",), outputs=("e",))
    class SizedTop(StateSpaceModel):
        @classmethod
        def get_default_submodel_config(cls):
            return {"part": "Sized"}

        def forward(self, states, inputs, mesh=0.0):
            P = self._params
            s = self.call_submodel("part", inputs={"v": states["q"]}).outputs["s"]
            y = P["M"] @ P["c"]
            return StateSpaceModelReturn(
                states_dot=self.make_dict("states_dot", p=lnp.dot(P["c"], P["c"]) * inputs["u"]
                                          + P["z"] * mesh, q=lnp.dot(y, y) * states["p"] + s),
                outputs=self.make_outputs_dict(e=s * P["z"]))

        @classmethod
        def get_default_params(cls):
            return {"z": 0.5, "M": np.ones(own), "c": np.ones(own[1])}

    for cls in (Sized, SizedTop):
        try:
            ModelMaker.remove_from_registry(cls)
        except KeyError:
            pass
        ModelMaker.add_to_registry(cls)
    return SizedTop


def sized(case):
    """Parameters of other sizes than the default ones."""
    rng = case.rng
    size = lambda: ((int(rng.integers(1, 6)), int(rng.integers(1, 6))), int(rng.integers(1, 7)))
    model = sized_model(*size())()
    (r, c), n = size()
    case.describe(r=r, c=c, n=n, s=float(rng.random()))

    def data():
        p = model.get_recursive_params()
        v = {"z": float(rng.uniform(-2, 2)), "M": rng.uniform(-1, 1, (r, c)),
             "c": rng.uniform(-1, 1, c), "part.a": rng.uniform(-1, 1, n),
             "part.b": rng.uniform(-1, 1, n)}
        for k, x in v.items():
            p.set_param(k, x)
        return v, p

    model.set_recursive_params(data()[1])
    points, want = [], []
    for _ in range(8):
        v, p = data()
        st, u, mesh = rng.uniform(-2, 2, 2), rng.uniform(-2, 2, 1), float(rng.uniform(0, 3))
        s = float(v["part.a"] @ v["part.b"]) * st[1]
        y = v["M"] @ v["c"]
        points.append((st, u, mesh, p))
        want.append([[v["c"] @ v["c"] * u[0] + v["z"] * mesh, y @ y * st[0] + s],
                     [s * v["z"], s], [], []])
    check(case, model, points, want, name="sized.c",
          CasType=[None, "MX", "SX"][rng.integers(3)], options=options(rng))
    case.count("sized")


FAMILIES = [Family("generated", generated, 180, 1200, cost=2),
            Family("sized", sized, 24, 200, cost=2),
            Family("shipped", shipped, 9, 30, cost=10)]

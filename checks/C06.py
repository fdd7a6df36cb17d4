"""The layout of the decision vector is a bijection, and everything uses the same one."""
from collections import namedtuple

import numpy as np

from lib.harness import Family
from lib.ocps import RandomOCP

PROPERTY = "C06"
RULE = ("random groups, names, globals and numbers of stages; a dictionary model of the vector "
        "is compared with every way of reading, writing and indexing it; distinct by layout")
MIN = {"comparisons": 50000, "layouts": 300, "problems": 60, "rejections": 500,
       "flattened": 500}
ASSUMPTIONS = []

NAMES = ["v", "x", "y2", "y10", "psi", "a.b", "Z", "w_fl", "time", "mesh_scale", "q", "name"]


def check_operator(case, op, groups, names, globs, N, m):
    """names: {group: tuple}; N intervals of m stages each."""
    rng = case.rng
    S = N * (m - 1) + 1
    per_stage = sum(len(names[g]) for g in groups)
    n = S * per_stage + len(globs)
    case.equal((op.num_stages, op.num_var_stage, op.num_dec, op.num_all_stage_var,
                op.num_global_var, op.num_var_interval, op.has_global_var()),
               (S, per_stage, n, S * per_stage, len(globs), per_stage * m, bool(globs)),
               "sizes")
    case.equal(op.stage_var_names, [g + "." + v for g in groups for v in names[g]],
               "stage variable names")
    seen = {}
    for g in groups:
        for k, v in enumerate(names[g]):
            case.equal(op.get_var_index_in_group(g, v), k, f"index of {g}.{v} in its group")
            allst = np.asarray(op.get_var_index_in_dec(g, v))
            case.equal(allst.shape, (S,), f"indices of {g}.{v}")
            for s in range(S):
                i = int(op.get_var_index_in_dec(g, v, stage=s))
                case.equal(int(allst[s]), i, f"index of {g}.{v} at stage {s}")
                case.equal(int(op.get_var_index_in_dec(g, v, stage=s - S)), i,
                           f"negative stage of {g}.{v}")
                case.require(i not in seen and 0 <= i < n,
                             f"{g}.{v} at {s} shares index {i} with {seen.get(i)}")
                seen[i] = (g, v, s)
    for k, v in enumerate(globs):
        i = int(op.get_var_index_in_dec("global", v))
        case.require(i not in seen and 0 <= i < n, f"global {v} shares index {i}")
        seen[i] = ("global", v, None)
        case.equal(int(op.get_var_index_in_group("global", v)), k, f"index of global {v}")
    case.equal(len(seen), n, "the indices cover the vector")
    # write by name, read in every other way
    data = {g: rng.standard_normal((S, len(names[g]))) for g in groups}
    gl = {v: float(rng.standard_normal()) for v in globs}
    given_as = {}
    for g in groups:        # the values may be any kind of array
        if rng.random() < 0.2:
            data[g] *= 10.0 ** rng.integers(-12, 13)
        kind = ["float", "float", "int", "fortran", "view", "float32", "list"][rng.integers(7)]
        if kind == "int":
            data[g] = np.round(3 * data[g])
            given_as[g] = data[g].astype(int)
        elif kind == "float32":
            given_as[g] = data[g].astype(np.float32)
            data[g] = given_as[g].astype(float)
        elif kind == "fortran":
            given_as[g] = np.asfortranarray(data[g])
        elif kind == "view":
            given_as[g] = np.repeat(data[g], 2, axis=0)[::2]
        elif kind == "list" and data[g].size:
            given_as[g] = data[g].tolist()
        else:
            given_as[g] = data[g].copy()
    whole = rng.random() < 0.2
    for v in globs:
        if whole:
            gl[v] = int(rng.integers(-3, 4))
    x = np.full(n, np.nan)
    for i, (g, v, s) in seen.items():
        x[i] = gl[v] if g == "global" else data[g][s, names[g].index(v)]
    for _ in range(2):      # the keywords in any order
        given = list({**given_as, **gl}.items())
        flat = op.flatten_var(**dict(given[k] for k in rng.permutation(len(given))))
        case.equal(flat.shape, (n,), "size of the flat vector")
        case.require(np.allclose(flat, x, rtol=1e-12, atol=0),
                     "flatten_var: the flat vector has other values", counter="flattened")
        flat[:] = 0         # it is the caller's own
        case.require(all(np.array_equal(np.asarray(given_as[g], dtype=float), data[g])
                         for g in groups), "flatten_var shares memory with its arguments")
    if given:
        missing = dict(given)
        del missing[given[int(rng.integers(len(given)))][0]]
        case.raises(lambda: op.flatten_var(**missing), "flatten_var without one of the groups")
    u = op.unflatten_var(x)
    case.equal(u._fields, tuple(groups) + tuple(globs), "unflattened groups")
    for g in groups:
        case.close(getattr(u, g), data[g], f"unflattened {g}")
        case.close(op.get_interval_tensor(x, g),
                   np.stack([data[g][k * (m - 1):k * (m - 1) + m] for k in range(N)]),
                   f"interval tensor of {g}")
        idx = op.get_group_indcies_in_dec(g)
        case.close(x[idx], data[g].ravel(), f"group indices of {g}")
        for s in {0, S - 1, -1, -S, int(rng.integers(S))}:
            idx = op.get_group_indices_at_stage(g, s)
            case.close(x[idx], data[g][s], f"group indices of {g} at stage {s}")
        for k, v in enumerate(names[g]):
            case.close(op.get_var(x, g, v), data[g][:, k], f"get_var {g}.{v}")
            s = int(rng.integers(-S, S))
            case.equal(float(op.get_var(x, g, v, stage=s)), float(data[g][s, k]),
                       f"get_var {g}.{v} at {s}")
            for bad in (S, -S - 1, S + 5):
                case.raises(lambda: op.get_var_index_in_dec(g, v, stage=bad),
                            f"stage {bad} of {S}", exc=ValueError)
        case.raises(lambda: op.get_group_indices_at_stage(g, S), "stage out of range",
                    exc=ValueError)
        case.raises(lambda: op.get_var_index_in_dec(g, "no such variable"), "an unknown name")
    for v in globs:
        case.equal(float(getattr(u, v)), gl[v], f"unflattened global {v}")
        case.equal(float(op.get_var(x, "global", v)), gl[v], f"get_var global {v}")
    arr = op.get_stage_var_array(x)
    case.close(arr, np.hstack([data[g] for g in groups]), "stage variable array")
    st, g_ = op.split_stage_and_global_vars(x)
    case.close(op.merge_stage_and_global_vars(np.asarray(st), np.asarray(g_)), x, "split/merge")
    case.close(g_, [gl[v] for v in globs], "global part")


def operator(case):
    from lumos.optimal_control.utils import DecVarOperator

    rng = case.rng
    groups = ["states", "inputs", "states_dot", "con_outputs"][:int(rng.integers(1, 5))]
    if rng.random() < 0.4:
        groups = [str(g) for g in rng.permutation(groups)]
    names = {}
    for g in ["states", "inputs", "states_dot", "con_outputs", "outputs"]:
        k = int(rng.integers(0 if g != groups[0] else 1, 6 if rng.random() < 0.8 else 13))
        names[g] = tuple(str(v) for v in rng.permutation(NAMES)[:k])
    globs = tuple(str(v) for v in rng.permutation(["mesh_scale", "p", "T2"])[
        :int(rng.integers(0, 4))])
    N, m = int(rng.integers(1, 7)), int(rng.integers(2, 6))
    if rng.random() < 0.08:
        N, m = (int(rng.integers(8, 70)), m) if rng.random() < 0.7 else (N, int(rng.integers(6, 15)))
    op = DecVarOperator(
        model_var_names=namedtuple("Names", list(names))(**names), num_intervals=N,
        num_stages_per_interval=m, stage_var_groups=tuple(groups), global_var_names=globs)
    case.describe(groups=groups, names=names, globs=globs, N=N, m=m)
    check_operator(case, op, groups, names, globs, N, m)
    case.count("layouts")


def problem(case):
    o = RandomOCP(case.rng, backend=["custom", "casadi"][case.rng.integers(2)])
    case.describe(**o.describe())
    ocp, op = o.ocp, o.ocp.dec_var_operator
    groups = list(ocp.model.implicit_inputs)
    names = {g: tuple(getattr(ocp.model.names, g)) for g in groups}
    sp = o.spec
    case.equal({g: list(names[g]) for g in groups},
               {"states": sp["states"], "inputs": sp["inputs"], "states_dot": sp["states"],
                "con_outputs": o.con_outputs}, "groups and names of the problem")
    globs = () if o.fixed else ("mesh_scale",)
    check_operator(case, op, groups, names, globs, o.N, len(o.pts))
    case.equal((ocp.num_dec, ocp.num_stages), (op.num_dec, op.num_stages), "sizes")
    # the parts of the constraints, by name
    con = ocp.constraints(o.random_x())
    parts = ocp.split_constraints(con)
    S, nx = ocp.num_stages, len(sp["states"])
    ncont = o.N * len(o.A) * nx
    nalg = S * (len(o.con_outputs) + len(sp["residuals"]))
    want = ({"model_algebra": ncont + nalg} if o.condensed else
            {"model_algebra": S * nx + nalg, "continuity": ncont})
    if o.cyclic:
        want["cyclic"] = len(o.cyclic_vars)
    case.equal({k: len(v) for k, v in parts.items()}, want, "sizes of the named constraints")
    case.close(np.concatenate(list(parts.values())), con, "split constraints in order")
    case.count("problems")


FAMILIES = [Family("operator", operator, 4000, 12000), Family("problem", problem, 800, 2400)]

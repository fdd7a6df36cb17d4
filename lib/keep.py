"""A monitor of what the library returned: a call leaves the results of earlier calls alone.

The public functions below return new values (arrays, or tuples and dicts of them).  The last
few results of each are kept; a call of the same function must not change them.  (Whoever
called may do with a result what it likes, so nothing is compared between the calls.)
Results which share memory with an argument or with the object (views) may follow it, so they
are left out.
"""
import functools
import inspect
import sys

import numpy as np

KEEP = 8
WHERE = {
    "lumos.optimal_control.transcription": {
        "Transcription": ["get_continuity_matrices", "continuity_con"]},
    "lumos.optimal_control.collocation": {
        None: ["get_collocation_points", "build_lagrange_differential_matrix",
               "build_lagrange_integration_matrix"]},
    "lumos.optimal_control.utils": {
        None: ["batch_conv1d", "stack_and_increment", "create_offset_structure"],
        "DecVarOperator": [
            "merge_stage_and_global_vars", "split_stage_and_global_vars", "flatten_var",
            "unflatten_var", "get_interval_tensor", "get_var", "get_stage_var_array",
            "get_group_indices_at_stage", "get_group_indcies_in_dec"]},
    "lumos.optimal_control.nlp": {
        "BaseConstraints": ["constraints", "jacobian", "hessian"],
        "BaseObjective": ["gradient", "hessian"],
        "CompositeProblem": ["gradient", "constraints", "jacobian", "hessian",
                             "split_constraints"]},
    "lumos.optimal_control.scaled_mesh_ocp": {
        "ScaledMeshOCP": ["get_mesh_from_dec_var", "get_mesh_from_scale", "get_init_guess"]},
    "lumos.optimal_control.model_solver": {"ModelSolver": ["get_var"]},
    "lumos.models.tracks": {
        None: ["cartesian_to_curvilinear", "curvilinear_to_cartesian"],
        "Track": ["heading_at", "curvature_at", "left_distance_at", "right_distance_at"]},
    "lumos.models.base": {
        "Model": ["forward", "apply_and_forward", "apply_and_forward_with_arrays",
                  "forward_with_arrays", "make_vector", "make_dict", "make_const_vector",
                  "make_const_dict", "make_outputs_dict", "make_random_vector",
                  "batched_forward", "implicit"]},
    "lumos.models.ml": {None: ["sqeuclidean_distance", "rbf_kernel", "tanh_kernel",
                               "poly_kernel", "gp", "mlp"]},
}
COUNT = {}
_kept = {}
_problems = []


def reset():
    _kept.clear()
    _problems.clear()
    COUNT.clear()


def arrays(x, depth=0):
    """The numpy arrays in a value"""
    if type(x) is np.ndarray:
        return [x] if x.dtype != object and 0 < x.size <= 200000 else []
    if depth > 3:
        return []
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays(v, depth + 1)]
    if isinstance(x, (tuple, list)) and len(x) <= 64:
        return [a for v in x for a in arrays(v, depth + 1)]
    return []


def problems():
    return list(_problems)


def own(args, kwargs):
    out = arrays(args, 0) + arrays(kwargs, 0)
    if args and hasattr(args[0], "__dict__"):
        for v in vars(args[0]).values():
            out += arrays(v, 1)
    return out


def wrap(fn, name):
    @functools.wraps(fn)
    def call(*args, **kwargs):
        before = [(a, a.copy()) for a in _kept.get(name, ())]
        out = fn(*args, **kwargs)
        COUNT["results_looked_at_again"] = COUNT.get("results_looked_at_again", 0) + len(before)
        for a, copy in before:
            if not np.array_equal(a, copy, equal_nan=copy.dtype.kind in "fc"):
                if name not in [n for n, _ in _problems]:
                    _problems.append((name, f"{copy.ravel()[:4]} became {a.ravel()[:4]}"))
        found = arrays(out)
        if found:
            mine = own(args, kwargs)
            new = [a for a in found if not any(np.may_share_memory(a, b) for b in mine)]
            _kept[name] = _kept.get(name, [])[-KEEP:] + new[:KEEP]
        return out
    call._is_kept = True
    return call


def subclasses(cls):
    for c in cls.__subclasses__():
        yield c
        yield from subclasses(c)


def install():
    """Wrap what is loaded by now (again for the classes which are defined later)"""
    for module, what in WHERE.items():
        mod = sys.modules.get(module)
        for cls, names in what.items() if mod else ():
            if cls is None:
                for name in names:
                    install_function(mod, name)
                continue
            base = getattr(mod, cls, None)
            if not isinstance(base, type):
                continue
            for c in [base, *subclasses(base)]:
                for name in names:
                    fn = vars(c).get(name)
                    if inspect.isfunction(fn) and not (
                            getattr(fn, "__isabstractmethod__", False)
                            or hasattr(fn, "_is_kept")):
                        setattr(c, name, wrap(fn, f"{c.__name__}.{name}"))


def install_function(mod, name):
    fn = getattr(mod, name, None)
    if not inspect.isfunction(fn) or hasattr(fn, "_is_kept"):
        return
    new = wrap(fn, name)
    for other in list(sys.modules.values()):
        if getattr(other, "__name__", "").split(".")[0] == "lumos":
            for k, v in list(vars(other).items()):
                if v is fn:
                    setattr(other, k, new)

"""Writes the 'fixed' entries of known_findings.json from /repo's fix commits."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "casadi dot with one element": ("C10", "dot of a CasADi vector, or of a matrix of one column, with a scalar or a vector of one element raised (numpy scales)"),
 "casadi dot of a matrix of one row": ("C20", "dot of a CasADi matrix of one row and a vector raised"),
 "a mesh scale that is not positive": ("C14", "set_mesh_scale accepted zero and negative scales, which the constructor refuses"),
 "scales that are not positive": ("C22", "a ScaleConfig of zero or of a negative value was accepted, and turned the bounds given to the solver around"),
 "bounds of the wrong size": ("C08", "set_state_bounds with a valid lower bound and an upper one of the wrong size raised, but kept the lower one"),
 "a problem does not change with": ("C22", "a problem kept the caller's list of constraint outputs and its boundary conditions: changing them later broke or changed the problem"),
 "unknown constraint outputs are": ("C23", "set_con_outputs accepted names that are no outputs, and every later evaluation of the model raised"),
 "a failing evaluation does not": ("C12", "after an evaluation that failed halfway, a model with submodels rejected every later one (its buffer of submodel returns was left in use)"),
 "remainder of CasADi": ("C20", "mod and remainder of CasADi values gave the remainder to the nearest multiple (mod(2.7, 1) was -0.3)"),
 "norm of CasADi vectors with ord=-inf": ("C20", "norm(x, ord=-inf) of a CasADi vector was the largest absolute value"),
 "split CasADi arrays": ("C20", "split of a CasADi array into a numpy integer's number of parts, or at a tuple or array of indices, was wrong"),
 "an array of CasADi vectors": ("C20", "array([v, w]) of CasADi vectors was one long column"),
    "Lagrange polynomials stay accurate": ("C05", "the continuity matrices of LGR and LGRIntegral had an error of 2e-2 with 20 stages and were useless with 30, because the Lagrange polynomials were kept as coefficients of powers"),  # subject (start) -> property, what failed
 "use_backend restores": ("C19", "leaving a nested use_backend reset the backend to the default instead of the one on entry"),
 "cmap and lmap": ("C21", "cmap/lmap took the batch size from an unmapped argument"),
 "do not use np.int": ("C02", "the condensed hessian structure raised AttributeError (np.int)"),
 "building a condensed": ("C22", "building a condensed OCP changed the caller's sim_config"),
 "ModelSolver looks up": ("C27", "ModelSolver.hessian looked up a name that is never stored"),
 "Model.apply_and_forward": ("C12", "Model.apply_and_forward_with_arrays called itself with the wrong function"),
 "log the mesh": ("C16", "the logged mesh was computed from scaled decision variables"),
 "evaluating a model with given": ("C12", "params and tracers given to one evaluation stayed in the model"),
 "modify_model_param works": ("C13", "modify_model_param raised on a condensed OCP"),
 "set_normalized_mesh on": ("C14", "set_normalized_mesh on an existing OCP left the old mesh in the model algebra"),
 "recompute the hessian's": ("C28", "the triangular hessian entries of earlier parts were used after constraints or objectives changed"),
 "give the hessian structure": ("C02", "hessianstructure gave IPOPT upper triangle entries"),
 "build the condensed jacobian": ("C01", "the condensed jacobian structure missed entries that were zero at a random point"),
 "compile casadi functions": ("C17", "concurrent or killed builds left truncated or foreign compiled libraries"),
 "each solve logs": ("C16", "a second solve appended to the first one's history and directory"),
 "log the solution": ("C16", "the final logged iteration was the last evaluated point, not the solution"),
 "casadi diff": ("C20", "casadi diff of order 2 and of 2d arrays was wrong"),
 "casadi roll": ("C20", "casadi roll by more than one element and of 2d arrays was wrong"),
 "casadi mean": ("C20", "casadi mean over all elements of a 2d array was wrong"),
 "each LTCConfig": ("C22", "all LTCConfigs shared the default BoundConfig, ScaleConfig and BoundaryConditionConfig objects"),
 "casadi reshape": ("C20", "casadi reshape reordered the elements column major"),
 "casadi dot": ("C20", "casadi dot and inner of matrices were sums of elementwise products"),
 "casadi norms": ("C20", "casadi matrix norms of order 1 and inf, and axis=-1, were wrong"),
 "casadi infinity norms of MX": ("C20", "casadi infinity norms of MX expressions could not be evaluated"),
 "casadi zeros_like": ("C20", "casadi zeros_like of vectors raised"),
 "casadi infinity norm": ("C20", "casadi infinity norm was wrong"),
 "casadi geomspace": ("C20", "casadi geomspace was not geometric"),
 "raise the intended": ("C20", "unsupported arguments raised unrelated errors"),
 "ConstAero does": ("C12", "ConstAero returned its own parameter dictionary as its outputs"),
 "trees use the given": ("C11", "trees ignored the given delimiter below the first level"),
 "matrix parameters keep": ("C10", "matrix parameters were transposed with the casadi backend"),
 "casadi backend with models": ("C10", "linear models (empty hessian structure) failed with the casadi backend"),
 "one-element array": ("C11", "one-element array parameters became scalars when unraveled"),
 "batched forward with": ("C10", "batched forward with the custom backend did not return arrays"),
 "deserialize the logging": ("C22", "a config made from to_dict() kept its logging_config as a dict, which then failed"),
 "call the custom hessian": ("C02", "the custom hessian was called with arguments in another order than its signature"),
 "go back to the original": ("C12", "parameters that do not fit the model stayed half applied after the failing evaluation"),
 "modify_model_param rejects": ("C13", "modify_model_param accepted names that do not exist: no effect with jax, later failures with casadi"),
 "LTCConfig does not change": ("C22", "LTCConfig added names to the list of non cyclic variables given by the caller"),
 "log a solve that stops": ("C16", "with logging, a solve that ends before its first iteration raised"),
 "the log of a solve does not": ("C16", "iterations logged by a solve that raised were merged in the log of the next solve"),
 "find the logged iterations": ("C16", "with special characters like [] in the directory the logged iterations were not found nor merged"),
 "only constraints count": ("C16", "outputs with _con. in their name counted for the logged largest violation"),
 "feasibility solves": ("C15", "solving a problem without objectives with the jax backend raised (no constant objective yet when profiling)"),
    "MLPAero applies its layers in order": ("C32", "MLPAero with more than ten layers applied them in the order of their names (10 before 2) once its parameters were flattened, as every problem does"),
    "tire files with tabs": ("C26", "names of tire file lines that use tabs kept the tab, so the coefficient was not found by its name"),
    "any of a casadi array": ("C20", "any() of a casadi array with structural zeros was 0 although an entry was not (casadi's logic_any counts the entries it stores)"),
    "refused bounds and boundary": ("C08", "an update of bounds or conditions with an invalid entry kept the entries before it, and an invalid condition stayed in the problem: every later update raised"),
    "indices of an empty group": ("C06", "the indices of a group without variables were floats, so that indexing with them raised"),
    "a rejected track": ("C30", "set_track with an invalid track table raised but kept the new track and mesh scale, with the bounds of the old track"),
    "refused scales": ("C07", "set_scales with an unknown name left the variables' scales (used when solving, logging and adding parts) different from those of the parts"),
    "accept lists of configurations": ("C22", "a configuration rebuilt from json (lists for tuples) was refused, or with two stages silently got wrong bounds"),
}
old = {"findings": []}
path = os.path.join(root, "known_findings.json")
if os.path.exists(path):
    old = json.load(open(path))
known = [f for f in old["findings"] if f["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "87c66a2.."],
                     capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    key = [k for k in PROP if s[5:].startswith(k)]
    assert key, s
    key = [max(key, key=len)]
    p, what = PROP[key[0]]
    fixed.append({"property": p, "status": "fixed", "commit": h, "mech": None, "what": what,
                  "line": f"fixed: property={p} {h} {what}"})
json.dump({"findings": known + fixed}, open(path, "w"), indent=1)
print(len(known), "known", len(fixed), "fixed")

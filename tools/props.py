"""The properties, and how each is decided; `python3 tools/gen.py` writes properties.jsonl and
MANIFEST.json from this."""

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mechanism=mechanism, observe=observe, note=note))


OC = "lumos/optimal_control/"
NLP, SM, FM = OC + "nlp.py", OC + "scaled_mesh_ocp.py", OC + "fixed_mesh_ocp.py"
BASE = "lumos/models/base.py"

prop("C01", "The constraint Jacobian given to the solver is the true derivative",
     "For every model, problem configuration and point, the sparse constraint Jacobian of an "
     "optimal control problem, assembled from its reported structure and values (duplicate "
     "entries add up), equals the derivative of the problem's constraints with respect to the "
     "scaled decision variables. The structure has in-range indices, does not change between "
     "evaluations, and covers every entry that can be nonzero at any point.",
     ["inputs", "programs", "configurations"],
     "all models (any names, sizes, parameters, submodels, residuals, constrained outputs), "
     "transcriptions, meshes, cyclic and condensed settings, scales, backends and points",
     "Existing tests compare two brachistochrone/drone problems at a handful of points with "
     "finite differences, mostly unscaled and lifted.",
     [NLP, SM, FM, OC + "convolution.py", BASE],
     ["ConvConstraints/_continuity_jacobian and _condensed_jacobian assemble the triplets",
      "set_scales propagates scales to every constraint"],
     ["ocp.jacobian", "ocp.jacobianstructure", "ocp.constraints"],
     "every entry is compared with complex-step derivatives of an independent discretisation "
     "on generated models, and with finite differences on the shipped problems")

prop("C02", "The Hessian given to the solver is the true Lagrangian Hessian",
     "For every model, problem configuration, point, multipliers and objective factor, the "
     "sparse Hessian of an optimal control problem holds exactly the lower triangle of the "
     "second derivative of objective factor times objective plus multipliers times "
     "constraints, in the scaled decision variables. Its structure is in range, strictly lower "
     "triangular including the diagonal, constant between evaluations, and the values follow "
     "the arguments of the current call, whatever was evaluated before.",
     ["inputs", "programs", "configurations", "histories"],
     "all models, configurations, points, multipliers, objective factors and orders of calls",
     "Existing tests check Hessians of two small problems at one point; errors only slow the "
     "solver down or make it fail elsewhere.",
     [NLP, SM, FM, OC + "convolution.py", BASE],
     ["CompositeProblem.hessian stacks and triangularises", "stage Hessian by backend",
      "condensed Hessian by the chain rule"],
     ["ocp.hessian", "ocp.hessianstructure"],
     "compared along random directions with differences of exact (complex-step) gradients of "
     "an independent Lagrangian")

prop("C03", "The objective and its gradient are consistent and as defined",
     "The objective of a problem is the sum of its registered objectives, in unscaled units: "
     "by default the total time (the mesh scale, or the final minus the initial time). The "
     "gradient is the derivative of that value with respect to the scaled decision variables, "
     "at every point and also after objectives are added, replaced or removed, or scales are "
     "changed.",
     ["inputs", "configurations", "histories"],
     "all problems, points, scales and sets of objectives",
     "Existing tests look at single objectives without scales.",
     [NLP, SM, FM], ["BaseObjective scales", "CompositeProblem sums objectives"],
     ["ocp.objective", "ocp.gradient"],
     "objective and gradient compared with an independent sum and its complex-step derivative")

prop("C04", "Constraints are exactly the discretised model equations",
     "The constraint vector of an optimal control problem equals, entry by entry, an "
     "independent discretisation of the model: collocation defects on every interval with its "
     "own length, dynamics and output defects and residuals at every stage evaluated at that "
     "stage's mesh value, and first-equals-last for exactly the cyclic variables; all divided "
     "by the documented scales. Constraints are all equality constraints with zero bounds.",
     ["inputs", "programs", "configurations"],
     "all models, transcriptions, meshes, configurations, parameters and points",
     "Existing tests only check that solutions look right on two problems.",
     [SM, FM, OC + "transcription.py", OC + "convolution.py"],
     ["_continuity_constraints", "ConvConstraints batching of the model algebra"],
     ["ocp.constraints", "ocp.objective", "ocp.cl", "ocp.cu"],
     "every entry compared with an independent implementation written from the documentation")

prop("C05", "Transcriptions integrate with their stated order and points",
     "Each transcription's interval points start at 0, end at 1 and increase strictly; its "
     "matrices reproduce exactly every polynomial up to the degree the method is exact for, "
     "and the Legendre-Gauss-Radau points, differentiation and integration matrices agree with "
     "independent values. One step on a linear system converges with the method's order, and the "
     "differential Radau form is A- and L-stable.",
     ["inputs", "configurations"],
     "all transcriptions, 2 to 40 stages, polynomials and linear systems",
     "Existing tests check a few orders on a few polynomials.",
     [OC + "transcription.py", OC + "collocation.py"],
     ["barycentric differentiation matrix", "LGR points as polynomial roots"],
     ["make_transcription(...)", "collocation functions"],
     "compared with barycentric and quadrature formulas, and by observed order and stability")

prop("C06", "Every decision variable has exactly one place in the vector",
     "Names and positions of decision variables are in one-to-one correspondence: the index "
     "sets of all groups, stages and globals partition the decision vector, reading a variable "
     "by name returns what was written by name, and flattening and unflattening are inverse. "
     "Result tables and split constraints use the same layout.",
     ["inputs", "configurations"],
     "all group names and sizes, numbers of stages, globals, condensed or lifted",
     "Existing tests use one fixed layout.",
     [OC + "utils.py", SM], ["DecVarOperator index arithmetic"],
     ["dec_var_operator.*", "ocp.split_constraints"],
     "a plain dictionary model runs beside the real operator")

prop("C07", "Scaling changes units only, never the problem",
     "Scaling multiplies: a problem with scales evaluated at x divided by the scales has "
     "the constraints (divided by the documented constraint scales), objective, bounds, "
     "Jacobian, gradient and Hessian of the unscaled problem, with derivatives transformed"
     " by the chain rule. Setting scales repeatedly is the same as building the problem "
     "with the final ones; unknown names are rejected and change nothing.",
     ["inputs", "configurations", "histories"],
     "all positive scales, problems, points and histories of scale updates",
     "Existing tests use one set of scales on one problem.",
     [NLP, SM],
     ["set_scales", "update_jac_scales/update_hess_scales"],
     ['ocp.set_scales', 'ocp.constraints/jacobian/gradient/hessian', 'ocp.get_bounds, ocp.lb, ocp.ub'],
     "two real problems side by side (scaled and unscaled), related by the chain rule")

prop("C08", "Bounds and boundary conditions mean what was configured",
     "After any sequence of bound and boundary-condition updates, the lower and upper "
     "bound of every decision variable, in unscaled units, is the last bound set for that "
     "variable (unbounded if never set), except that at the stages named by boundary "
     "conditions it is the value of the last condition for that stage; conditions survive "
     "later bound updates, and cyclic and fixed-derivative settings of the problem do not "
     "disturb them. Invalid names, stages or lengths are rejected and change nothing.",
     ["histories", "configurations"],
     "all sequences of update_bounds, boundary-condition updates, scale changes and default "
     "resets",
     "Existing tests set bounds once.",
     [SM, NLP],
     ["_set_var_bounds", "_apply_boundary_conditions"],
     ["ocp.lb", "ocp.ub", "ocp.get_lb", "ocp.get_ub"],
     "a dictionary model of the bounds replays every history")

prop("C09", "Condensed and lifted problems are the same problem",
     "A condensed problem keeps the state derivatives in its vector but fixes them to zero"
     " and ignores them: its constraints, objective and derivatives equal those of the "
     "lifted problem after eliminating the state derivatives with the dynamics, and do not"
     " depend on their entries. Building or using one does not change the other or the "
     "configuration given by the caller, and both have the same solutions.",
     ["inputs", "configurations"],
     "all models, transcriptions, meshes, scales, cyclic settings and points",
     "Existing tests solve one problem both ways.",
     [SM],
     ["_condensed_constraints/_jacobian/_hessian"],
     ["ocp.constraints", "ocp.jacobian", "ocp.hessian"],
     "two real problems built from one configuration, related by exact elimination")

prop("C10", "All backends compute the same values and derivatives",
     "For every model, the JAX, CasADi and custom backends give the same forward values, "
     "constraints, Jacobians and Hessians at every input, including batched evaluation, array "
     "parameters and non-smooth functions away from their kinks. Batched evaluation equals "
     "evaluating one stage at a time.",
     ["inputs", "programs"],
     "all models, parameters, batch sizes and points",
     "Existing tests compare backends on the shipped models at default parameters.",
     [BASE, "lumos/numpy/utils.py", "lumos/numpy/casadi_numpy/*"],
     ["make_batched functions per backend", "casadi code generation"],
     ["model.forward_with_arrays", "model.batched_forward", "model_algebra"],
     "each backend against the same independent reference")

prop("C11", "Trees of parameters and configurations round-trip",
     "Getting, setting, adding and replacing subtrees or values of a tree by path behaves "
     "like a nested dictionary for any depth, names and delimiter; flattening a parameter "
     "tree and unflattening it gives the same tree with the same shapes and values; and "
     "bad paths are rejected without changing the tree.",
     ["histories", "inputs"],
     "all trees, paths, delimiters and operation sequences",
     "Existing tests use one small tree per operation.",
     ["lumos/models/tree_utils.py"],
     ["Tree path operations", "flatten/unflatten"],
     ["ParameterTree / ConfigTree methods"],
     "a nested dictionary model replays every history")

prop("C12", "Evaluation depends on its arguments only and leaves no trace",
     "Evaluating a model with explicitly given parameters uses exactly these, at every "
     "level of the model, and afterwards the model's own parameters are unchanged and "
     "plain numeric values (no tracers or symbols). Replacing values in a parameter tree "
     "given to or taken from a model never changes the model, another model or the class "
     "defaults. Interleaving evaluations of several models, backends and parameter sets, "
     "including failing ones, gives the same results as each alone.",
     ["histories", "programs"],
     "all models, parameter sets and interleavings of evaluations, including failing ones",
     "Existing tests evaluate one model once.",
     [BASE, "lumos/models/composition.py"],
     ["forward_with_arrays swaps parameters in and out", "get_recursive_params"],
     ["model.forward", "model.apply_and_forward", "model.get_recursive_params()"],
     "state of models recorded before and after every operation; results against a reference")

prop("C13", "Changing a parameter equals rebuilding with that parameter",
     "After any sequence of parameter changes by path, a problem has exactly the constraints, "
     "objective, Jacobian and Hessian of a problem freshly built with the final parameters; a "
     "bad path is rejected and changes nothing.",
     ["histories", "configurations"],
     "all models, paths, values and orders of changes and evaluations, every backend, "
     "condensed and lifted",
     "Existing tests change one scalar once on one problem.",
     [SM, FM, BASE], ["modify_model_param forwards params to the constraints"],
     ["ocp.modify_model_param", "ocp.constraints/jacobian/hessian"],
     "against a fresh problem and the independent reference")

prop("C14", "Changing the mesh equals rebuilding with that mesh",
     "After any sequence of mesh changes (interval points, mesh scale), a problem is "
     "indistinguishable from one freshly built with the final mesh, and the mesh it "
     "reports is increasing, from 0 to the mesh scale, with stages at the transcription's "
     "points of each interval. Invalid interval points (wrong length, not increasing, "
     "wrong ends) are rejected and change nothing; a mesh scale that is not positive is "
     "rejected when a problem is built.",
     ["histories", "configurations", "inputs"],
     "all sequences of valid and invalid meshes, transcriptions and problem kinds",
     "Existing tests set one mesh once.",
     [SM, FM],
     ["set_normalized_mesh", "set_mesh_scale"],
     ["ocp.get_mesh_from_dec_var", "ocp.get_mesh", "ocp.constraints"],
     "against a fresh problem and the independent discretisation")

prop("C15", "A reported solution really solves the problem, in any formulation",
     "When a solve reports success, the returned point satisfies the discretised equations, "
     "bounds and boundary conditions to tolerance, the reported objective is the objective at "
     "that point, and the first-order optimality conditions hold. Condensed, lifted, scaled, "
     "fixed or free formulations and all backends reach the same optimum of a convex problem.",
     ["configurations", "programs"],
     "all problem configurations, including repeated and warm-started solves",
     "Existing tests solve two or three problems and compare one number.",
     [NLP, SM, FM], ["BaseProblem.solve and its IPOPT options"],
     ["ocp.solve"],
     "the returned point is judged by independent equations and a KKT check")

prop("C16", "Logs record the solve they belong to, faithfully",
     "A problem built with logging has a directory of its own, and after each solve the "
     "files there describe that solve: the history has its iterations only; every result "
     "table holds, in unscaled units and under the right names, exactly the iterate it is "
     "for, on its mesh, with the model's outputs there; the final table is the returned "
     "solution. Logging does not change the result of the solve.",
     ["histories", "configurations"],
     "all sequences of solves, logging intervals and problem settings",
     "Existing tests check that files exist for one solve.",
     [SM],
     ["_initialize_logging, _log, _create_result_df"],
     ["files in the logging directory", "ocp.logging_dir"],
     "files are compared with iterates recorded independently during the solve")

prop("C17", "The compiled-function cache never gives a wrong or broken function",
     "Generating and loading compiled functions gives the function asked for, whatever other "
     "functions, processes or earlier runs used the same directory: concurrent builds, builds "
     "killed at any moment and leftover files never make a later build load a truncated or "
     "different function.",
     ["schedules", "crash_points", "histories"],
     "all interleavings of building processes in one directory and all kill moments",
     "Existing tests build one function in one process.",
     ["lumos/numpy/utils.py"], ["name by content hash", "compile then rename"],
     ["codegen function", "files in the working directory"],
     "real processes racing and killed, each result compared with the expected values")

prop("C18", "Exported C code computes the model, without memory errors",
     "C code exported from a model compiles and, for all inputs and parameters, returns "
     "the values of the model's own evaluation in the documented order of inputs, "
     "parameters and results; it reads and writes only within its declared argument, "
     "result and work buffers.",
     ["inputs", "programs"],
     "all models, parameters and inputs",
     "The existing export test needs MATLAB and is not run.",
     [BASE, "lumos/numpy/utils.py"],
     ["Model.export_c"],
     ["generated C called under AddressSanitizer and UBSan with exact-size buffers"],
     "sanitized driver with guard-sized heap buffers; values against the reference")

prop("C19", "Backend selection follows nesting, whatever happens inside",
     "The active array backend is the one of the innermost active selection, and on "
     "leaving a selection, normally or by an exception, the backend active on entry is "
     "back, for any nesting; selecting an unknown backend changes nothing. Every function "
     "always dispatches to the active backend.",
     ["histories"],
     "all nestings of selections, exceptions and unknown names",
     "Existing tests switch once.",
     ["lumos/numpy/__init__.py", "lumos/numpy/utils.py"],
     ["use_backend", "set_backend"],
     ["lnp.backend queries", "type of results"],
     "a stack model replays every history")

prop("C20", "CasADi array functions agree with NumPy",
     "Every function of the CasADi array module, on numeric and on symbolic arguments, agrees "
     "with the NumPy function of the same name on the arguments it documents as supported, in "
     "values, shape and orientation, for vectors and matrices of any size, and rejects what it "
     "does not support.",
     ["inputs"], "all functions, sizes, arguments and values, symbolic or numeric",
     "Existing tests check a few functions at single values.",
     ["lumos/numpy/casadi_numpy/*.py"], ["per-function dispatch on casadi types"],
     ["lumos.numpy.casadi_numpy.*"],
     "NumPy itself is the oracle; symbolic results evaluated at random numbers")

prop("C21", "Mapping, convolution and sparse utilities match plain loops",
     "The batched map functions (for every backend, choice of mapped and constant "
     "arguments and batch size), the strided convolution of a function over stages "
     "(overlap not larger than the stride), and its Jacobian and Hessian triplets equal "
     "evaluating the function in a plain loop and differentiating the result.",
     ["inputs", "programs"],
     "all functions, batch sizes, axes, strides and inputs",
     "Existing tests use one function and one size.",
     ["lumos/numpy/utils.py", OC + "convolution.py", OC + "utils.py"],
     ["lmap/cmap", "batch_conv1d"],
     ["return values"],
     "plain numpy loops and complex-step derivatives")

prop("C22", "Configuration objects are validated, independent and lossless",
     "A configuration built from defaults and overrides contains exactly these, serialises"
     " to a dictionary and back without loss, rejects unknown fields and bounds that are "
     "crossed or of unequal shapes, and never shares state: no use of a configuration, in "
     "building, updating or solving problems, changes the caller's object, the class "
     "defaults or another problem's configuration.",
     ["histories", "configurations"],
     "all configurations and sequences of uses",
     "Existing tests build single configurations.",
     [OC + "config.py", SM],
     ["SimConfig and BoundConfig dataclasses"],
     ["config fields before and after"],
     "deep snapshots before and after every operation")

prop("C23", "Composed models are wired exactly as configured",
     "A model made from a configuration has exactly the submodels the configuration names,"
     " at any depth, with default parameters overridden exactly where given; each submodel"
     " sees the inputs its parent passes, its outputs appear in the parent's outputs under"
     " its own name, selected names come out in the requested order, and missing or "
     "unknown names and duplicate registrations are rejected without effect (inputs that "
     "are not needed are ignored).",
     ["programs", "configurations"],
     "all compositions, names, orders and overrides",
     "Existing tests compose two fixed models.",
     [BASE, "lumos/models/composition.py"],
     ["ModelMaker", "call_submodel and the outputs buffer", "model_io"],
     ["model outputs, names, parameters"],
     "random nested compositions against a recursive reference")

prop("C24", "Track geometry is consistent",
     "For every track file and every track made from points or a curvature profile, the "
     "curvature, heading and distances to both sides at any distance are those of the "
     "data, piecewise linear between data points in arc length along the chords and "
     "constant beyond the ends; at the data points curvature is that of second-order "
     "differences and heading its cumulative integral, so heading and curvature are "
     "consistent and converge to those of a smooth curve. Moving, turning, mirroring, "
     "scaling or reversing the points transforms the results accordingly.",
     ["inputs"],
     "all tracks, distances and offsets",
     "Existing tests check one track at a few points.",
     ["lumos/models/tracks.py", "lumos/models/kinematics.py"],
     ["RaceTrack interpolation"],
     ['curvature_at, heading_at, left_distance_at, right_distance_at', 'total_distance'],
     "independent numpy interpolation of the raw data and numerical calculus")

prop("C25", "Vehicle dynamics obey Newton's laws and symmetry",
     "For every state, input and parameter set, the vehicle's accelerations are those of "
     "the summed tire and aerodynamic forces and moments of the outputs it reports, its "
     "vertical tire loads carry weight plus downforce and transfer load with the given "
     "accelerations without changing the total, wheel accelerations follow the torque "
     "balance of drive, brakes and tires, drive power and brake torque are split as the "
     "parameters say, tire slips are those of rigid-body motion, and mirroring left and "
     "right mirrors the motion. On a track, all rates are those in time times the time per"
     " distance.",
     ["inputs", "configurations"],
     "all states, inputs, parameters, tire and aero models",
     "Existing tests check a few nominal values.",
     ["lumos/models/vehicles/simple_vehicle.py", "lumos/models/simple_vehicle_on_track.py",
      "lumos/models/aero/aero.py"],
     ["SimpleVehicle.forward"],
     ["model outputs"],
     "balance equations re-derived from the reported outputs, and a mirrored twin run")

prop("C26", "Tire models are physical and read their data faithfully",
     "For every slip and load in range, the MF52 and Perantoni tire forces are finite and "
     "equal an independent evaluation of the published formulas with the parameters in "
     "use; the Perantoni tire has no force at zero slip, opposes slip, is odd under "
     "mirroring and stays within its friction ellipse, and the MF52 tire has the stiffness"
     " of its coefficients. Every coefficient of a tire file is read with exactly its "
     "value, whatever the spacing, tabs, comments or line ends.",
     ["inputs", "configurations"],
     "all tire files, parameters and operating points",
     "Existing tests compare a few points with stored numbers.",
     ["lumos/models/tires/pacejka.py", "lumos/models/tires/perantoni.py",
      "lumos/models/tires/utils.py"],
     ["MF52 / MF61 formulas", "tir parser"],
     ["model outputs", "parameters"],
     "independent implementation of the formulas, written as scalar code")

prop("C27", "The steady-state model solver solves what was asked",
     "When the model solver reports success, the returned variables satisfy the requested "
     "fixed values and bounds and the model's equations with its parameters to tolerance, "
     "and are optimal for the requested objectives; its derivatives are exact in any "
     "scales, and any sequence of setting scales, bounds and objectives between solves "
     "gives what a fresh solver with the final settings gives. Wrong names, scales and "
     "bounds are rejected and change nothing.",
     ['inputs', 'histories'],
     "all models, choices of fixed and free variables, and sequences",
     "Existing tests solve one case.",
     [OC + "model_solver.py"],
     ["ModelSolver NLP"],
     ["solver results, derivatives"],
     "returned point judged by the independent reference; derivatives by complex steps")

prop("C28", "A composite problem is always the sum of its current parts",
     "After any sequence of adding, deleting and replacing constraints and objectives, a "
     "composite problem's constraints, Jacobian, Hessian, structures, bounds and named split "
     "are those of exactly the current parts in their current order, and duplicate or unknown "
     "names are rejected without effect.",
     ["histories"], "all sequences of additions, deletions and evaluations",
     "Existing tests add parts once before evaluating.",
     [NLP], ["CompositeProblem bookkeeping"], ["problem.* evaluations"],
     "a list model of the parts evaluated directly replays every history")

prop("C29", "Kinematics and drone models follow their equations of motion",
     "The track-relative kinematics and the planar drone return, for every state and "
     "parameter, the derivatives of their equations of motion: the rates per distance of "
     "time, offset and relative heading of a point moving with the given body velocities "
     "along a curved track, with its yaw angle and the track's curvature as outputs; and "
     "the drone's thrust and gravity accelerations, with sin(theta) and f*omega as "
     "outputs. The shipped drone problem starts from a guess that satisfies them, and its "
     "solutions, flown again, end where they should.",
     ["inputs"],
     "all states, inputs and parameters",
     "Existing tests compare backends with each other rather than the equations.",
     ["lumos/models/kinematics.py", "lumos/models/drone_model.py",
      "lumos/models/simple_vehicle_on_track.py"],
     ["TrackPosition2D, DroneModel forward"],
     ["model outputs"],
     "closed forms and numerical integration of the motion in Cartesian coordinates")

prop("C30", "Laptime simulation matches its track and settings after any update",
     "A lap time problem takes curvature, heading and both distances to the edge from its "
     "current track at every mesh point, with the offset kept between minus the right and "
     "plus the left distance, its objective is the lap time plus the mean square steering "
     "input, its guess is a car at 50 m/s on the centre line, and after any sequence of "
     "setting tracks, parameters, bounds, conditions, scales and meshes it is "
     "indistinguishable from one freshly built with the final ones. A refused track "
     "changes nothing.",
     ["histories", "configurations"],
     "all tracks, settings and sequences of updates",
     "Existing tests build one problem per track and swap once.",
     ["lumos/simulations/laptime_simulation.py"],
     ['LaptimeSimulation.set_track', '_build_objective', 'get_init_guess'],
     ['bounds, constraints, objective, derivatives, initial guess', 'solved laps'],
     "raw track data and a fresh problem are the oracles")

prop("C32", "Learned aero models evaluate their own data",
     "The Gaussian-process and neural-network aero models return, for every input, size "
     "and parameter set, the value of their formula (weights times squared-exponential "
     "kernel; tanh of every layer in order, the last one too) with their current "
     "parameters, with inputs in the order front ride height, rear ride height, yaw and "
     "outputs Cx, Cy, Cz, identically and with exact derivatives on every backend, alone, "
     "in batches and inside the car.",
     ["inputs"],
     "all inputs and parameter sets, backends and batch sizes",
     "Existing tests compare backends at single points.",
     ["lumos/models/aero/aero.py", "lumos/models/ml.py"],
     ["gp and mlp evaluation"],
     ["model outputs"],
     "independent numpy evaluation")

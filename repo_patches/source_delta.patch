From f6c0ed5800fab71e4e48dddd2b7d3e5b62f006c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 01/65] fix: use_backend restores the backend that was active
 on entry

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..cb9fe2f 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,18 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
+        # NOTE: the same instance can be entered many times, also nested (when used as a
+        # decorator, or when the context manager is reused), so the backend to go back to
+        # must be recorded on entry and not on construction.
+        self._original_backends = []
         self._target_backend = backend
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From e05aac621a90ed4d5c9784d1cff39c39249b960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 02/65] fix: cmap and lmap take the batch size from a mapped
 argument

---
 lumos/numpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index cb9fe2f..249dc86 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -130,7 +130,7 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(a for a, ax in zip(args, full_in_axes) if ax is not None)
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -227,7 +227,7 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(a for a, ax in zip(args, full_in_axes) if ax is not None)
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From 7d3c3a27f6fffbca74220e1a5ffcc3338bb8e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 03/65] fix: do not use np.int (removed from numpy) in the
 condensed hessian structure

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..60b9963 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From 7f57e1b29bfe314d05537f18ff58754c36515d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 04/65] fix: building a condensed OCP does not modify the
 caller's sim_config

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 60b9963..b4046cf 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -133,12 +133,14 @@ class ScaledMeshOCP(CompositeProblem):
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            bounds = sim_config.bounds + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
+        else:
+            bounds = sim_config.bounds
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From 83f07e07d94c8288f5bf0b0f7c2c05a78b616801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 05/65] fix: ModelSolver looks up the hessian under the name it
 is stored as

---
 lumos/optimal_control/model_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..cc96f55 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
-- 
2.43.0


From d041d56e27587d9120fb02b19d09b46b53524ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 06/65] fix: Model.apply_and_forward_with_arrays calls
 forward_with_arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..77694c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From d9512ce6e26a1e8d2e724bb2049e776a1baa1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 07/65] fix: log the mesh from the unscaled decision variables

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index b4046cf..ed96ff6 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -991,7 +991,9 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(
+            unscaled_dec_var
+        )
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 42cb04dea2bca4036f94c9ed8dcf2ea7955f42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 08/65] fix: evaluating a model with given params does not
 leave them (or tracers) in the model

---
 lumos/models/base.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 77694c3..4359c11 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from contextlib import contextmanager
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -145,13 +146,27 @@ class Model(CompositeModel):
         """
         pass
 
-    def apply_and_forward(self, inputs, params):
+    @contextmanager
+    def _applied_params(self, params):
+        """Use the given params inside the context, and go back to the original ones.
+
+        The params given are often symbols or tracers (when the call is traced), which
+        must not stay in the model after the call.
+        """
+        original_params = self.get_recursive_params()
         self.set_recursive_params(params)
-        return self.forward(inputs)
+        try:
+            yield
+        finally:
+            self.set_recursive_params(original_params)
+
+    def apply_and_forward(self, inputs, params):
+        with self._applied_params(params):
+            return self.forward(inputs)
 
     def apply_and_forward_with_arrays(self, inputs, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(inputs)
+        with self._applied_params(params):
+            return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
@@ -437,12 +452,12 @@ class StateSpaceModel(Model):
         pass
 
     def apply_and_forward(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward(states, inputs, mesh)
+        with self._applied_params(params):
+            return self.forward(states, inputs, mesh)
 
     def apply_and_forward_with_arrays(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(states, inputs, mesh)
+        with self._applied_params(params):
+            return self.forward_with_arrays(states, inputs, mesh)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin.
@@ -583,7 +598,6 @@ class StateSpaceModel(Model):
     def _apply_and_flat_implicit(
         self, flat_vars: lnp.ndarray, mesh: float, params,
     ) -> lnp.ndarray:
-        self.set_recursive_params(params)
         # TODO: split to dict of arrays -> call in implicit with forward_with_arrays
         # -> convert to dict again, call with dict, can we simplify?
         #
@@ -592,7 +606,8 @@ class StateSpaceModel(Model):
         # as arrays!
         dict_vars = self._split_flat_vars(flat_vars)
 
-        return self.implicit(**dict_vars, mesh=mesh)
+        with self._applied_params(params):
+            return self.implicit(**dict_vars, mesh=mesh)
 
     def _implicit_jac(self, flat_vars, mesh, params):
         raise NotImplementedError(
@@ -769,8 +784,8 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            with self._applied_params(_params):
+                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 339259aadbf069779807c5a9c958541a11b93fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 09/65] fix: modify_model_param works on a condensed OCP

---
 lumos/optimal_control/scaled_mesh_ocp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index ed96ff6..b91d495 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -157,6 +157,17 @@ class ScaledMeshOCP(CompositeProblem):
 
         return cls.ConfigClass(*args, **kwargs)
 
+    @property
+    def _unit_model_algebra(self) -> ConvConstraints:
+        """The constraints that actually call the model.
+
+        For a condensed problem, these are kept in storage and called by the condensed
+        constraints.
+        """
+        if self.is_condensed:
+            return self._con_storage["model_algebra"]
+        return self._constraints["model_algebra"]
+
     def _set_model_params(self, model_params):
         self._params = model_params
         self.model.set_recursive_params(model_params)
@@ -164,7 +175,7 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        self._unit_model_algebra.set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From 0d4ab0502f35a51e2a33ab0f0fb7ea3d413f23ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 10/65] fix: set_normalized_mesh on an existing OCP also
 updates the mesh of the model algebra

---
 lumos/optimal_control/convolution.py     | 3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..7030e83 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index b91d495..5e92124 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -540,6 +540,10 @@ class ScaledMeshOCP(CompositeProblem):
 
             self._normalized_interval_mesh.append(current_interval_mesh)
 
+        # If the problem is already built, then the model algebra needs the new mesh too.
+        if hasattr(self, "_constraints"):
+            self._unit_model_algebra.set_normalized_mesh(self._flat_normalized_mesh)
+
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
         # Stack all interval mesh togther, omitting the overlapping stage.
-- 
2.43.0


From 63841b1073d23912805616b1291ab49d7b485312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 11/65] fix: recompute the hessian's triangular entries after
 constraints or objectives change

---
 lumos/optimal_control/nlp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..d819336 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None  # the hessian entries have changed
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None  # the hessian entries have changed
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,10 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None  # the hessian entries have changed
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
-
+        self._idx_triu = None  # the hessian entries have changed
 
     def _compute_objective(self, x):
         return np.sum(np.hstack([p.objective(x) for p in self._objectives.values()]))
-- 
2.43.0


From e01deed311251d188b2dbcb2364f0269640c8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 12/65] fix: give the hessian structure to IPOPT as a lower
 triangle, as cyipopt requires

---
 lumos/optimal_control/nlp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index d819336..cf0093c 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -506,9 +506,12 @@ class NLPFunction(ABC):
         return hessian_matrix[self.hessianstructure()]
 
     def hessianstructure(self) -> Tuple[np.ndarray, np.ndarray]:
-        """IPOPT callback for hessian structure. This is dense."""
+        """IPOPT callback for hessian structure. This is dense.
 
-        return np.triu_indices(self.num_dec)
+        NOTE: cyipopt only accepts the lower triangle.
+        """
+
+        return np.tril_indices(self.num_dec)
 
     def _construct_ipopt_problem(
         self, ipopt_options: Dict[str, Any], dec_var_scales: Optional[np.ndarray] = None
@@ -811,7 +814,9 @@ class CompositeProblem(NLPFunction):
 
         self._idx_triu = idx_rows <= idx_cols
 
-        return idx_rows[self._idx_triu], idx_cols[self._idx_triu]
+        # NOTE: the hessian is symmetric and cyipopt only accepts the lower triangle, so
+        # the upper triangular entries are returned as their transpose.
+        return idx_cols[self._idx_triu], idx_rows[self._idx_triu]
 
     def split_constraints(self, c):
         indices = [p.num_con for p in self._constraints.values()]
-- 
2.43.0


From 02e0e16a195f3d6ccd79ceab418e5edfacc91d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 13/65] fix: build the condensed jacobian structure from
 structures, not from values at a random point

---
 lumos/optimal_control/scaled_mesh_ocp.py | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 5e92124..8dba03e 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -341,19 +341,18 @@ class ScaledMeshOCP(CompositeProblem):
 
     def _condensed_jacobianstructure(self):
         """Return jacobian structure by a pessimistic estimate"""
-        # We estimate the sparsity by passing in a random vecotr. There is the risk
-        # that the sparse library would actually remove explicit zeros (opposite to
-        # structural zeros, these are values that happen to be zero at this point of
-        # calculation and make the estimation more optimistic/sparser). But the risk
-        # is pretty low when we're using float, and it's probably very very small
-        # probability that float computations will become 'zero' accidentally.
-        #
-        # If we want to be conservative, we could create the algebraic and continuity
-        # jacobians with no explicit zeros, which would probably give a more
-        # pessimistic estimate.
-        x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
-        continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
+
+        # The structure must hold for all the inputs, so the entries must come from the
+        # structures of the two jacobians and not from their values at some point (where
+        # some entries could happen to be zero). All the entries are made positive so
+        # that no sum of them can cancel out.
+        def _make_dummy_jac(con):
+            rows, cols = con.jacobianstructure()
+            rows, cols = np.ravel(rows), np.ravel(cols)
+            return sparse.csc_matrix((np.ones(len(rows)), (rows, cols)), con.jac_shape)
+
+        algebraic_jac = _make_dummy_jac(self._con_storage["model_algebra"])
+        continuity_jac = _make_dummy_jac(self._con_storage["continuity"])
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
             continuity_jac, algebraic_jac
-- 
2.43.0


From e7759102886e61c669c986882e8b1169fcf09d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 14/65] fix: compile casadi functions from their own source
 file and never leave a partial library

---
 lumos/models/base.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 4359c11..877732d 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -1,10 +1,12 @@
 import hashlib
 import logging
 import subprocess
+import tempfile
 from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
-from os.path import exists, getsize
+from os import replace
+from os.path import exists, join
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
 import casadi as cas
@@ -842,25 +844,30 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
+        # NOTE: the c-code of each model goes to its own file, so that other models that
+        # are generated at the same time in the same directory can't overwrite it.
+        c_code = codegen.dump().encode()
+        logger.info(f"Generated c-code with {len(c_code)} bytes")
 
-        logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
         # Call compiler if no library exists already
-        with open(cfile, "rb") as f:
-            file_hash = hashlib.md5()
-            for chunk in iter(lambda: f.read(8192), b""):
-                file_hash.update(chunk)
-
-        library_name = file_hash.hexdigest()
+        library_name = hashlib.md5(c_code).hexdigest()
         library_path = "./" + library_name + ".so"
 
         if exists(library_path):
             logger.info(f"{library_path} already exists, no compliation is needed.")
         else:
             logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            # Compile inside a temporary directory, and only move the library to its
+            # final path when it is complete. So that an interrupted or failed
+            # compilation never leaves behind a broken library that is then loaded.
+            with tempfile.TemporaryDirectory(prefix=filename, dir=".") as tmp_dir:
+                cfile_path = join(tmp_dir, cfile)
+                with open(cfile_path, "wb") as f:
+                    f.write(c_code)
+                tmp_library_path = join(tmp_dir, library_name + ".so")
+                cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile_path]
+                subprocess.run(cmd + ["-o", tmp_library_path], check=True)
+                replace(tmp_library_path, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0


From e13d3aee749b51a314a4d0d6d9a0ecdb64a7dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 15/65] fix: each solve logs its own history, into a directory
 of its own

---
 lumos/optimal_control/scaled_mesh_ocp.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 8dba03e..4f7b989 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -209,6 +209,9 @@ class ScaledMeshOCP(CompositeProblem):
             logger.info("Triggering jax JIT")
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
+        # Each solve has its own history.
+        self._num_iter = None
+        self._metrics_history_list = []
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
@@ -815,9 +818,20 @@ class ScaledMeshOCP(CompositeProblem):
             subdir_name = (
                 datetime.now().strftime("%Y%m%d-%H%M%S") + "_" + config.sim_name
             )
-            self._logging_dir = os.path.join(config.results_dir, subdir_name)
-            Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
             self._metrics_history_list = []
+            # The time only has a resolution of 1s, so make sure that we don't share the
+            # directory with (and overwrite the results of) another problem.
+            self._logging_dir = os.path.join(config.results_dir, subdir_name)
+            suffix = 0
+            while True:
+                try:
+                    Path(self._logging_dir).mkdir(parents=True)
+                    break
+                except FileExistsError:
+                    suffix += 1
+                    self._logging_dir = os.path.join(
+                        config.results_dir, f"{subdir_name}_{suffix}"
+                    )
 
     @property
     def logging_dir(self):
-- 
2.43.0


From 47ad2707175d9932cd8eca422ece34b9f1c47923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 16/65] fix: log the solution as the final iteration, not the
 last evaluated point

---
 lumos/optimal_control/nlp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index cf0093c..39d123b 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -615,6 +615,9 @@ class NLPFunction(ABC):
         # TODO: we still need to handle the scaling of the lagrangian multipliers for
         # the constraints as well as for the bounds.
         scaled_sol, info = nlp.solve(scaled_init_guess, lagrange=lagrange, zl=zl, zu=zu)
+        # The last objective call is not necessarily at the solution (it could be at a
+        # rejected trial point)
+        self._last_iter_dec_var = scaled_sol
 
         # Raise error if the optimization runs into an error
         # Some errors such as nan etc don't actually raise an error in cyipopt, but we
-- 
2.43.0


From afa23d4152d81bc895a6cdf75d447b63d9beacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 17/65] fix: casadi diff of order 2 and above, and of 2d arrays

---
 lumos/numpy/casadi_numpy/calculus.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..f59b9b8 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -18,10 +18,8 @@ def diff(a, n=1, axis=-1):
                 "This could be implemented, but haven't had the need yet."
             )
 
-        result = a
-        for i in range(n):
-            result = _cas.diff(a)
-        return result
+        # The last axis, where casadi represents 1d arrays as (n, 1)
+        return _cas.diff(a, n, 0 if a.shape[1] == 1 else 1)
 
 
 def trapz(x, modify_endpoints=False):  # TODO unify with NumPy trapz, this is different
-- 
2.43.0


From bf3b4af6d82c356afa952f39b368ddcfda35aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 18/65] fix: casadi roll by more than one element, and of 2d
 arrays

---
 lumos/numpy/casadi_numpy/array.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..22c0b8f 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -246,12 +246,12 @@ def roll(a, shift, axis: int = None):
         return _onp.roll(a, shift, axis=axis)
     else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
         # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
+        if axis == 0:
+            idx = -shift % a.shape[0]
+            return _cas.vertcat(a[idx:, :], a[:idx, :])
         elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
+            idx = -shift % a.shape[1]
+            return _cas.horzcat(a[:, idx:], a[:, :idx])
         elif axis is None:
             return roll(a, shift=shift, axis=0)
         else:
-- 
2.43.0


From 9aa8c0d0f156e453c5624d047b01c08e993ee6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 19/65] fix: casadi mean over all the elements of a 2d array

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..b6ae40c 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return mean(mean(x, axis=0), axis=0)
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 8bc1cad8a9283a4493e402a40b55a2904fbf49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 20/65] fix: casadi infinity norm

---
 lumos/numpy/casadi_numpy/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..5ec9b98 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -83,8 +83,8 @@ def norm(x, ord=None, axis=None):
             return sum(x ** 2, axis=axis) ** 0.5
         elif ord == "fro":
             return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif _onp.isinf(ord):
+            return _cas.norm_inf(x)
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 9c2c048413d3bad868f134444671db84dc9ec3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 21/65] fix: casadi geomspace is spaced geometrically

---
 lumos/numpy/casadi_numpy/spacing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..b05ac2c 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -58,4 +58,4 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     else:
         if start <= 0 or stop <= 0:
             raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        return 10 ** linspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From 628db918893dcf9bfb70e377735e7e8b3d5848c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 22/65] fix: raise the intended errors for unsupported
 arguments

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 lumos/numpy/casadi_numpy/interpolate.py                 | 2 +-
 lumos/optimal_control/collocation.py                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
diff --git a/lumos/numpy/casadi_numpy/interpolate.py b/lumos/numpy/casadi_numpy/interpolate.py
index 4dc9b87..a9470d7 100644
--- a/lumos/numpy/casadi_numpy/interpolate.py
+++ b/lumos/numpy/casadi_numpy/interpolate.py
@@ -9,7 +9,7 @@ def interp(x, xp, fp, left=None, right=None, period=None):
     see: https://jax.readthedocs.io/en/latest/_autosummary/jax.numpy.interp.html
     """
     if period is not None:
-        raise NotImplemented("Handling of period are not implemented yet")
+        raise NotImplementedError("Handling of period are not implemented yet")
     # Casadi supports 'bspline' and 'linear'
     lut = cas.interpolant("LUT", "linear", [xp], fp)
     f = lut(x)
diff --git a/lumos/optimal_control/collocation.py b/lumos/optimal_control/collocation.py
index 7df9e00..5f143d9 100644
--- a/lumos/optimal_control/collocation.py
+++ b/lumos/optimal_control/collocation.py
@@ -61,7 +61,7 @@ def get_collocation_points(
             np.insert(characteristic_polynomial.roots(), 0, -1), 1
         )
     else:
-        raise NotImplemented(scheme)
+        raise NotImplementedError(scheme)
     return collocation_points
 
 
-- 
2.43.0


From 785499f2340699155c7332065d4b481f6deb1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 23/65] fix: ConstAero does not return its own parameter
 dictionary as outputs

---
 lumos/models/aero/aero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..b7e32aa 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,7 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        return ModelReturn(outputs=self._params.copy())
 
 
 class GPAero(AeroModel):
-- 
2.43.0


From fe198cb47ed73e1a3357b80813506b8464bf3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 24/65] fix: trees use the given delimiter for the whole path

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..ee9a235 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 3eb34682558e8bd33f956523c9c9348de950f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 25/65] fix: matrix parameters keep their layout with the
 casadi backend

---
 lumos/models/tree_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index ee9a235..1df0fba 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,20 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi is column major, but we ravel row by row as numpy does.
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _reshape(x, shape):
+    if _is_casadi_instance(x):
+        # casadi is column major, but we reshape row by row as numpy does.
+        return x.reshape(shape[::-1]).T
+    else:
+        return x.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +316,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 3441e323ec97c3c1dbc75a51ac6196fe1e66a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 26/65] fix: casadi backend with models that have an empty
 hessian or jacobian structure

---
 lumos/models/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 877732d..2fad744 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -896,8 +896,15 @@ class StateSpaceModel(Model):
             "constraints": cas.external("implicit_con", library_path),
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
-            "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            # NOTE: the type must be given, as the structures could be empty.
+            "jacobian_structure": (
+                np.array(jac_rows, dtype=int),
+                np.array(jac_cols, dtype=int),
+            ),
+            "hessian_structure": (
+                np.array(hess_rows, dtype=int),
+                np.array(hess_cols, dtype=int),
+            ),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From 250fe6cb7c437df5d790abe425f08e531ecc31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 27/65] fix: one-element array parameters keep their shape when
 unraveled

---
 lumos/models/tree_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 1df0fba..1534f5f 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -316,7 +316,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            _reshape(chunk, shape) if _size(chunk) > 1 else chunk[0]
+            _reshape(chunk, shape) if shape else chunk[0]
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 28b0853c491825b42816e4c511cc94652c6ecd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 28/65] fix: batched forward with the custom backend returns
 arrays

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 2fad744..25367e4 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -787,7 +787,7 @@ class StateSpaceModel(Model):
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
             with self._applied_params(_params):
-                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+                out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From ab1bc3187df5c49c8dcd6b1920899ec6139edfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 29/65] fix: call the custom hessian with the arguments in the
 order of its signature

---
 lumos/models/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 25367e4..9ec26e5 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -775,7 +775,11 @@ class StateSpaceModel(Model):
             "constraints": self._apply_and_flat_implicit,
             "jacobian": self._implicit_jac,
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": self._implicit_hess,
+            # NOTE: the mapped hessians are called with the multipliers before the mesh
+            # and params.
+            "hessian": lambda flat_vars, mult, mesh, params: self._implicit_hess(
+                flat_vars, mesh, params, mult
+            ),
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
-- 
2.43.0


From 6c06a2b8425449aa314d85f46bf63b2c7390c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 30/65] fix: deserialize the logging config of a simulation
 config

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From 1529ae635ceba773ff4e1cba394e0387891bb856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 31/65] fix: go back to the original parameters when the given
 ones don't fit the model

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 9ec26e5..a07a468 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -156,8 +156,8 @@ class Model(CompositeModel):
         must not stay in the model after the call.
         """
         original_params = self.get_recursive_params()
-        self.set_recursive_params(params)
         try:
+            self.set_recursive_params(params)
             yield
         finally:
             self.set_recursive_params(original_params)
-- 
2.43.0


From bc253766892e511c19997e1b918bc89399c4543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 32/65] fix: modify_model_param rejects parameters that do not
 exist

---
 lumos/optimal_control/scaled_mesh_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 4f7b989..e91c295 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -178,6 +178,9 @@ class ScaledMeshOCP(CompositeProblem):
         self._unit_model_algebra.set_params(model_params)
 
     def modify_model_param(self, path, value):
+        # Setting a parameter that does not exist would add it to the parameters, with no
+        # effect on the model (or break the compiled casadi functions).
+        self._params.get_param(path)
         self._params.set_param(path, value)
         # FIXME: using self._params as an argument feels a bit odd..
         self._set_model_params(self._params)
-- 
2.43.0


From 3f296e124fbbf1839031af1cfcaf908e1a9b4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 33/65] fix: LTCConfig does not change the list of non cyclic
 variables it is given

---
 lumos/simulations/laptime_simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..a731e9e 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -133,7 +133,8 @@ class LTCConfig(SimConfig):
                 logger.warning(
                     f"{name} must be non-cyclic, automatically adding it to the list."
                 )
-                self.non_cyclic_vars.append(name)
+                # NOTE: the list given by the user must not be changed.
+                self.non_cyclic_vars = [*self.non_cyclic_vars, name]
 
 
 class LaptimeSimulation(FixedMeshOCP):
-- 
2.43.0


From 3308f6f8e2166ea311b5eec7ca91c2358ec3d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 34/65] fix: feasibility solves (without objectives) with the
 jax backend

---
 lumos/optimal_control/nlp.py             | 24 +++++++++++++-----------
 lumos/optimal_control/scaled_mesh_ocp.py |  2 ++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 39d123b..d2a9d4a 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -581,6 +581,18 @@ class NLPFunction(ABC):
 
         return default_options
 
+    def _ensure_objective(self):
+        """Define a constant objective if there are no objectives (feasibility solve)"""
+        if not self._objectives:
+            const_obj = BaseObjective(
+                num_in=self.num_dec,
+                objective=lambda x: 0,
+                gradient=lambda x: np.zeros(self.num_dec),
+                hessian=lambda x: np.array([]),
+                hessian_structure=(np.array([], dtype=int), np.array([], dtype=int)),
+            )
+            self.add_objective("const_obj", const_obj)
+
     def solve(
         self,
         init_guess: Optional[lnp.ndarray] = None,
@@ -589,17 +601,7 @@ class NLPFunction(ABC):
         zu=[],
         **user_options,
     ):
-        # If the problem has no objectives defined (feasibility solve), define a
-        # constatn objective
-        if not self._objectives:
-            const_obj = BaseObjective(
-                num_in=self.num_dec,
-                objective=lambda x: 0,
-                gradient=lambda x: np.zeros(self.num_dec),
-                hessian=lambda x: [],
-                hessian_structure=([], []),
-            )
-            self.add_objective("const_obj", const_obj)
+        self._ensure_objective()
 
         ipopt_options = self._get_default_ipopt_options()
         ipopt_options.update(user_options)
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index e91c295..f7745b7 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -206,6 +206,8 @@ class ScaledMeshOCP(CompositeProblem):
 
     def solve(self, *args, **kwargs):
         """Overwrite to add the logging of last iteration"""
+        # The problem must be complete before it is called.
+        self._ensure_objective()
         x0 = self.get_init_guess()
         # If jax backend, do one call to invoke jit first
         if self.backend == "jax":
-- 
2.43.0


From e24a77039c4f24caf598203a049fc49063c19874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 35/65] fix: log a solve that stops before its first iteration

---
 lumos/optimal_control/scaled_mesh_ocp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index f7745b7..1deb6a2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -871,8 +871,10 @@ class ScaledMeshOCP(CompositeProblem):
         if config is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
+            # The solver could stop before its first iteration (and not log it)
+            num_iter = 0 if self._num_iter is None else self._num_iter
             self._create_result_df(
-                self._last_iter_dec_var, file_path=result_file, iter_num=self._num_iter,
+                self._last_iter_dec_var, file_path=result_file, iter_num=num_iter,
             )
 
             # Combine the metrics history
@@ -880,12 +882,10 @@ class ScaledMeshOCP(CompositeProblem):
 
             if config.log_every_nth_iter > 0:
 
-                if self._num_iter % config.log_every_nth_iter == 0:
-                    # If we happen to record the last iteration as well, drop it
-                    # and remove it
-                    last_iter_file = os.path.join(
-                        self._logging_dir, f"iter_{self._num_iter}.csv"
-                    )
+                # If we happen to record the last iteration as well, drop it
+                # and remove it
+                last_iter_file = os.path.join(self._logging_dir, f"iter_{num_iter}.csv")
+                if os.path.exists(last_iter_file):
                     os.remove(last_iter_file)
 
                 # Combine all iteration results
-- 
2.43.0


From 9129d67cedac104ac34492ad9bf0a79c6c3e2b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 36/65] fix: the log of a solve does not include iterations
 left by a solve that failed

---
 lumos/optimal_control/scaled_mesh_ocp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 1deb6a2..53b6a19 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -217,6 +217,10 @@ class ScaledMeshOCP(CompositeProblem):
         # Each solve has its own history.
         self._num_iter = None
         self._metrics_history_list = []
+        if self.logging_config is not None:
+            # A solve that raised an error could have left its iterations behind
+            for file in self._get_iter_files():
+                os.remove(file)
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
@@ -842,6 +846,9 @@ class ScaledMeshOCP(CompositeProblem):
     def logging_dir(self):
         return self._logging_dir
 
+    def _get_iter_files(self) -> List[str]:
+        return glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+
     def _log(self, metrics: Dict[str, Any]):
         """Log an iteration
 
@@ -889,7 +896,7 @@ class ScaledMeshOCP(CompositeProblem):
                     os.remove(last_iter_file)
 
                 # Combine all iteration results
-                iter_files = glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+                iter_files = self._get_iter_files()
 
                 # Add result file to the file list to ensure we always see the last iter
                 iter_files.append(result_file)
-- 
2.43.0


From babafac94328c8fb2dee41f9981f22effbc111da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 37/65] fix: find the logged iterations in directories with
 special characters

---
 lumos/optimal_control/scaled_mesh_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 53b6a19..0430ba8 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -847,7 +847,9 @@ class ScaledMeshOCP(CompositeProblem):
         return self._logging_dir
 
     def _get_iter_files(self) -> List[str]:
-        return glob.glob(os.path.join(self._logging_dir, "iter*.csv"))
+        return glob.glob(
+            os.path.join(glob.escape(self._logging_dir), "iter*.csv")
+        )
 
     def _log(self, metrics: Dict[str, Any]):
         """Log an iteration
-- 
2.43.0


From c8e04aaecff6d63165c8fb91a60cc2b9fcbe4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 38/65] fix: only constraints count for the logged max
 violation

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 0430ba8..06f0fed 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -921,7 +921,10 @@ class ScaledMeshOCP(CompositeProblem):
                         os.remove(file)
 
                 # Compute what causes the max violation at each iteration
-                con_names = [c for c in df_list[0].columns if "_con." in c]
+                con_prefixes = ("interval_con.", "stage_con.", "cyclic_con.")
+                con_names = [
+                    c for c in df_list[0].columns if c.startswith(con_prefixes)
+                ]
                 # Initialize storage, watchout for datatype
                 metrics_history_df["max_violation_con_name"] = "NotRecorded"
                 metrics_history_df["max_violation_mesh"] = -1.0
-- 
2.43.0


From 35e1bf3c6ccdc54c3426dba7f3de66b0a31c1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 39/65] fix: casadi reshape keeps numpy's row major order

---
 lumos/numpy/casadi_numpy/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 22c0b8f..862359e 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -288,7 +288,8 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        # casadi is column major, while numpy is row major
+        return _cas.reshape(a.T, newshape[::-1]).T
 
 
 def zeros(shape):
-- 
2.43.0


From 14f1c3825089a9e816c23567a1fa294f7893b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 40/65] fix: casadi dot and inner of matrices

---
 lumos/numpy/casadi_numpy/determine_type.py   | 6 ++++++
 lumos/numpy/casadi_numpy/linalg.py           | 5 ++++-
 lumos/numpy/casadi_numpy/linalg_top_level.py | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/determine_type.py b/lumos/numpy/casadi_numpy/determine_type.py
index 676d6af..98dcc03 100644
--- a/lumos/numpy/casadi_numpy/determine_type.py
+++ b/lumos/numpy/casadi_numpy/determine_type.py
@@ -25,3 +25,9 @@ def is_casadi_type(array_like, recursive=True) -> bool:
             isinstance(array_like, cas.DM) or
             isinstance(array_like, cas.SX)
     )
+
+
+def is_matrix(array_like) -> bool:
+    """If an object is a 2d array (casadi represents 1d arrays as (n, 1))"""
+    shape = getattr(array_like, "shape", ())
+    return len(shape) == 2 and 1 not in shape
diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 5ec9b98..7cfb770 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -1,7 +1,7 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type
+from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix
 
 
 def inner(x, y):
@@ -14,6 +14,9 @@ def inner(x, y):
         return _onp.inner(x, y)
 
     else:
+        if is_matrix(x) or is_matrix(y):
+            # casadi's dot is the sum of the products of the elements
+            return _cas.mtimes(x, y.T)
         return _cas.dot(x, y)
 
 
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..9ca9ffd 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -1,7 +1,7 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type
+from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix
 
 
 def dot(a, b):
@@ -14,6 +14,9 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
+        if is_matrix(a) or is_matrix(b):
+            # casadi's dot is the sum of the products of the elements
+            return _cas.mtimes(a, b)
         return _cas.dot(a, b)
 
 
-- 
2.43.0


From dac05775af6fc847e435339597055e11a7f7d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 41/65] fix: casadi norms of matrices, and along the last axis

---
 lumos/numpy/casadi_numpy/linalg.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 7cfb770..980507b 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -67,6 +67,9 @@ def norm(x, ord=None, axis=None):
         if axis is not None:
             if not (axis == 0 or axis == 1 or axis == -1):
                 raise ValueError("`axis` must be -1, 0, or 1 for CasADi types.")
+            if axis == -1:
+                # The last axis, where casadi represents 1d arrays as (n, 1)
+                axis = 0 if x.shape[1] == 1 else 1
         elif x.shape[0] == 1:
             axis = 1
         elif x.shape[1] == 1:
@@ -78,6 +81,16 @@ def norm(x, ord=None, axis=None):
             else:
                 ord = "fro"
 
+        if axis is None and ord != "fro":
+            # Matrix norms
+            if ord == 1:
+                return _cas.mmax(sum(abs(x), axis=0))
+            elif ord == _onp.inf:
+                return _cas.mmax(sum(abs(x), axis=1))
+            raise NotImplementedError(
+                "Only matrix norms of order 1, inf and 'fro' are supported."
+            )
+
         if ord == 1:
             # return _cas.norm_1(x)
             return sum(abs(x), axis=axis)
@@ -87,7 +100,8 @@ def norm(x, ord=None, axis=None):
         elif ord == "fro":
             return _cas.norm_fro(x)
         elif _onp.isinf(ord):
-            return _cas.norm_inf(x)
+            vectors = _cas.horzsplit(x) if axis == 0 else _cas.vertsplit(x)
+            return _cas.vertcat(*[_cas.norm_inf(v) for v in vectors])
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 78e466d76045013a01331cbe576ec2d2e1e0299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 42/65] fix: casadi infinity norms of MX can be evaluated

---
 lumos/numpy/casadi_numpy/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 980507b..46bc39d 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -101,7 +101,7 @@ def norm(x, ord=None, axis=None):
             return _cas.norm_fro(x)
         elif _onp.isinf(ord):
             vectors = _cas.horzsplit(x) if axis == 0 else _cas.vertsplit(x)
-            return _cas.vertcat(*[_cas.norm_inf(v) for v in vectors])
+            return _cas.vertcat(*[_cas.mmax(abs(v)) for v in vectors])
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 361c0fcc76a0553695be0ec6de97f250f37ff31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 43/65] fix: casadi zeros_like of vectors

---
 lumos/numpy/casadi_numpy/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 862359e..a25dd06 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -297,7 +297,7 @@ def zeros(shape):
 
 
 def zeros_like(array):
-    return _cas.SX.zeros(array.shape)
+    return _cas.SX.zeros(*array.shape)
 
 
 def eye(shape):
-- 
2.43.0


From f44fc5d8100c1c20c19ee2d17e48638b6e6a0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 44/65] fix: each LTCConfig has its own default bounds, scales
 and boundary conditions

---
 lumos/simulations/laptime_simulation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index a731e9e..57fe0df 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -110,11 +110,12 @@ class LTCConfig(SimConfig):
     # Overwrite the default factory to those specific to LTC
     # FIXME: default_factory only takes zero argument functions. So here we could end up
     # with a config that has is_cycli==False, but with the default for is_cyclic==True
-    boundary_conditions: Tuple[
-        BoundaryConditionConfig
-    ] = get_default_boundary_conditions()
-    bounds: Tuple[BoundConfig] = get_default_bounds()
-    scales: Tuple[ScaleConfig] = get_default_scales()
+    # NOTE: the bounds etc. are mutable, so each config must have its own.
+    boundary_conditions: Tuple[BoundaryConditionConfig] = field(
+        default_factory=get_default_boundary_conditions
+    )
+    bounds: Tuple[BoundConfig] = field(default_factory=get_default_bounds)
+    scales: Tuple[ScaleConfig] = field(default_factory=get_default_scales)
     con_output_names: Tuple[str] = get_default_con_output_names()
 
     def __post_init__(self):
-- 
2.43.0


From 9a5167355e5c0331cf33acac5a812a20c914ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 45/65] fix: tire files with tabs are read with clean names

---
 lumos/models/tires/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/tires/utils.py b/lumos/models/tires/utils.py
index 33c1b0c..b5510c3 100644
--- a/lumos/models/tires/utils.py
+++ b/lumos/models/tires/utils.py
@@ -34,7 +34,7 @@ def read_tir_file(file_path: str) -> Dict[str, Any]:
             # TODO: this is pretty flaky and would break if somebody puts a "=" into
             # comments
             if "=" in line:
-                name, val, *_ = re.split("[=$]", line.replace(" ", ""))
+                name, val, *_ = re.split("[=$]", "".join(line.split()))
                 try:
                     params[name] = float(val)
                 except ValueError:
-- 
2.43.0


From a03cb4e7eca40a4517634f7f2a6bf3f8050f8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 46/65] fix: MLPAero applies its layers in order for more than
 ten layers

---
 lumos/models/aero/aero.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index b7e32aa..debd641 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -69,9 +69,10 @@ class MLPAero(AeroModel):
 
     @classmethod
     def _dict_to_list(cls, weights: dict):
-        # NOTE: this requires ordered dict, which is default in python for 3.6+
-        # We rely on the ordered dict instead of the number in name
-        return [v for k, v in weights.items() if k.startswith(cls.weights_prefix)]
+        # NOTE: we rely on the number in the name and not on the order of the dict, as the
+        # latter is sorted by name ("..._10" before "..._2") when parameters are flattened.
+        names = [k for k in weights if k.startswith(cls.weights_prefix)]
+        return [weights[k] for k in sorted(names, key=lambda k: int(k.split("_")[-1]))]
 
     @classmethod
     def get_default_params(cls):
-- 
2.43.0


From 7b9be518726cdb51e5924b081457cfbcbeb4d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 47/65] fix: any of a casadi array with structural zeros

---
 lumos/numpy/casadi_numpy/logicals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/logicals.py b/lumos/numpy/casadi_numpy/logicals.py
index c23122f..290cf02 100644
--- a/lumos/numpy/casadi_numpy/logicals.py
+++ b/lumos/numpy/casadi_numpy/logicals.py
@@ -89,4 +89,5 @@ def any(a):  # TODO add axis functionality
         return _onp.any(a)
 
     else:
-        return _cas.logic_any(a)
+        # NOTE: logic_any itself is wrong for arrays with structural zeros
+        return _cas.logic_any(_cas.densify(a))
-- 
2.43.0


From 233079cdd26b20963cfe80e79a127a9ee5ab9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 48/65] fix: refused bounds and boundary conditions change
 nothing

---
 lumos/optimal_control/scaled_mesh_ocp.py | 34 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 06f0fed..13e715c 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -655,15 +655,21 @@ class ScaledMeshOCP(CompositeProblem):
         overwrite the earlier ones, so that only the last one will remain in effect.
         """
 
-        # Overwrite with external bound settings
-        for b in bounds:
-            self._set_var_bounds(
-                group=b.group, name=b.name, stage=None, bounds=b.values
-            )
+        previous_bounds = self.lb.copy(), self.ub.copy()
+        try:
+            # Overwrite with external bound settings
+            for b in bounds:
+                self._set_var_bounds(
+                    group=b.group, name=b.name, stage=None, bounds=b.values
+                )
 
-        # Apply the boundary conditions again, as when we set all the bounds, the
-        # boundary conditions will be overwritten.
-        self._apply_boundary_conditions()
+            # Apply the boundary conditions again, as when we set all the bounds, the
+            # boundary conditions will be overwritten.
+            self._apply_boundary_conditions()
+        except Exception:
+            # Some of the bounds were invalid: don't keep the others
+            self.lb[:], self.ub[:] = previous_bounds
+            raise
 
     def set_scales(self, scale_configs: Tuple[ScaleConfig]):
         """Construct variable scales
@@ -753,8 +759,16 @@ class ScaledMeshOCP(CompositeProblem):
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
-        self._boundary_conditions += boundary_conditions
-        self._apply_boundary_conditions()
+        previous_conditions = self._boundary_conditions
+        previous_bounds = self.lb.copy(), self.ub.copy()
+        try:
+            self._boundary_conditions = previous_conditions + boundary_conditions
+            self._apply_boundary_conditions()
+        except Exception:
+            # Some of the conditions were invalid: don't keep any (to apply later)
+            self._boundary_conditions = previous_conditions
+            self.lb[:], self.ub[:] = previous_bounds
+            raise
 
     def _apply_boundary_conditions(self):
         """Apply the boundary conditions stored."""
-- 
2.43.0


From 246a9fa1ed292fdace50bb7dfab665e3b19b6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 49/65] fix: refused scales change nothing

---
 lumos/optimal_control/scaled_mesh_ocp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 13e715c..a7f6214 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -700,14 +700,17 @@ class ScaledMeshOCP(CompositeProblem):
         var_scales["global"] = np.ones(op.num_global_var)
 
         # create default decision variable scales
-        self._dec_var_scales = np.ones(self.num_dec)
+        dec_var_scales = np.ones(self.num_dec)
 
         # Overwrite with scales from configs and update decision variable scales
         for sc in scale_configs:
             var_scales[sc.group][
                 op.get_var_index_in_group(sc.group, sc.name)
             ] = sc.value
-            self._dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+            dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+
+        # All the scales are valid
+        self._dec_var_scales = dec_var_scales
 
         # Set input scales for all objectives
         for _, o in self._objectives.items():
-- 
2.43.0


From 276b758e7ea1d94c07e0a5dc464e7b45df345299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 50/65] fix: indices of an empty group of variables are
 integers

---
 lumos/optimal_control/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/utils.py b/lumos/optimal_control/utils.py
index 98a7164..ab0c0c7 100644
--- a/lumos/optimal_control/utils.py
+++ b/lumos/optimal_control/utils.py
@@ -271,7 +271,8 @@ class DecVarOperator:
                 [
                     self._stage_var_enum[self._make_stage_var_name(group=group, name=n)]
                     for n in getattr(self._model_var_names, group)
-                ]
+                ],
+                dtype=int,
             )
             + stage * self.num_var_stage
         )
-- 
2.43.0


From 5796e828ca638f96b092feaee47436ad2ef59ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 51/65] fix: Lagrange polynomials stay accurate with many
 points

The coefficients of their powers lose all digits with about 20 points, so that
LGR and LGRIntegral with that many stages were wrong.
---
 lumos/optimal_control/collocation.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lumos/optimal_control/collocation.py b/lumos/optimal_control/collocation.py
index 5f143d9..0ae47cd 100644
--- a/lumos/optimal_control/collocation.py
+++ b/lumos/optimal_control/collocation.py
@@ -3,8 +3,6 @@ from typing import List
 
 import numpy as np
 from numpy.polynomial.legendre import Legendre
-from numpy.polynomial.polynomial import Polynomial
-from scipy.interpolate import lagrange
 
 
 class CollocationEnum(Enum):
@@ -65,19 +63,22 @@ def get_collocation_points(
     return collocation_points
 
 
-def make_lagrange_polynomial(support: np.ndarray, index: int) -> Polynomial:
+def make_lagrange_polynomial(support: np.ndarray, index: int) -> Legendre:
     """Create the i-th lagrange polynomial"""
 
-    weights = np.zeros_like(support)
-    weights[index] = 1
+    support = np.asarray(support, dtype=float)
+    if len(support) == 1:
+        return Legendre([1.0])
 
-    # NOTE: lagrange returns coef in decending power order, which is opposite to numpy
-    # Polynomials.
-    coefficients = lagrange(support, weights).coef[::-1]
-    return Polynomial(coefficients)
+    # NOTE: the polynomial is kept in a Legendre basis on the interval of the support, as
+    # the coefficients of its powers are useless with more than about 15 points.
+    polynomial = Legendre.fromroots(
+        np.delete(support, index), domain=[support.min(), support.max()]
+    )
+    return polynomial / polynomial(support[index])
 
 
-def make_lagrange_basis(support: np.ndarray) -> List[Polynomial]:
+def make_lagrange_basis(support: np.ndarray) -> List[Legendre]:
     """Create a list of lagrange basis of varying order on the same support."""
 
     return [make_lagrange_polynomial(support, index) for index in range(len(support))]
-- 
2.43.0


From 75506db69e99a591b2b9e4ebd1d44d9f89331b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 52/65] fix: a rejected track leaves the lap time problem as it
 was

---
 lumos/simulations/laptime_simulation.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 57fe0df..20b28e0 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -181,16 +181,14 @@ class LaptimeSimulation(FixedMeshOCP):
         """
 
         # Create track object
-        self._track = RaceTrack.from_tum_csv(track_file)
-
-        # update mesh_scale
-        self.set_mesh_scale(self._track.total_distance)
+        track = RaceTrack.from_tum_csv(track_file)
+        distance_mesh = self._flat_normalized_mesh * track.total_distance
 
         # update variable bounds
-        curvature = self._track.curvature_at(self.distance_mesh)
-        heading = self._track.heading_at(self.distance_mesh)
-        left_distance = self._track.left_distance_at(self.distance_mesh)
-        right_distance = self._track.right_distance_at(self.distance_mesh)
+        curvature = track.curvature_at(distance_mesh)
+        heading = track.heading_at(distance_mesh)
+        left_distance = track.left_distance_at(distance_mesh)
+        right_distance = track.right_distance_at(distance_mesh)
 
         track_bounds = (
             BoundConfig("inputs", "track_curvature", (curvature, curvature)),
@@ -200,6 +198,10 @@ class LaptimeSimulation(FixedMeshOCP):
 
         self.update_bounds(track_bounds)
 
+        # The track is valid: keep it, and update mesh_scale
+        self._track = track
+        self.set_mesh_scale(track.total_distance)
+
     def _build_objective(self):
         # Common objective regardless of the problem
         time_objective = BaseObjective(
-- 
2.43.0


From 9eda13e9c63ab564447e652f8c7d8fc63757c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 53/65] fix: remainder of CasADi values with the sign of the
 divisor, as numpy's mod

---
 lumos/numpy/casadi_numpy/arithmetic.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index b6ae40c..6486a27 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -56,6 +56,24 @@ def abs(x):
         return _cas.fabs(x)
 
 
+def mod(x1, x2):
+    """
+    Element-wise remainder of division, with the sign of the divisor.
+
+    See syntax here: https://numpy.org/doc/stable/reference/generated/numpy.mod.html
+    """
+    if not is_casadi_type([x1, x2], recursive=True):
+        return _onp.mod(x1, x2)
+
+    else:
+        # casadi's own remainder is the one to the nearest integer
+        remainder = _cas.fmod(x1, x2)
+        return _cas.if_else(remainder * x2 < 0, remainder + x2, remainder)
+
+
+remainder = mod
+
+
 # TODO trace()
 
 # def cumsum(x, axis: int = None):
-- 
2.43.0


From 103431d3733a68a8a7ae41deee905da43bc9bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 54/65] fix: norm of CasADi vectors with ord=-inf is the
 smallest absolute value

---
 lumos/numpy/casadi_numpy/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 46bc39d..bd4a186 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -101,7 +101,8 @@ def norm(x, ord=None, axis=None):
             return _cas.norm_fro(x)
         elif _onp.isinf(ord):
             vectors = _cas.horzsplit(x) if axis == 0 else _cas.vertsplit(x)
-            return _cas.vertcat(*[_cas.mmax(abs(v)) for v in vectors])
+            extreme = _cas.mmax if ord > 0 else _cas.mmin
+            return _cas.vertcat(*[extreme(abs(v)) for v in vectors])
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 7caf88321934173955d8b7c2e87258b4cedaba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 55/65] fix: split CasADi arrays with numpy integers and any
 sequence of indices

---
 lumos/numpy/casadi_numpy/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index a25dd06..14f6880 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -139,7 +139,7 @@ def split(array, indices_or_sections: Union[List[int], int], axis: int):
     elif axis == 1 or axis == -1:
         split_func = _cas.horzsplit
 
-    if isinstance(indices_or_sections, int):
+    if isinstance(indices_or_sections, (int, _onp.integer)):
         # integer, so split into N equal parts
         if not (array.shape[axis] % indices_or_sections == 0):
             raise ValueError(
@@ -148,7 +148,7 @@ def split(array, indices_or_sections: Union[List[int], int], axis: int):
         else:
             # casadi requires the size of each split, instead of number of splits like numpy
             indices_or_sections = int(array.shape[axis] / indices_or_sections)
-    elif isinstance(indices_or_sections, list):
+    else:
         # casadi horzsplit/vertsplit works the same as numpy array indices, but need 0 and
         # size appended at the two ends
         indices_or_sections = [0, *indices_or_sections, array.shape[axis]]
-- 
2.43.0


From ac6579f3dd3eb912b6761410c9419d458992adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:38 +0000
Subject: [PATCH 56/65] fix: an array of CasADi vectors has them as its rows

---
 lumos/numpy/casadi_numpy/array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index 14f6880..8517946 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -25,6 +25,9 @@ def array(array_like, dtype=None):
     else:
         # Handles inputs like [[opti_var_1, opti_var_2], [opti_var_3, opti_var_4]]
         def make_row(contents: List):
+            if is_casadi_type(contents, recursive=False) and contents.shape[1] == 1:
+                # casadi represents 1d arrays as (n, 1), and each one makes a row
+                return contents.T
             try:
                 return _cas.horzcat(*contents)
             except (TypeError, Exception):
-- 
2.43.0


From 152aadc9d5d7cdee2ec200eb6b1c4651348f83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:54 +0000
Subject: [PATCH 57/65] fix: a failing evaluation does not make the model
 reject later ones

---
 lumos/models/base.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index a07a468..69c8b9d 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -5,6 +5,7 @@ import tempfile
 from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
+from functools import wraps
 from os import replace
 from os.path import exists, join
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
@@ -89,6 +90,23 @@ def state_space_io(
     return wrapper
 
 
+def _clear_buffer_on_error(forward):
+    """Drop the submodel returns of a call that fails.
+
+    Otherwise they would stay in the buffer, and every later call would be rejected.
+    """
+
+    @wraps(forward)
+    def wrapper(self, *args, **kwargs):
+        try:
+            return forward(self, *args, **kwargs)
+        except BaseException:
+            self._clear_submodel_return_buffer()
+            raise
+
+    return wrapper
+
+
 class ModelReturn(NamedTuple):
     """Return data structure for a static model."""
 
@@ -127,6 +145,11 @@ class ArrayStateSpaceModelReturn(NamedTuple):
 class Model(CompositeModel):
     """Abstract class for mathematical models of the simplest form."""
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+        if "forward" in vars(cls):
+            cls.forward = _clear_buffer_on_error(cls.forward)
+
     def __init__(
         self, model_config: Dict[str, Any] = {}, params: Dict[str, Any] = {},
     ):
-- 
2.43.0


From 6d1dc976c4890ac475e3b1783b8a829b7f7a7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:39 +0000
Subject: [PATCH 58/65] fix: unknown constraint outputs are rejected when they
 are set

---
 lumos/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 69c8b9d..dc85dc0 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -515,6 +515,10 @@ class StateSpaceModel(Model):
 
     def set_con_outputs(self, con_outputs: Tuple[str, ...]) -> None:
         """Set the con_outputs of the model."""
+        for c in con_outputs:
+            if c not in self.get_group_names("outputs"):
+                raise ValueError(f"constraint outputs {c} not found in outputs")
+
         # NOTE: names is a namedtuple, so it's immutable. Using the _replace method is
         # just a workaround to change a field.
         self.names = self.names._replace(con_outputs=con_outputs)
-- 
2.43.0


From 557171f6d5cec21a5d208642acb92aed2ca9a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:34 +0000
Subject: [PATCH 59/65] fix: casadi dot of a matrix of one row and a vector

---
 lumos/numpy/casadi_numpy/determine_type.py   | 6 ++++++
 lumos/numpy/casadi_numpy/linalg_top_level.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/determine_type.py b/lumos/numpy/casadi_numpy/determine_type.py
index 98dcc03..79c46e1 100644
--- a/lumos/numpy/casadi_numpy/determine_type.py
+++ b/lumos/numpy/casadi_numpy/determine_type.py
@@ -31,3 +31,9 @@ def is_matrix(array_like) -> bool:
     """If an object is a 2d array (casadi represents 1d arrays as (n, 1))"""
     shape = getattr(array_like, "shape", ())
     return len(shape) == 2 and 1 not in shape
+
+
+def is_row(array_like) -> bool:
+    """If an object is a 2d array of one row (and not of one element)"""
+    shape = getattr(array_like, "shape", ())
+    return len(shape) == 2 and shape[0] == 1 and shape[1] != 1
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 9ca9ffd..c04d0c2 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -1,7 +1,7 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix
+from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix, is_row
 
 
 def dot(a, b):
@@ -14,7 +14,7 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
-        if is_matrix(a) or is_matrix(b):
+        if is_matrix(a) or is_matrix(b) or is_row(a) != is_row(b):
             # casadi's dot is the sum of the products of the elements
             return _cas.mtimes(a, b)
         return _cas.dot(a, b)
-- 
2.43.0


From 5128d85ce2902723fb809b4ce0950b0299b6bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:34 +0000
Subject: [PATCH 60/65] fix: a mesh scale that is not positive is refused when
 it is changed

---
 lumos/optimal_control/fixed_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/fixed_mesh_ocp.py b/lumos/optimal_control/fixed_mesh_ocp.py
index 8ee7ff2..6506799 100644
--- a/lumos/optimal_control/fixed_mesh_ocp.py
+++ b/lumos/optimal_control/fixed_mesh_ocp.py
@@ -29,7 +29,6 @@ class FixedMeshOCP(ScaledMeshOCP):
 
         # NOTE: we choose to make mesh_scale a variable instead of a config to make the
         # distinction of fixed_grid clearer!
-        assert mesh_scale > 0.0, "mesh_scale must be a positive scalar!"
         self.set_mesh_scale(mesh_scale)
 
         super().__init__(model=model, sim_config=sim_config)
@@ -37,6 +36,7 @@ class FixedMeshOCP(ScaledMeshOCP):
     def set_mesh_scale(self, mesh_scale: float):
         """When we set the mesh_scale, some other properties must change"""
 
+        assert mesh_scale > 0.0, "mesh_scale must be a positive scalar!"
         # Currently we don't need to update anything else, but in the future we might.
         self._mesh_scale = mesh_scale
 
-- 
2.43.0


From 6a22ee0025ab2fa50e08a78b649fdf0ce87665b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:34 +0000
Subject: [PATCH 61/65] fix: scales that are not positive are refused

---
 lumos/optimal_control/config.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 4bab520..2898e1c 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -43,15 +43,18 @@ class BoundConfig:
 
 @dataclass
 class ScaleConfig:
-    """Config for the scale on variables
-    
-    TODO: check all values are postiive!
-    """
+    """Config for the scale on variables. The value must be positive."""
 
     group: str
     name: str
     value: float
 
+    def __post_init__(self):
+        assert self.value > 0, (
+            f"Failed to set the scale of {self.group}:{self.name}. "
+            f"The scale must be positive, but got {self.value}"
+        )
+
 
 @dataclass
 class BoundaryConditionConfig:
-- 
2.43.0


From 32aef067178ab80cf4b0dd4114a624415ce03a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:50 +0000
Subject: [PATCH 62/65] fix: bounds of the wrong size are refused before any is
 changed

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index a7f6214..ff0de70 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -797,10 +797,10 @@ class ScaledMeshOCP(CompositeProblem):
         else:
             lb = ub = bounds
 
-        if not (np.isscalar(idx_var)) and not (np.isscalar(lb)):
-            assert len(lb) == self.num_stages, (
+        for b in (lb, ub):
+            assert np.shape(b) in ((), (np.size(idx_var),)), (
                 f"OCP has {self.num_stages} stages, but got bounds for "
-                f"{group}.{name} with size {len(lb)}"
+                f"{group}.{name} with shape {np.shape(b)}"
             )
 
         assert np.all(lb <= ub), "lower bound must be no larger than the upper bound"
-- 
2.43.0


From 9567596953c0056788d2e8e173b1d4177f0d2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:44 +0000
Subject: [PATCH 63/65] fix: a problem does not change with the configuration
 it was built from

---
 lumos/models/base.py                     | 1 +
 lumos/optimal_control/scaled_mesh_ocp.py | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index dc85dc0..ffcd31d 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -515,6 +515,7 @@ class StateSpaceModel(Model):
 
     def set_con_outputs(self, con_outputs: Tuple[str, ...]) -> None:
         """Set the con_outputs of the model."""
+        con_outputs = tuple(con_outputs)
         for c in con_outputs:
             if c not in self.get_group_names("outputs"):
                 raise ValueError(f"constraint outputs {c} not found in outputs")
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index ff0de70..2e66e29 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1,4 +1,5 @@
 from abc import abstractmethod
+from copy import deepcopy
 import glob
 import logging
 import os
@@ -87,6 +88,9 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config is None:
             sim_config = self.get_sim_config()
 
+        # The problem must not change when the caller changes the configuration later.
+        sim_config = deepcopy(sim_config)
+
         self.hessian_approximation: str = sim_config.hessian_approximation
         self.num_intervals: int = sim_config.num_intervals
         self.transcription: Transcription = make_transcription(
@@ -765,7 +769,9 @@ class ScaledMeshOCP(CompositeProblem):
         previous_conditions = self._boundary_conditions
         previous_bounds = self.lb.copy(), self.ub.copy()
         try:
-            self._boundary_conditions = previous_conditions + boundary_conditions
+            self._boundary_conditions = previous_conditions + deepcopy(
+                boundary_conditions
+            )
             self._apply_boundary_conditions()
         except Exception:
             # Some of the conditions were invalid: don't keep any (to apply later)
-- 
2.43.0


From 420b1a21d190b5dea235e5a37fd0233589de65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 64/65] fix: casadi dot with one element

---
 lumos/numpy/casadi_numpy/determine_type.py   |  7 +++++++
 lumos/numpy/casadi_numpy/linalg_top_level.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/determine_type.py b/lumos/numpy/casadi_numpy/determine_type.py
index 79c46e1..4e631df 100644
--- a/lumos/numpy/casadi_numpy/determine_type.py
+++ b/lumos/numpy/casadi_numpy/determine_type.py
@@ -37,3 +37,10 @@ def is_row(array_like) -> bool:
     """If an object is a 2d array of one row (and not of one element)"""
     shape = getattr(array_like, "shape", ())
     return len(shape) == 2 and shape[0] == 1 and shape[1] != 1
+
+
+def is_single(array_like) -> bool:
+    """If an object is a scalar or an array of one element"""
+    if isinstance(array_like, (list, tuple)):
+        return len(array_like) == 1
+    return all(n == 1 for n in getattr(array_like, "shape", ()))
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index c04d0c2..9d1b767 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -1,7 +1,12 @@
 import numpy as _onp
 import casadi as _cas
 from lumos.numpy.casadi_numpy.arithmetic import sum, abs
-from lumos.numpy.casadi_numpy.determine_type import is_casadi_type, is_matrix, is_row
+from lumos.numpy.casadi_numpy.determine_type import (
+    is_casadi_type,
+    is_matrix,
+    is_row,
+    is_single,
+)
 
 
 def dot(a, b):
@@ -17,6 +22,9 @@ def dot(a, b):
         if is_matrix(a) or is_matrix(b) or is_row(a) != is_row(b):
             # casadi's dot is the sum of the products of the elements
             return _cas.mtimes(a, b)
+        if is_single(a) or is_single(b):
+            # a scalar (or a vector of one element) scales the other one
+            return a * b
         return _cas.dot(a, b)
 
 
-- 
2.43.0


From 8470a93e9e3a96c06d1755ab44b90efb7f6baba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:57 +0000
Subject: [PATCH 65/65] fix: accept lists of configurations and of bounds, as
 json leaves them

---
 lumos/optimal_control/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 2898e1c..e61c9d5 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -21,7 +21,9 @@ class BoundConfig:
         1) bounds should be both scalars or both 1d np.ndarray
         2) upper bounds should be larger than or equal to lower bounds.
         """
-        lb, ub = self.values
+        # A list of two values (e.g. what comes out of a json file) is a pair just as well.
+        # After the initialization, we rely on the values being a tuple.
+        self.values = lb, ub = tuple(self.values)
 
         pretext = f"Failed to set bounds for {self.group}:{self.name}. "
         if np.isscalar(lb) and np.isscalar(ub):
@@ -148,6 +150,11 @@ class SimConfig:
             self.transcription = (self.transcription,)
 
         # Additional operations for desrialization for config fields
+        # (json for example only knows lists, and an empty list would stay a list below)
+        for name in ("boundary_conditions", "bounds", "scales", "con_output_names"):
+            if isinstance(getattr(self, name), list):
+                setattr(self, name, tuple(getattr(self, name)))
+
         if self.bounds and isinstance(self.bounds[0], dict):
             self.bounds = tuple(BoundConfig(**d) for d in self.bounds)
 
-- 
2.43.0


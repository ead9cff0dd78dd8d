From 862062d96cc8b121ec350c8c1e7e9fb179833399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 01/57] fix: use_backend restores the backend in force on entry

---
 lumos/numpy/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7041ab7..bae4ceb 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -13,14 +13,17 @@ logger = logging.getLogger(__name__)
 
 class use_backend(ContextDecorator):
     def __init__(self, backend: str):
-        self._original_backend = lnp.get_backend()
         self._target_backend = backend
+        # Backends in force at each (possibly nested) entry of this scope. We use a stack
+        # because the same object is re-entered when it is used as a decorator.
+        self._original_backends = []
 
     def __enter__(self):
+        self._original_backends.append(lnp.get_backend())
         lnp.set_backend(self._target_backend)
 
     def __exit__(self, *exc):
-        lnp.set_backend(self._original_backend)
+        lnp.set_backend(self._original_backends.pop())
 
 
 def is_jax_array(x: Any) -> bool:
-- 
2.43.0


From b5ce6544e3f68d8e123cc301fc0c630fb5c90bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 02/57] fix: ModelSolver hessian key and empty objective
 hessian structure

---
 lumos/optimal_control/model_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/model_solver.py b/lumos/optimal_control/model_solver.py
index d620c36..b2a4385 100644
--- a/lumos/optimal_control/model_solver.py
+++ b/lumos/optimal_control/model_solver.py
@@ -52,7 +52,7 @@ class ModelSolver(CompositeProblem):
             return np.array(implicit_functions["jacobian"](*args).nonzeros())
 
         def _hessian(*args):
-            return np.array(implicit_functions["_hessian"](*args).nonzeros())
+            return np.array(implicit_functions["hessian"](*args).nonzeros())
 
         # FIXME: we create CasMappedConstraints (839 in base.py), but it actually is NOT
         # a Constriant that can be executed with its .constraints method, as it requires
@@ -246,13 +246,13 @@ class ModelSolver(CompositeProblem):
                 return grad
 
             def hessian(x):
-                return []
+                return np.array([])
 
             return {
                 "objective": obj,
                 "gradient": gradient,
                 "hessian": hessian,
-                "hessian_structure": ([], []),
+                "hessian_structure": (np.array([], dtype=int), np.array([], dtype=int)),
             }
 
         obj_name = f"{group}.{name}.weight={weight}"
-- 
2.43.0


From b37c63e90a76deba98555723add6acbe1efcc56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/57] fix: constant objective of a feasibility solve needs
 integer structure arrays

---
 lumos/optimal_control/nlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 81ab86f..936c686 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -593,8 +593,8 @@ class NLPFunction(ABC):
                 num_in=self.num_dec,
                 objective=lambda x: 0,
                 gradient=lambda x: np.zeros(self.num_dec),
-                hessian=lambda x: [],
-                hessian_structure=([], []),
+                hessian=lambda x: np.array([]),
+                hessian_structure=(np.array([], dtype=int), np.array([], dtype=int)),
             )
             self.add_objective("const_obj", const_obj)
 
-- 
2.43.0


From 34f314b042b7e2aac228c3a68d7a01392290b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 04/57] fix: np.int no longer exists, condensed ScaledMeshOCP
 could not be built

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 31c2849..60b9963 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -463,7 +463,7 @@ class ScaledMeshOCP(CompositeProblem):
             # If mesh_scale is a variable, then the continuity constraints also has
             # non-zero hessian entries.
             cont_rows = np.arange(self.num_dec)
-            cont_cols = np.ones(self.num_dec, dtype=np.int) * (self.num_dec - 1)
+            cont_cols = np.ones(self.num_dec, dtype=int) * (self.num_dec - 1)
             rows = np.hstack([rows.ravel(), cont_rows])
             cols = np.hstack([cols.ravel(), cont_cols])
 
-- 
2.43.0


From 1cb2c69e8f0b1bdeb10b4fd55550e17d33e8758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 05/57] fix: adding or deleting parts invalidates the cached
 hessian mask

---
 lumos/optimal_control/nlp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 936c686..1431520 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -717,10 +717,12 @@ class CompositeProblem(NLPFunction):
         # Update the input scales using the nlp's dec_var_scales
         c.set_input_scales(self._dec_var_scales)
         self._constraints.update({name: c})
+        self._idx_triu = None
 
     def delete_constraints(self, name: str):
         # FIXME: add checks
         self._constraints.pop(name)
+        self._idx_triu = None
 
     def add_objective(self, name: str, o: BaseObjective):
         """Add an objecitve function to the problem.
@@ -742,9 +744,11 @@ class CompositeProblem(NLPFunction):
         # decision variable scale
         o.set_input_scales(self._dec_var_scales)
         self._objectives.update({name: o})
+        self._idx_triu = None
 
     def delete_objective(self, name: str):
         self._objectives.pop(name)
+        self._idx_triu = None
 
 
     def _compute_objective(self, x):
-- 
2.43.0


From fa31060b70d85a34c98f6bc15de2a4bca9099556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 06/57] fix: model parameters can be modified on a condensed
 problem

---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 60b9963..8da64f4 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -162,7 +162,10 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        self._constraints["model_algebra"].set_params(model_params)
+        # NOTE: for the condensed problem, the constraints that call the model are kept
+        # in the storage.
+        cons = self._con_storage if self.is_condensed else self._constraints
+        cons["model_algebra"].set_params(model_params)
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
-- 
2.43.0


From ea09b28083ee0b401b6af39ed67015bddf63489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 07/57] fix: building a condensed problem no longer changes the
 bounds of its config

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 8da64f4..8ea6c74 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -129,16 +129,18 @@ class ScaledMeshOCP(CompositeProblem):
         if sim_config.is_cyclic:
             self._build_cyclic_cons(sim_config.non_cyclic_vars)
 
+        bounds = sim_config.bounds
         if self.is_condensed:
             self._build_condensed_model_algebra()
             # The states_dot decision variables are un-used, so we set it to
             # 0, and IPOPT will take them out of the NLP depending the settings.
-            sim_config.bounds += tuple(
+            # NOTE: the config must not be changed, as the user could use it again.
+            bounds = tuple(bounds) + tuple(
                 BoundConfig("states_dot", n, (0, 0))
                 for n in self.model.get_group_names("states_dot")
             )
 
-        self.update_bounds(sim_config.bounds)
+        self.update_bounds(bounds)
 
         # Set specific boundary conditions of variables at certain stages
         self.update_boundary_conditions(sim_config.boundary_conditions)
-- 
2.43.0


From 48818e952e6ba12be086acb528e7faa880a3aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 08/57] fix: LTCConfig does not share default configs or change
 the list it is given

---
 lumos/simulations/laptime_simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 379428b..b1b5bd7 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -110,11 +110,11 @@ class LTCConfig(SimConfig):
     # Overwrite the default factory to those specific to LTC
     # FIXME: default_factory only takes zero argument functions. So here we could end up
     # with a config that has is_cycli==False, but with the default for is_cyclic==True
-    boundary_conditions: Tuple[
-        BoundaryConditionConfig
-    ] = get_default_boundary_conditions()
-    bounds: Tuple[BoundConfig] = get_default_bounds()
-    scales: Tuple[ScaleConfig] = get_default_scales()
+    boundary_conditions: Tuple[BoundaryConditionConfig] = field(
+        default_factory=get_default_boundary_conditions
+    )
+    bounds: Tuple[BoundConfig] = field(default_factory=get_default_bounds)
+    scales: Tuple[ScaleConfig] = field(default_factory=get_default_scales)
     con_output_names: Tuple[str] = get_default_con_output_names()
 
     def __post_init__(self):
@@ -128,6 +128,8 @@ class LTCConfig(SimConfig):
         # NOTE: somehow if we make track_curvature also non_cyclic, convergence got
         # a lot worse. This is counterintuitive as one would imagine the track curvature
         # from finite difference isn't actually cyclic! (but it's close, ~1e-5 delta)
+        # NOTE: we work on a copy so that the list given by the user is not changed.
+        self.non_cyclic_vars = list(self.non_cyclic_vars)
         for name in ["states.time", "inputs.track_heading"]:
             if name not in self.non_cyclic_vars:
                 logger.warning(
-- 
2.43.0


From e4d0e3161b2d0d782c24c91ef2803561433d5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 09/57] fix: tree unravel keeps shapes of size-one and empty
 arrays and casadi matrices

---
 lumos/models/tree_utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 932729e..2260f66 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -251,11 +251,25 @@ def _size_and_shape(x):
 
 def _ravel(x):
     if _is_casadi_instance(x):
-        return x.reshape((x.numel(), 1))
+        # casadi reshapes in column major order, but flat arrays are row major.
+        return x.T.reshape((x.numel(), 1))
     else:
         return np.ravel(x)
 
 
+def _unravel_chunk(chunk, shape):
+    """Reverse _ravel: restore the given shape from the flat, row major, chunk"""
+    if _is_casadi_instance(chunk):
+        if shape == ():
+            return chunk
+        # casadi reshapes in column major order, but flat arrays are row major.
+        return chunk.reshape(shape[::-1]).T
+    elif shape == ():
+        return chunk[0]
+    else:
+        return chunk.reshape(shape)
+
+
 def _split(arr, indices):
     if _is_casadi_instance(arr):
         indices = [0, *indices, arr.numel()]
@@ -307,7 +321,7 @@ def _ravel_flat_dict(flat_tree):
             new_shapes = shapes
 
         reconstructed_values = [
-            chunk.reshape(shape) if _size(chunk) > 1 else chunk[0]
+            _unravel_chunk(chunk, shape)
             for chunk, shape in zip(chunks, new_shapes)
         ]
         return dict(zip(keys, reconstructed_values))
-- 
2.43.0


From 4be440fdde9371f46a91a77fb42559b457574937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 10/57] fix: Model.apply_and_forward_with_arrays called a
 method that does not exist

---
 lumos/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cd8518e..77694c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -151,7 +151,7 @@ class Model(CompositeModel):
 
     def apply_and_forward_with_arrays(self, inputs, params):
         self.set_recursive_params(params)
-        return self.forward_with_array(inputs)
+        return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
-- 
2.43.0


From 3544be1425e102c0d8d2b62731bd31f9202809d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/57] fix: evaluating a model with given parameters no longer
 changes its own

---
 lumos/models/base.py | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 77694c3..cc389c3 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -3,6 +3,7 @@ import logging
 import subprocess
 from abc import abstractmethod
 from collections import namedtuple
+from contextlib import contextmanager
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -145,13 +146,27 @@ class Model(CompositeModel):
         """
         pass
 
+    @contextmanager
+    def _apply_params(self, params):
+        """Temporarily use the given parameters.
+
+        The given params could be tracers or symbolic variables of a backend, which must
+        not stay in the model after the call.
+        """
+        original_params = self.get_recursive_params()
+        try:
+            self.set_recursive_params(params)
+            yield
+        finally:
+            self.set_recursive_params(original_params)
+
     def apply_and_forward(self, inputs, params):
-        self.set_recursive_params(params)
-        return self.forward(inputs)
+        with self._apply_params(params):
+            return self.forward(inputs)
 
     def apply_and_forward_with_arrays(self, inputs, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(inputs)
+        with self._apply_params(params):
+            return self.forward_with_arrays(inputs)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin"""
@@ -437,12 +452,12 @@ class StateSpaceModel(Model):
         pass
 
     def apply_and_forward(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward(states, inputs, mesh)
+        with self._apply_params(params):
+            return self.forward(states, inputs, mesh)
 
     def apply_and_forward_with_arrays(self, states, inputs, mesh, params):
-        self.set_recursive_params(params)
-        return self.forward_with_arrays(states, inputs, mesh)
+        with self._apply_params(params):
+            return self.forward_with_arrays(states, inputs, mesh)
 
     def _construct_io_names(self):
         """Create model io names while also taking into account submodels compositoin.
@@ -583,7 +598,6 @@ class StateSpaceModel(Model):
     def _apply_and_flat_implicit(
         self, flat_vars: lnp.ndarray, mesh: float, params,
     ) -> lnp.ndarray:
-        self.set_recursive_params(params)
         # TODO: split to dict of arrays -> call in implicit with forward_with_arrays
         # -> convert to dict again, call with dict, can we simplify?
         #
@@ -592,7 +606,8 @@ class StateSpaceModel(Model):
         # as arrays!
         dict_vars = self._split_flat_vars(flat_vars)
 
-        return self.implicit(**dict_vars, mesh=mesh)
+        with self._apply_params(params):
+            return self.implicit(**dict_vars, mesh=mesh)
 
     def _implicit_jac(self, flat_vars, mesh, params):
         raise NotImplementedError(
@@ -652,8 +667,7 @@ class StateSpaceModel(Model):
                 f"{backend} is not supported. Only 'jax', 'casadi' and 'custom' backends are supported."
             )
 
-        # Restore the original params (some backends would replace model params with
-        # objects such as their own symbolic types or tracers during tracing)
+        # Restore the original params (custom implementations could have replaced them)
         self.set_recursive_params(params)
 
         return implicit_functions
@@ -769,8 +783,8 @@ class StateSpaceModel(Model):
         )
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
-            self.set_recursive_params(_params)
-            out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+            with self._apply_params(_params):
+                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
@@ -941,9 +955,3 @@ class StateSpaceModel(Model):
                 codegen.add_include(inc)
 
         codegen.generate()
-
-        # Need to set the parameters back to the original params, as they were replaced
-        # with casadi variables during the apply_and_forward_with_arrays
-        # TODO: the same also happens to other casadi export and also jax tracing right?
-        # Can we generalize this problem?
-        self.set_recursive_params(params)
-- 
2.43.0


From 32a313c0648f4a3f5b68ec0f40ddc418c923b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/57] fix: custom backend hessian argument order and batched
 forward on arrays

---
 lumos/models/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index cc389c3..7195ead 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -772,7 +772,10 @@ class StateSpaceModel(Model):
             "constraints": self._apply_and_flat_implicit,
             "jacobian": self._implicit_jac,
             "jacobian_structure": self._implicit_jacobianstructure(),
-            "hessian": self._implicit_hess,
+            # Mapped hessians are called with the multipliers after the variables
+            "hessian": lambda flat_vars, mult, mesh, params: self._implicit_hess(
+                flat_vars, mesh, params, mult
+            ),
             "hessian_structure": self._implicit_hessianstructure(),
         }
 
@@ -784,7 +787,7 @@ class StateSpaceModel(Model):
 
         def custom_batched_forward(_states, _inputs, _mesh, _params):
             with self._apply_params(_params):
-                out = lnp.lmap(self.forward)(_states, _inputs, _mesh)
+                out = lnp.lmap(self.forward_with_arrays)(_states, _inputs, _mesh)
             return StateSpaceModelReturn(*out)
 
         self._batched_forward = custom_batched_forward
-- 
2.43.0


From 9a33c171306f3ff05f9d1168490f24d6cebefdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/57] fix: parameter trees handed out do not share arrays
 with the model

---
 lumos/models/composition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumos/models/composition.py b/lumos/models/composition.py
index 5e201f0..e4ca9b4 100644
--- a/lumos/models/composition.py
+++ b/lumos/models/composition.py
@@ -1,5 +1,6 @@
 from __future__ import annotations  # Model referencing Model
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 from lumos.models.tree_utils import ParameterTree, ConfigTree
 
@@ -222,8 +223,8 @@ class CompositeModel:
 
         # NOTE: for the direct data at top level, we must copy, as it is a 1 level dict,
         # which if we don't copy, then we'll be making the new ParameterTree a mutable
-        # copy of the old params!
-        param_tree = ParameterTree(data=self._params.copy())
+        # copy of the old params! The copy is deep as parameters can be mutable arrays.
+        param_tree = ParameterTree(data=deepcopy(self._params))
         if not self.is_leaf():
             for n, m in self._submodels.items():
                 param_tree.add_child(name=n, subtree=m.get_recursive_params())
-- 
2.43.0


From 80189dcae36b9fad404e5e48cbdd3264599c0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/57] fix: re-meshing after construction also changes the
 mesh given to the model

---
 lumos/optimal_control/convolution.py     |  3 +++
 lumos/optimal_control/scaled_mesh_ocp.py | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/lumos/optimal_control/convolution.py b/lumos/optimal_control/convolution.py
index 8e11a9e..7030e83 100644
--- a/lumos/optimal_control/convolution.py
+++ b/lumos/optimal_control/convolution.py
@@ -111,6 +111,9 @@ class ConvConstraints(MappedConstraints):
         else:
             self._params = params
 
+    def set_normalized_mesh(self, normalized_mesh: np.ndarray):
+        self._normalized_mesh = normalized_mesh
+
     def _transform_inputs(self, x):
         stage_vars, _ = self._op.split_stage_and_global_vars(x)
 
diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 8ea6c74..2dcb8f2 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -164,10 +164,15 @@ class ScaledMeshOCP(CompositeProblem):
         # need the parameters (and we put all model-related computation there)
         # We could make the entire 'CompositeProblem' parameterized, but that might
         # be an over-complication.
-        # NOTE: for the condensed problem, the constraints that call the model are kept
-        # in the storage.
+        self._get_stage_model_algebra().set_params(model_params)
+
+    def _get_stage_model_algebra(self) -> ConvConstraints:
+        """Return the constraints that call the model at every stage.
+
+        For the condensed problem, these are kept in the storage.
+        """
         cons = self._con_storage if self.is_condensed else self._constraints
-        cons["model_algebra"].set_params(model_params)
+        return cons["model_algebra"]
 
     def modify_model_param(self, path, value):
         self._params.set_param(path, value)
@@ -514,7 +519,7 @@ class ScaledMeshOCP(CompositeProblem):
             # use uniform intervals
             interval_points = np.linspace(0, 1.0, self.num_intervals + 1)
 
-        self._normalized_interval_mesh = []
+        normalized_interval_mesh = []
         for interval in range(self.num_intervals):
             # TODO: need to handle getting interval points better
             if isinstance(self.transcription, LGR):
@@ -530,7 +535,15 @@ class ScaledMeshOCP(CompositeProblem):
                     [interval_points[interval], interval_points[interval + 1]]
                 )
 
-            self._normalized_interval_mesh.append(current_interval_mesh)
+            normalized_interval_mesh.append(current_interval_mesh)
+
+        self._normalized_interval_mesh = normalized_interval_mesh
+
+        # If the constraints are already built, they need to use the new mesh as well.
+        if hasattr(self, "_constraints"):
+            self._get_stage_model_algebra().set_normalized_mesh(
+                self._flat_normalized_mesh
+            )
 
     @property
     def _flat_normalized_mesh(self) -> np.ndarray:
-- 
2.43.0


From 3925e7e60bd76d04a8cc46bbd840f82773d49cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 15/57] fix: a rejected bound or boundary condition update
 changes nothing

---
 lumos/optimal_control/scaled_mesh_ocp.py | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 2dcb8f2..e119abb 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -2,6 +2,7 @@ from abc import abstractmethod
 import glob
 import logging
 import os
+from contextlib import contextmanager
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -645,15 +646,26 @@ class ScaledMeshOCP(CompositeProblem):
         overwrite the earlier ones, so that only the last one will remain in effect.
         """
 
-        # Overwrite with external bound settings
-        for b in bounds:
-            self._set_var_bounds(
-                group=b.group, name=b.name, stage=None, bounds=b.values
-            )
+        with self._restore_bounds_on_error():
+            # Overwrite with external bound settings
+            for b in bounds:
+                self._set_var_bounds(
+                    group=b.group, name=b.name, stage=None, bounds=b.values
+                )
+
+            # Apply the boundary conditions again, as when we set all the bounds, the
+            # boundary conditions will be overwritten.
+            self._apply_boundary_conditions()
 
-        # Apply the boundary conditions again, as when we set all the bounds, the
-        # boundary conditions will be overwritten.
-        self._apply_boundary_conditions()
+    @contextmanager
+    def _restore_bounds_on_error(self):
+        """If an update is rejected, leave bounds and boundary conditions unchanged."""
+        original = self.lb.copy(), self.ub.copy(), self._boundary_conditions
+        try:
+            yield
+        except Exception:
+            self.lb, self.ub, self._boundary_conditions = original
+            raise
 
     def set_scales(self, scale_configs: Tuple[ScaleConfig]):
         """Construct variable scales
@@ -743,8 +755,9 @@ class ScaledMeshOCP(CompositeProblem):
         self, boundary_conditions: Tuple[BoundaryConditionConfig]
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
-        self._boundary_conditions += boundary_conditions
-        self._apply_boundary_conditions()
+        with self._restore_bounds_on_error():
+            self._boundary_conditions += boundary_conditions
+            self._apply_boundary_conditions()
 
     def _apply_boundary_conditions(self):
         """Apply the boundary conditions stored."""
-- 
2.43.0


From 1082a5c73762149fc38a49b5d4be67e2d7d39bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 16/57] fix: rejected scales leave the scales in force
 unchanged

---
 lumos/optimal_control/scaled_mesh_ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index e119abb..5542d6a 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -696,14 +696,16 @@ class ScaledMeshOCP(CompositeProblem):
         var_scales["global"] = np.ones(op.num_global_var)
 
         # create default decision variable scales
-        self._dec_var_scales = np.ones(self.num_dec)
+        dec_var_scales = np.ones(self.num_dec)
 
         # Overwrite with scales from configs and update decision variable scales
         for sc in scale_configs:
             var_scales[sc.group][
                 op.get_var_index_in_group(sc.group, sc.name)
             ] = sc.value
-            self._dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+            dec_var_scales[op.get_var_index_in_dec(sc.group, sc.name)] = sc.value
+
+        self._dec_var_scales = dec_var_scales
 
         # Set input scales for all objectives
         for _, o in self._objectives.items():
-- 
2.43.0


From ce064b9874a547744b8b57f340e2452bfd83e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 17/57] fix: the logged mesh uses the unscaled mesh scale

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 5542d6a..6ade803 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -1022,7 +1022,7 @@ class ScaledMeshOCP(CompositeProblem):
         # combine dfs
         result_df = pd.concat(df_list, axis=1)
         # add mesh
-        result_df["mesh"] = self._flat_normalized_mesh * self._get_mesh_scale(dec_var)
+        result_df["mesh"] = self.get_mesh_from_dec_var(unscaled_dec_var)
         # add iteration number
         result_df["iter"] = iter_num
         logger.debug("Iteration result dataframe created")
-- 
2.43.0


From 994e08049b58f73cc4b7085d98a3a6431dbad293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 18/57] fix: iteration logs do not mix records of earlier
 solves

---
 lumos/optimal_control/scaled_mesh_ocp.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 6ade803..8d89817 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -207,6 +207,8 @@ class ScaledMeshOCP(CompositeProblem):
             logger.info("Triggering jax JIT")
             self.profile(x0, repeat=1, hessian=self.hessian_approximation == "exact")
             logger.info("Triggering jax JIT completed")
+        # Remove what is left from an earlier solve, so it won't appear in the new logs.
+        self._reset_logging()
         # Then solve.
         out = super().solve(*args, **kwargs)
         # TODO: perhaps a better way is to register pre-solve and post-solve tasks.
@@ -836,6 +838,14 @@ class ScaledMeshOCP(CompositeProblem):
             Path(self._logging_dir).mkdir(parents=True, exist_ok=True)
             self._metrics_history_list = []
 
+    def _reset_logging(self):
+        """Reset the records of the iterations before a new solve"""
+        self._num_iter = None
+        if self.logging_config is not None:
+            self._metrics_history_list = []
+            for file in glob.glob(os.path.join(self._logging_dir, "iter*.csv")):
+                os.remove(file)
+
     @property
     def logging_dir(self):
         return self._logging_dir
@@ -917,9 +927,9 @@ class ScaledMeshOCP(CompositeProblem):
                 # NOTE: here the file list will not be arranged according to iter number.
                 for iter_df in df_list:
                     idx, column = iter_df[con_names].abs().stack().idxmax()
-                    iter_num = iter_df["iter"][0]
-                    metrics_history_df.loc[iter_num, "max_violation_con_name"] = column
-                    metrics_history_df.loc[iter_num, "max_violation_mesh"] = iter_df[
+                    is_iter = metrics_history_df["iter_count"] == iter_df["iter"][0]
+                    metrics_history_df.loc[is_iter, "max_violation_con_name"] = column
+                    metrics_history_df.loc[is_iter, "max_violation_mesh"] = iter_df[
                         "mesh"
                     ][idx]
 
-- 
2.43.0


From 6fb441f22fd0a3da6fb018b1fd549893c6086a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 19/57] fix: a forward call that fails clears the submodel
 returns it collected

---
 lumos/models/base.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 7195ead..803db58 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -4,6 +4,7 @@ import subprocess
 from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
+from functools import wraps
 from os.path import exists, getsize
 from typing import Any, Dict, List, NamedTuple, Optional, Tuple
 
@@ -122,9 +123,28 @@ class ArrayStateSpaceModelReturn(NamedTuple):
     residuals: lnp.ndarray = np.array([])
 
 
+def _clear_buffer_on_error(forward):
+    """Make sure a forward call that fails doesn't leave submodel returns behind"""
+
+    @wraps(forward)
+    def wrapped(self, *args, **kwargs):
+        try:
+            return forward(self, *args, **kwargs)
+        except Exception:
+            self._clear_submodel_return_buffer()
+            raise
+
+    return wrapped
+
+
 class Model(CompositeModel):
     """Abstract class for mathematical models of the simplest form."""
 
+    def __init_subclass__(cls, **kwargs):
+        super().__init_subclass__(**kwargs)
+        if "forward" in cls.__dict__:
+            cls.forward = _clear_buffer_on_error(cls.forward)
+
     def __init__(
         self, model_config: Dict[str, Any] = {}, params: Dict[str, Any] = {},
     ):
-- 
2.43.0


From db0c328791f2b9f36d054629fac06f32157d38bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 20/57] fix: batch size of a mapped call is not taken from a
 shared argument

---
 lumos/numpy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index bae4ceb..aaed935 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -129,7 +129,9 @@ def cmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for a, map_axis in zip(args, full_in_axes) if map_axis is not None
+        )
         batch = sample_arg.shape[0]
 
         # NOTE: Creating the mapped function costs quite a bit of overhead. Therefore we
@@ -226,7 +228,9 @@ def lmap(
             full_in_axes = [in_axes] * len(args)
 
         # First find an argument that needs to be mapped
-        sample_arg = next(a for a in args if a is not None)
+        sample_arg = next(
+            a for a, map_axis in zip(args, full_in_axes) if map_axis is not None
+        )
         batch_size = sample_arg.shape[0]
 
         out_array = []
-- 
2.43.0


From dc8afbb1540dd1da11bd71eeee33619e475243c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 21/57] fix: compiled model libraries are built privately and
 published atomically

---
 lumos/models/base.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 803db58..d3a373a 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -1,6 +1,8 @@
 import hashlib
 import logging
+import os
 import subprocess
+import tempfile
 from abc import abstractmethod
 from collections import namedtuple
 from contextlib import contextmanager
@@ -842,9 +844,8 @@ class StateSpaceModel(Model):
 
         # Generate code
         filename = "nlpfunctions"
-        cfile = filename + ".c"
         # FIXME: path management, currently local directory only
-        codegen = cas.CodeGenerator(cfile)
+        codegen = cas.CodeGenerator(filename + ".c")
 
         codegen.add(
             cas.Function(
@@ -864,25 +865,31 @@ class StateSpaceModel(Model):
                 [lagrange_hessian],
             )
         )
-        codegen.generate()
 
-        logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
-        # Call compiler if no library exists already
-        with open(cfile, "rb") as f:
-            file_hash = hashlib.md5()
-            for chunk in iter(lambda: f.read(8192), b""):
-                file_hash.update(chunk)
+        # NOTE: other processes could be building models in the same directory, so we
+        # build in a directory of our own, and only move the finished library out of it.
+        with tempfile.TemporaryDirectory(prefix=filename + "_", dir=".") as build_dir:
+            codegen.generate(build_dir + "/")
+            cfile = os.path.join(build_dir, filename + ".c")
 
-        library_name = file_hash.hexdigest()
-        library_path = "./" + library_name + ".so"
+            logger.info(f"Generated c-code with {getsize(cfile)} lines: ")
+            # Call compiler if no library exists already
+            with open(cfile, "rb") as f:
+                file_hash = hashlib.md5()
+                for chunk in iter(lambda: f.read(8192), b""):
+                    file_hash.update(chunk)
 
-        if exists(library_path):
-            logger.info(f"{library_path} already exists, no compliation is needed.")
-        else:
-            logger.info(f"Compiling casadi library {library_path}")
-            cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", library_path]
-            p = subprocess.Popen(cmd)
-            p.wait()
+            library_name = file_hash.hexdigest()
+            library_path = "./" + library_name + ".so"
+
+            if exists(library_path):
+                logger.info(f"{library_path} already exists, no compliation is needed.")
+            else:
+                logger.info(f"Compiling casadi library {library_path}")
+                new_library = os.path.join(build_dir, library_name + ".so")
+                cmd = ["gcc", "-fPIC", "-o2", "-shared", cfile, "-o", new_library]
+                subprocess.run(cmd, check=True)
+                os.replace(new_library, library_path)
 
         # Wrap the functions to take in dict params
         # FIXME: fixed thread number
-- 
2.43.0


From de989bd5a504fe116c70cb98be92056645c6773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 22/57] fix: casadi problems with a linear model can be built

---
 lumos/models/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index d3a373a..9f2f80a 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -918,8 +918,14 @@ class StateSpaceModel(Model):
             "constraints": cas.external("implicit_con", library_path),
             "jacobian": cas.external("implicit_jac", library_path),
             "hessian": cas.external("implicit_hess", library_path),
-            "jacobian_structure": (np.array(jac_rows), np.array(jac_cols)),
-            "hessian_structure": (np.array(hess_rows), np.array(hess_cols)),
+            "jacobian_structure": (
+                np.array(jac_rows, dtype=int),
+                np.array(jac_cols, dtype=int),
+            ),
+            "hessian_structure": (
+                np.array(hess_rows, dtype=int),
+                np.array(hess_cols, dtype=int),
+            ),
         }
 
         self.model_algebra = CasMappedConstraints(
-- 
2.43.0


From 989f49de2f95a416b2bb2cad933bcf95384418b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 23/57] fix: condensed jacobian structure keeps entries that
 are zero when built

---
 lumos/optimal_control/scaled_mesh_ocp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 8d89817..3ccf348 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -352,7 +352,15 @@ class ScaledMeshOCP(CompositeProblem):
         # jacobians with no explicit zeros, which would probably give a more
         # pessimistic estimate.
         x0 = np.random.randn(self.num_dec)
-        algebraic_jac = self._con_storage["model_algebra"].get_csc_jacobian(x0)
+        # NOTE: entries of the model jacobian that are zero at this point, or with the
+        # current parameters, can be non-zero later and must be part of the structure.
+        algebra = self._con_storage["model_algebra"]
+        vals = np.ravel(algebra.jacobian(x0))
+        vals = np.where(vals == 0, np.random.uniform(0.5, 1.0, len(vals)), vals)
+        rows, cols = algebra.jacobianstructure()
+        algebraic_jac = sparse.csc_matrix(
+            (vals, (np.ravel(rows), np.ravel(cols))), shape=algebra.jac_shape
+        )
         continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
-- 
2.43.0


From 5c3ac2fc912e4b1e3805620a2d8884414cbfb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 24/57] fix: condensed jacobian structure keeps entries that
 cancel when built

---
 lumos/optimal_control/scaled_mesh_ocp.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 3ccf348..0c7fba1 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -353,14 +353,19 @@ class ScaledMeshOCP(CompositeProblem):
         # pessimistic estimate.
         x0 = np.random.randn(self.num_dec)
         # NOTE: entries of the model jacobian that are zero at this point, or with the
-        # current parameters, can be non-zero later and must be part of the structure.
+        # current parameters and mesh, or that cancel out a continuity entry, can be
+        # non-zero later and must be part of the structure. So we use random values for
+        # all of them except for the constant states_dot ones, see the note on
+        # cancellation in _make_chainrule_condensed_jacobian.
         algebra = self._con_storage["model_algebra"]
-        vals = np.ravel(algebra.jacobian(x0))
-        vals = np.where(vals == 0, np.random.uniform(0.5, 1.0, len(vals)), vals)
-        rows, cols = algebra.jacobianstructure()
-        algebraic_jac = sparse.csc_matrix(
-            (vals, (np.ravel(rows), np.ravel(cols))), shape=algebra.jac_shape
+        rows, cols = (np.ravel(idx) for idx in algebra.jacobianstructure())
+        idx_states_dot = self.dec_var_operator.get_group_indcies_in_dec("states_dot")
+        vals = np.where(
+            np.isin(cols, idx_states_dot),
+            np.ravel(algebra.jacobian(x0)),
+            np.random.randn(len(cols)),
         )
+        algebraic_jac = sparse.csc_matrix((vals, (rows, cols)), shape=algebra.jac_shape)
         continuity_jac = self._con_storage["continuity"].get_csc_jacobian(x0)
         # This jac should have a pessimistic structure: the least possible sparsity
         structure_jac = self._make_chainrule_condensed_jacobian(
-- 
2.43.0


From 03fee5a6fbe0c8c14a9204a28dbb5475192cb800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 25/57] fix: a composite problem without constraints or
 objectives can be evaluated

---
 lumos/optimal_control/nlp.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 1431520..4f58501 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -752,22 +752,33 @@ class CompositeProblem(NLPFunction):
 
 
     def _compute_objective(self, x):
+        if not self._objectives:
+            return 0.0
         return np.sum(np.hstack([p.objective(x) for p in self._objectives.values()]))
 
     def gradient(self, x):
+        if not self._objectives:
+            return np.zeros(self.num_dec)
         return np.sum(
             np.vstack([p.gradient(x) for p in self._objectives.values()]), axis=0
         )
 
     def constraints(self, x):
+        if not self._constraints:
+            return np.array([])
         return np.hstack(
             [np.ravel(p.constraints(x)) for p in self._constraints.values()]
         )
 
     def jacobian(self, x):
+        if not self._constraints:
+            return np.array([])
         return np.hstack([np.ravel(p.jacobian(x)) for p in self._constraints.values()])
 
     def jacobianstructure(self) -> Tuple[np.ndarray, np.ndarray]:
+        if not self._constraints:
+            return np.array([], dtype=int), np.array([], dtype=int)
+
         idx_rows, idx_cols = [], []
 
         # When we stack constraints together, the jacobian structure row indices need
@@ -796,7 +807,7 @@ class CompositeProblem(NLPFunction):
         for k, p in self._objectives.items():
             vals.append(np.ravel(p.hessian(x) * obj_factor))
 
-        return np.hstack(vals)[self._idx_triu]
+        return np.hstack([np.array([])] + vals)[self._idx_triu]
 
     def hessianstructure(self) -> Tuple[np.ndarray, np.ndarray]:
         idx_rows, idx_cols = [], []
@@ -807,8 +818,10 @@ class CompositeProblem(NLPFunction):
             idx_rows.append(np.ravel(new_rows))
             idx_cols.append(np.ravel(new_cols))
 
-        idx_rows = np.hstack(idx_rows)
-        idx_cols = np.hstack(idx_cols)
+        # NOTE: there could be no parts at all
+        empty = [np.array([], dtype=int)]
+        idx_rows = np.hstack(empty + idx_rows)
+        idx_cols = np.hstack(empty + idx_cols)
 
         self._idx_triu = idx_rows <= idx_cols
 
-- 
2.43.0


From 5bdf18a6efea8d41cd54d3fe843d5186fb37b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 26/57] fix: trees apply the given delimiter to every level of
 a path

---
 lumos/models/tree_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumos/models/tree_utils.py b/lumos/models/tree_utils.py
index 2260f66..c80d759 100644
--- a/lumos/models/tree_utils.py
+++ b/lumos/models/tree_utils.py
@@ -98,7 +98,7 @@ class Tree:
             subtree._data = value
         elif self._data_type == dict:
             *path_names, param_key = path.split(delimiter)
-            subtree = self._get_subtree(delimiter.join(path_names))
+            subtree = self._get_subtree(delimiter.join(path_names), delimiter)
             subtree._data[param_key] = value
         else:
             raise TypeError("Only str and dict supported for Tree at the moment")
@@ -111,7 +111,7 @@ class Tree:
             )
         *path_to_parent, child_name = path.split(delimiter)
         path_to_parent = delimiter.join(path_to_parent)
-        parent = self._get_subtree(path_to_parent)
+        parent = self._get_subtree(path_to_parent, delimiter)
 
         # Ensure the child to be replaced does actually exist
         if child_name in parent._children:
@@ -173,7 +173,7 @@ class ParameterTree(Tree):
 
     def get_param(self, path, delimiter="."):
         *path_names, param_key = path.split(delimiter)
-        t = self._get_subtree(delimiter.join(path_names))
+        t = self._get_subtree(delimiter.join(path_names), delimiter)
         return t._data[param_key]
 
     def set_param(self, path, value, delimiter="."):
-- 
2.43.0


From 317856fc517813bd5502e7a7e343636f0ed44e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 27/57] fix: submodel returns survive interrupted evaluations
 and mixin forwards

---
 lumos/models/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 9f2f80a..d65add5 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -132,10 +132,12 @@ def _clear_buffer_on_error(forward):
     def wrapped(self, *args, **kwargs):
         try:
             return forward(self, *args, **kwargs)
-        except Exception:
+        except BaseException:
+            # including an interrupt by the user
             self._clear_submodel_return_buffer()
             raise
 
+    wrapped._clears_buffer_on_error = True
     return wrapped
 
 
@@ -144,7 +146,8 @@ class Model(CompositeModel):
 
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        if "forward" in cls.__dict__:
+        # NOTE: forward could also be inherited from a mixin, which is not a Model
+        if not getattr(cls.forward, "_clears_buffer_on_error", False):
             cls.forward = _clear_buffer_on_error(cls.forward)
 
     def __init__(
-- 
2.43.0


From 652e95459670e896dd133e367e0bfd9e4d160bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 28/57] fix: arrays with missing inputs are rejected with jax
 as well

---
 lumos/models/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index d65add5..8c6f742 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -31,6 +31,11 @@ def _array_to_dict(names, values):
     # We could do dict(zip(names, values)), but unfortunately this does NOT work
     # for casadi as casadi matrices are designed to be non-iterable
     # see: https://github.com/casadi/casadi/issues/2278
+
+    # NOTE: jax doesn't raise on indices out of bounds but returns the last element
+    if np.prod(np.shape(values)) < len(names):
+        raise KeyError(f"Expected values for {names}, got shape {np.shape(values)}")
+
     return {name: values[idx] for idx, name in enumerate(names)}
 
 
-- 
2.43.0


From 8b5b91f2b0807221f72e63e6579fd4350ef4b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 29/57] fix: in_axes of mapped functions can be tuples, as in
 jax vmap

---
 lumos/numpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index aaed935..7e65031 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -122,7 +122,7 @@ def cmap(
     """
 
     def fmapped(*args):
-        if isinstance(in_axes, list):
+        if isinstance(in_axes, (list, tuple)):
             assert len(in_axes) == len(args)
             full_in_axes = in_axes
         else:
@@ -221,7 +221,7 @@ def lmap(
     """
 
     def fmapped(*args):
-        if isinstance(in_axes, list):
+        if isinstance(in_axes, (list, tuple)):
             assert len(in_axes) == len(args)
             full_in_axes = in_axes
         else:
-- 
2.43.0


From 0c8cf038c095574abee59b3ff7277d2b5c2976a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 30/57] fix: matrices shared by all elements of a cmap are not
 transposed

---
 lumos/numpy/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lumos/numpy/utils.py b/lumos/numpy/utils.py
index 7e65031..f1428f1 100644
--- a/lumos/numpy/utils.py
+++ b/lumos/numpy/utils.py
@@ -157,14 +157,17 @@ def cmap(
         # NOTE: for parameter input, which are usually tree type data or dicitonary
         # clearly tiling won't work. But this works here because casadi works on
         # flattened array as parameters
+        # Casadi by default uses column vector, and hence maps both the inputs and ouputs
+        # in row dimension, so we need to transpose both (but not the matrices that are
+        # shared, which already are in the form casadi expects)
         args = [
-            np.tile(a, (batch, 1)) if map_axis is None else a
-            for (a, map_axis) in zip(args, full_in_axes)
+            a.T
+            if map_axis is not None
+            else np.tile(a, (1, batch))
+            if np.shape(a) == fn.size_in(idx)
+            else np.tile(a, (batch, 1)).T
+            for idx, (a, map_axis) in enumerate(zip(args, full_in_axes))
         ]
-
-        # Casadi by default uses column vector, and hence maps both the inputs and ouputs
-        # in row dimension, so we need to transpose both
-        args = [a.T for a in args]
         outputs = fmapped.raw_mapped(*args)
 
         # Since casadi only concatenates on existing axis (and also it is limited to 2d)
-- 
2.43.0


From ebd018cacb426af1535fb19b7f9abbbff5c8f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 31/57] fix: mean of all elements of a casadi matrix is a
 scalar

---
 lumos/numpy/casadi_numpy/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 316aca6..42371b0 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -41,7 +41,7 @@ def mean(x, axis: int = None):
         elif axis == 1:
             return sum(x, axis=1) / x.shape[1]
         elif axis is None:
-            return mean(mean(x, axis=0), axis=1)
+            return sum(x) / x.numel()
         else:
             raise ValueError(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 7509fc504a431a000cac4876cd9271994113266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 32/57] fix: roll of casadi arrays by any shift and along any
 axis

---
 lumos/numpy/casadi_numpy/array.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index f8a0362..fbb90a9 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -244,16 +244,22 @@ def roll(a, shift, axis: int = None):
     """
     if not is_casadi_type(a):
         return _onp.roll(a, shift, axis=axis)
-    else:  # TODO add some checking to make sure shift < len(a), or shift is modulo'd down by len(a).
-        # assert shift < a.shape[axis]
-        if 1 in a.shape and axis == 0:
-            return _cas.vertcat(a[-shift, :], a[:-shift, :])
-        elif axis == 0:
-            return _cas.vertcat(a.T[:, -shift], a.T[:, :-shift]).T
-        elif axis == 1:
-            return _cas.horzcat(a[:, -shift], a[:, :-shift])
-        elif axis is None:
-            return roll(a, shift=shift, axis=0)
+    else:
+        if axis is None:
+            if a.shape[0] == 1:
+                # NOTE: unlike in numpy, a matrix of one row is not rolled by default
+                return roll(a, shift=shift, axis=0)
+            # Elements are rolled in row-major order, and put back in the original shape
+            flat = roll(_cas.vec(a.T), shift=shift, axis=0)
+            return _cas.reshape(flat, a.shape[1], a.shape[0]).T
+        elif axis == 0 or axis == 1:
+            if a.numel() == 0:
+                return a
+            cut = a.shape[axis] - shift % a.shape[axis]
+            if axis == 0:
+                return _cas.vertcat(a[cut:, :], a[:cut, :])
+            else:
+                return _cas.horzcat(a[:, cut:], a[:, :cut])
         else:
             raise Exception(
                 "CasADi types can only be up to 2D, so `axis` must be None, 0, or 1."
-- 
2.43.0


From 5e78bdc641a041f69e4e7d43af10a89ae09e04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 33/57] fix: diff of casadi arrays takes n differences along
 the last axis

---
 lumos/numpy/casadi_numpy/calculus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/calculus.py b/lumos/numpy/casadi_numpy/calculus.py
index 3b9d0da..ef54283 100644
--- a/lumos/numpy/casadi_numpy/calculus.py
+++ b/lumos/numpy/casadi_numpy/calculus.py
@@ -18,9 +18,12 @@ def diff(a, n=1, axis=-1):
                 "This could be implemented, but haven't had the need yet."
             )
 
+        # the last axis is the rows for a vector (n, 1), and the columns for a matrix
+        cas_axis = 0 if a.shape[1] == 1 else 1
+
         result = a
         for i in range(n):
-            result = _cas.diff(a)
+            result = _cas.diff(result, 1, cas_axis)
         return result
 
 
-- 
2.43.0


From b3d4cc1870e05a8f14f728215298bc54672526cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 34/57] fix: reshape of casadi arrays is row-major as in numpy

---
 lumos/numpy/casadi_numpy/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index fbb90a9..bd15568 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -294,7 +294,9 @@ def reshape(a, newshape):
     if not is_casadi_type(a):
         return _onp.reshape(a, newshape)
     else:
-        return _cas.reshape(a, newshape)
+        # numpy is row-major while casadi is column-major
+        rows, cols = newshape
+        return _cas.reshape(a.T, cols, rows).T
 
 
 def zeros(shape):
-- 
2.43.0


From 6c4a5eb02a119d34bd5c5b6db54c9ae5b8c40053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 35/57] fix: geomspace with casadi arguments is a geometric
 progression

---
 lumos/numpy/casadi_numpy/spacing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/spacing.py b/lumos/numpy/casadi_numpy/spacing.py
index 6ac2ce8..1861df6 100644
--- a/lumos/numpy/casadi_numpy/spacing.py
+++ b/lumos/numpy/casadi_numpy/spacing.py
@@ -56,6 +56,7 @@ def geomspace(start: float = 1.0, stop: float = 10.0, num: int = 50):
     if not is_casadi_type([start, stop, num], recursive=True):
         return _onp.geomspace(start, stop, num)
     else:
-        if start <= 0 or stop <= 0:
-            raise ValueError("Both start and stop must be positive!")
-        return _onp.log10(10 ** linspace(start, stop, num))
+        for value in (start, stop):
+            if not isinstance(value, (_cas.SX, _cas.MX)) and value <= 0:
+                raise ValueError("Both start and stop must be positive!")
+        return logspace(_onp.log10(start), _onp.log10(stop), num)
-- 
2.43.0


From 7e0b00a2c61c147979cb45f992d2debfa0b9d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 36/57] fix: zeros_like of an MX array is an MX array

---
 lumos/numpy/casadi_numpy/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index bd15568..aa6f867 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -304,6 +304,8 @@ def zeros(shape):
 
 
 def zeros_like(array):
+    if isinstance(array, _cas.MX):
+        return _cas.MX.zeros(array.shape)
     return _cas.SX.zeros(array.shape)
 
 
-- 
2.43.0


From 216a2855b846b3a0d44da78e81116a6cca78321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 37/57] fix: norm of casadi arrays distinguishes matrix and
 vector norms

---
 lumos/numpy/casadi_numpy/linalg.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 92163d0..82f6b94 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -75,16 +75,30 @@ def norm(x, ord=None, axis=None):
             else:
                 ord = "fro"
 
+        if ord == "fro":
+            return _cas.norm_fro(x)
+
+        if axis is None:
+            # Matrix norms
+            if ord == 1:
+                return _cas.mmax(sum(abs(x), axis=0))
+            elif ord == _onp.inf:
+                return _cas.mmax(sum(abs(x), axis=1))
+            raise ValueError(f"Matrix norm of order {ord} is not available for CasADi types.")
+
+        if axis == -1:
+            axis = 0 if x.shape[1] == 1 else 1
+
         if ord == 1:
             # return _cas.norm_1(x)
             return sum(abs(x), axis=axis)
         elif ord == 2:
             # return _cas.norm_2(x)
             return sum(x ** 2, axis=axis) ** 0.5
-        elif ord == "fro":
-            return _cas.norm_fro(x)
-        elif np.isinf(ord):
-            return _cas.norm_inf()
+        elif ord == _onp.inf or ord == -_onp.inf:
+            extreme = _cas.mmax if ord > 0 else _cas.mmin
+            vectors = _cas.horzsplit(x) if axis == 0 else _cas.vertsplit(x)
+            return _cas.vertcat(*[extreme(abs(v)) for v in vectors])
         else:
             try:
                 return sum(abs(x) ** ord, axis=axis) ** (1 / ord)
-- 
2.43.0


From 7a0fd607193dd3b2d966791f674892a0c6891074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 38/57] fix: dot and inner of casadi matrices are matrix
 products

---
 lumos/numpy/casadi_numpy/linalg.py           | 12 +++++++++++-
 lumos/numpy/casadi_numpy/linalg_top_level.py |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 82f6b94..0e5150d 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -14,7 +14,17 @@ def inner(x, y):
         return _onp.inner(x, y)
 
     else:
-        return _cas.dot(x, y)
+        x, y = (a if is_casadi_type(a) else _cas.DM(a) for a in (x, y))
+        if x.shape == y.shape and 1 in x.shape:
+            return _cas.dot(x, y)
+        elif y.shape == (x.shape[1], 1):
+            return _cas.mtimes(x, y)
+        elif x.shape == (y.shape[1], 1):
+            return _cas.mtimes(y, x)
+        elif x.shape[1] == y.shape[1] and x.shape[1] != 1:
+            return _cas.mtimes(x, y.T)
+        else:
+            raise ValueError(f"Shapes {x.shape} and {y.shape} are not aligned.")
 
 
 def outer(x, y):
diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index 834b9d5..a483c91 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -14,7 +14,14 @@ def dot(a, b):
         return _onp.dot(a, b)
 
     else:
-        return _cas.dot(a, b)
+        a, b = (x if is_casadi_type(x) else _cas.DM(x) for x in (a, b))
+        if a.shape == b.shape and 1 in a.shape:
+            return _cas.dot(a, b)
+        elif a.shape[1] == 1 and a.shape[0] == b.shape[0]:
+            # vector times matrix
+            return _cas.mtimes(b.T, a)
+        else:
+            return _cas.mtimes(a, b)
 
 
 def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
-- 
2.43.0


From 11479b5497395a2a7f2c50ff7b4540a8ddc217c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 39/57] fix: outer of casadi matrices flattens them as in numpy

---
 lumos/numpy/casadi_numpy/linalg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg.py b/lumos/numpy/casadi_numpy/linalg.py
index 0e5150d..3fb2ab9 100644
--- a/lumos/numpy/casadi_numpy/linalg.py
+++ b/lumos/numpy/casadi_numpy/linalg.py
@@ -37,9 +37,12 @@ def outer(x, y):
         return _onp.outer(x, y)
 
     else:
-        if len(y.shape) == 1:  # Force y to be transposable if it's not.
-            y = _onp.expand_dims(y, 1)
-        return x @ y.T
+        # Like numpy, matrices are flattened (row-major)
+        x, y = (
+            _cas.vec(a.T) if is_casadi_type(a) else _cas.DM(_onp.ravel(a))
+            for a in (x, y)
+        )
+        return _cas.mtimes(x, y.T)
 
 
 def solve(A, b):  # TODO get this working
-- 
2.43.0


From 2db7830b7b89bb006fbc8ffa10d65773e127ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 40/57] fix: casadi vectors given to array become its rows

---
 lumos/numpy/casadi_numpy/array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/array.py b/lumos/numpy/casadi_numpy/array.py
index aa6f867..a8a5cf1 100644
--- a/lumos/numpy/casadi_numpy/array.py
+++ b/lumos/numpy/casadi_numpy/array.py
@@ -25,6 +25,13 @@ def array(array_like, dtype=None):
     else:
         # Handles inputs like [[opti_var_1, opti_var_2], [opti_var_3, opti_var_4]]
         def make_row(contents: List):
+            if is_casadi_type(contents, recursive=False):
+                if contents.shape[1] == 1:
+                    # a vector, which becomes a row
+                    return contents.T
+                elif contents.shape[0] == 1:
+                    return contents
+                raise ValueError("CasADi types can only be up to 2D.")
             try:
                 return _cas.horzcat(*contents)
             except (TypeError, Exception):
-- 
2.43.0


From de80fcf32b7866cd1a52a3893a8b008ae94a97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 41/57] fix: cross of casadi arrays only accepts 3 components
 along the axis

---
 lumos/numpy/casadi_numpy/linalg_top_level.py | 24 ++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/linalg_top_level.py b/lumos/numpy/casadi_numpy/linalg_top_level.py
index a483c91..dc9e9d9 100644
--- a/lumos/numpy/casadi_numpy/linalg_top_level.py
+++ b/lumos/numpy/casadi_numpy/linalg_top_level.py
@@ -41,29 +41,35 @@ def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
             axisb = axis
             axisc = axis
 
+        a, b = (x if is_casadi_type(x) else _cas.DM(x) for x in (a, b))
+        # Vectors are represented as columns, their last axis is the rows
+        vectors = a.shape[1] == 1 and b.shape[1] == 1
+
         if axisa == -1 or axisa == 1:
-            if not is_casadi_type(a):
-                a = _cas.DM(a)
-            a = a.T
+            if axisa == 1 or a.shape[1] != 1:
+                a = a.T
         elif axisa == 0:
             pass
         else:
             raise ValueError("`axisa` must be -1, 0, or 1.")
 
         if axisb == -1 or axisb == 1:
-            if not is_casadi_type(b):
-                b = _cas.DM(b)
-            b = b.T
+            if axisb == 1 or b.shape[1] != 1:
+                b = b.T
         elif axisb == 0:
             pass
         else:
             raise ValueError("`axisb` must be -1, 0, or 1.")
 
-        # Compute the cross product, horizontally (along axis 1 of a 2D array)
-        c = _cas.cross(a, b)
+        if a.shape[0] != 3 or b.shape[0] != 3:
+            raise ValueError("Only vectors of 3 components can be crossed.")
+
+        # Compute the cross product of the columns
+        c = _cas.cross(a, b, 1)
 
         if axisc == -1 or axisc == 1:
-            c = c.T
+            if axisc == 1 or not vectors:
+                c = c.T
         elif axisc == 0:
             pass
         else:
-- 
2.43.0


From a69b722b68707fa245d6a89e48bb4f01f24c57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 42/57] fix: mod of casadi arrays has the sign of the divisor
 as in numpy

---
 lumos/numpy/casadi_numpy/arithmetic.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lumos/numpy/casadi_numpy/arithmetic.py b/lumos/numpy/casadi_numpy/arithmetic.py
index 42371b0..b4e7705 100644
--- a/lumos/numpy/casadi_numpy/arithmetic.py
+++ b/lumos/numpy/casadi_numpy/arithmetic.py
@@ -56,6 +56,24 @@ def abs(x):
         return _cas.fabs(x)
 
 
+def mod(x1, x2):
+    """
+    Element-wise remainder of the division, with the sign of the divisor.
+
+    See syntax here: https://numpy.org/doc/stable/reference/generated/numpy.mod.html
+    """
+    if not is_casadi_type([x1, x2], recursive=True):
+        return _onp.mod(x1, x2)
+
+    else:
+        # fmod has the sign of the dividend
+        rem = _cas.fmod(x1, x2)
+        return _cas.if_else(rem * x2 < 0, rem + x2, rem)
+
+
+remainder = mod
+
+
 # TODO trace()
 
 # def cumsum(x, axis: int = None):
-- 
2.43.0


From db45d59890967cdfd07fd754782c3e85228c984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 43/57] fix: invalid finite difference requests raise instead
 of returning an exception

---
 lumos/numpy/casadi_numpy/finite_difference_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/finite_difference_operators.py b/lumos/numpy/casadi_numpy/finite_difference_operators.py
index bacdc13..3a9a507 100644
--- a/lumos/numpy/casadi_numpy/finite_difference_operators.py
+++ b/lumos/numpy/casadi_numpy/finite_difference_operators.py
@@ -51,10 +51,10 @@ def finite_difference_coefficients(
     """
     ### Check inputs
     if derivative_degree < 1:
-        return ValueError("The parameter derivative_degree must be an integer >= 1.")
+        raise ValueError("The parameter derivative_degree must be an integer >= 1.")
     expected_order_of_accuracy = length(x) - derivative_degree
     if expected_order_of_accuracy < 1:
-        return ValueError(
+        raise ValueError(
             "You need to provide at least (derivative_degree+1) grid points in the x vector."
         )
 
-- 
2.43.0


From 20250e6c82f13eaed7bf8b8006dc270af31182b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 44/57] fix: all and any of casadi arrays take nonzero numbers
 as true

---
 lumos/numpy/casadi_numpy/logicals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lumos/numpy/casadi_numpy/logicals.py b/lumos/numpy/casadi_numpy/logicals.py
index c23122f..75b28df 100644
--- a/lumos/numpy/casadi_numpy/logicals.py
+++ b/lumos/numpy/casadi_numpy/logicals.py
@@ -76,7 +76,8 @@ def all(a):  # TODO add axis functionality
         return _onp.all(a)
 
     else:
-        return _cas.logic_all(a)
+        # any number other than zero is true
+        return _cas.logic_all(_cas.densify(a != 0))
 
 
 def any(a):  # TODO add axis functionality
@@ -89,4 +90,5 @@ def any(a):  # TODO add axis functionality
         return _onp.any(a)
 
     else:
-        return _cas.logic_any(a)
+        # any number other than zero is true
+        return _cas.logic_any(_cas.densify(a != 0))
-- 
2.43.0


From bc27f538194256b6db69c6b6a5625f84caa3549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 45/57] fix: logical_not of casadi arrays takes nonzero numbers
 as true

---
 lumos/numpy/casadi_numpy/logicals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lumos/numpy/casadi_numpy/logicals.py b/lumos/numpy/casadi_numpy/logicals.py
index 75b28df..58c0c59 100644
--- a/lumos/numpy/casadi_numpy/logicals.py
+++ b/lumos/numpy/casadi_numpy/logicals.py
@@ -63,7 +63,8 @@ def logical_not(x):
         return _onp.logical_not(x)
 
     else:
-        return _cas.logic_not(x)
+        # NOTE: casadi simplifies logic_not(logic_not(x)) to x, even if x is not 0 or 1
+        return x == 0
 
 
 def all(a):  # TODO add axis functionality
-- 
2.43.0


From adaa11d65c83fc6c4276766c75585c53bafb17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 46/57] fix: the outputs of ConstAero are no longer its
 parameters themselves

---
 lumos/models/aero/aero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/models/aero/aero.py b/lumos/models/aero/aero.py
index a1fa7bb..ee05482 100644
--- a/lumos/models/aero/aero.py
+++ b/lumos/models/aero/aero.py
@@ -22,7 +22,7 @@ class ConstAero(AeroModel):
         return {"Cx": 0.6, "Cy": 0.0, "Cz": 1.9}
 
     def forward(self, inputs):
-        return ModelReturn(outputs=self._params)
+        return ModelReturn(outputs=dict(self._params))
 
 
 class GPAero(AeroModel):
-- 
2.43.0


From ad99d1bf7d74a07083050777e1fb25419fdc9c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 47/57] fix: a solve that stops before its first iteration does
 not fail in the logging

The logging of the last iteration raised when the solver returned without any
iteration (eg with an invalid option), hiding the status of the solver, and the
files of an earlier solve were left as if they were those of the new one.
---
 lumos/optimal_control/scaled_mesh_ocp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index 0c7fba1..f98cfd9 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -856,8 +856,14 @@ class ScaledMeshOCP(CompositeProblem):
         self._num_iter = None
         if self.logging_config is not None:
             self._metrics_history_list = []
-            for file in glob.glob(os.path.join(self._logging_dir, "iter*.csv")):
-                os.remove(file)
+            for pattern in (
+                "iter*.csv",
+                "results.csv",
+                "metrics_history.csv",
+                "all_iters.parquet",
+            ):
+                for file in glob.glob(os.path.join(self._logging_dir, pattern)):
+                    os.remove(file)
 
     @property
     def logging_dir(self):
@@ -889,7 +895,9 @@ class ScaledMeshOCP(CompositeProblem):
     def _log_final_iter(self):
         # TODO: we should be able to do better than these hard-coded names everywhere.
         config = self.logging_config
-        if config is not None:
+        # NOTE: the solver could stop before its first iteration, eg with an invalid
+        # option, and then there is nothing to log.
+        if config is not None and self._num_iter is not None:
             # Write the result file
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
-- 
2.43.0


From 5e9aba91f69c5b13f49b0007bd45ca6a48f93a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 48/57] fix: the last logged table holds the variables of the
 last iteration

When the solver evaluated further points after its last iteration (eg rejected trial
points before it gives up), the final table held the last of these points instead.
---
 lumos/optimal_control/scaled_mesh_ocp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index f98cfd9..bf13cbf 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -878,6 +878,7 @@ class ScaledMeshOCP(CompositeProblem):
         if config is not None:
             iter_num = metrics["iter_count"]
             self._metrics_history_list.append(metrics)
+            self._logged_dec_var = self._last_iter_dec_var
 
             if (
                 config.log_every_nth_iter > 0
@@ -899,9 +900,11 @@ class ScaledMeshOCP(CompositeProblem):
         # option, and then there is nothing to log.
         if config is not None and self._num_iter is not None:
             # Write the result file
+            # NOTE: the solver could have evaluated further points after its last
+            # iteration, so we must use the variables of that iteration here.
             result_file = os.path.join(self._logging_dir, "results.csv")
             self._create_result_df(
-                self._last_iter_dec_var, file_path=result_file, iter_num=self._num_iter,
+                self._logged_dec_var, file_path=result_file, iter_num=self._num_iter,
             )
 
             # Combine the metrics history
-- 
2.43.0


From d46bbf2851bfbd4f61c66b959a94dff602728cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 49/57] fix: the number of iterations returned is that of the
 solve itself

A steady-state solve that stopped before its first iteration returned the number of
iterations of the earlier solve.
---
 lumos/optimal_control/nlp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index 4f58501..c56b0b6 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -608,6 +608,9 @@ class NLPFunction(ABC):
         # scale initial guess
         scaled_init_guess = init_guess / self._dec_var_scales
 
+        # Remove what is left from an earlier solve
+        self._num_iter = None
+
         # Solve the scaled problem
         # TODO: we still need to handle the scaling of the lagrangian multipliers for
         # the constraints as well as for the bounds.
-- 
2.43.0


From 1b329e0a1144427d95d5d7fd6255dd95515805e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 50/57] fix: a rejected track leaves the lap-time problem
 unchanged

---
 lumos/simulations/laptime_simulation.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index b1b5bd7..71df12f 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -181,16 +181,23 @@ class LaptimeSimulation(FixedMeshOCP):
         """
 
         # Create track object
-        self._track = RaceTrack.from_tum_csv(track_file)
+        track = RaceTrack.from_tum_csv(track_file)
+
+        # update variable bounds
+        # NOTE: this is done first, so that nothing changes if the track is rejected.
+        self._update_track_bounds(track)
+        self._track = track
 
         # update mesh_scale
-        self.set_mesh_scale(self._track.total_distance)
+        self.set_mesh_scale(track.total_distance)
 
-        # update variable bounds
-        curvature = self._track.curvature_at(self.distance_mesh)
-        heading = self._track.heading_at(self.distance_mesh)
-        left_distance = self._track.left_distance_at(self.distance_mesh)
-        right_distance = self._track.right_distance_at(self.distance_mesh)
+    def _update_track_bounds(self, track: RaceTrack):
+        distance_mesh = self._flat_normalized_mesh * track.total_distance
+
+        curvature = track.curvature_at(distance_mesh)
+        heading = track.heading_at(distance_mesh)
+        left_distance = track.left_distance_at(distance_mesh)
+        right_distance = track.right_distance_at(distance_mesh)
 
         track_bounds = (
             BoundConfig("inputs", "track_curvature", (curvature, curvature)),
-- 
2.43.0


From 82adb85ac447147237073f289d473c345ba555eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 51/57] fix: the bounds given by the track follow a change of
 the mesh

---
 lumos/simulations/laptime_simulation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lumos/simulations/laptime_simulation.py b/lumos/simulations/laptime_simulation.py
index 71df12f..c5f299f 100644
--- a/lumos/simulations/laptime_simulation.py
+++ b/lumos/simulations/laptime_simulation.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 from dataclasses import dataclass, field
-from typing import Any, Dict, List, Tuple
+from typing import Any, Dict, List, Optional, Tuple
 
 from lumos.optimal_control.config import (
     BoundConfig,
@@ -141,6 +141,9 @@ class LTCConfig(SimConfig):
 class LaptimeSimulation(FixedMeshOCP):
     ConfigClass: type = LTCConfig
 
+    # Not available until the track is set, which is after the problem construction
+    _track: RaceTrack = None
+
     def __init__(
         self,
         model_params: Dict[str, Any] = {},
@@ -166,6 +169,13 @@ class LaptimeSimulation(FixedMeshOCP):
     def distance_mesh(self):
         return self._flat_normalized_mesh * self._track.total_distance
 
+    def set_normalized_mesh(self, interval_points: Optional[np.ndarray] = None):
+        super().set_normalized_mesh(interval_points)
+
+        # The bounds hold the track values at every stage, which move with the mesh.
+        if self._track is not None:
+            self._update_track_bounds(self._track)
+
     def set_track(self, track_file):
         """Set the track and update the variable bounds accordingly.
 
-- 
2.43.0


From 246a69ff2562fc0510a70403aee467e89169f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 52/57] fix: the logging configuration survives the conversion
 to a dictionary and back

---
 lumos/optimal_control/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 85c33b5..4bab520 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -156,6 +156,9 @@ class SimConfig:
                 BoundaryConditionConfig(**d) for d in self.boundary_conditions
             )
 
+        if isinstance(self.logging_config, dict):
+            self.logging_config = LoggingConfig(**self.logging_config)
+
     def to_dict(self) -> Dict[str, Any]:
         """Convert a nested config to a dictionary."""
         return asdict(self)
-- 
2.43.0


From 3006389f217fb54e156bb027b150a3a6fc5b55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 53/57] fix: boundary conditions can be a list, as they are
 after a JSON round trip

---
 lumos/optimal_control/scaled_mesh_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumos/optimal_control/scaled_mesh_ocp.py b/lumos/optimal_control/scaled_mesh_ocp.py
index bf13cbf..b1ae66b 100644
--- a/lumos/optimal_control/scaled_mesh_ocp.py
+++ b/lumos/optimal_control/scaled_mesh_ocp.py
@@ -773,7 +773,7 @@ class ScaledMeshOCP(CompositeProblem):
     ):
         """Store new boundary conditions to the problem. Will append instead of reset."""
         with self._restore_bounds_on_error():
-            self._boundary_conditions += boundary_conditions
+            self._boundary_conditions += tuple(boundary_conditions)
             self._apply_boundary_conditions()
 
     def _apply_boundary_conditions(self):
-- 
2.43.0


From 64b66ba2c2084cf1c0dd081865ebc7267e24a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 54/57] fix: refuse a scale that is not positive

---
 lumos/optimal_control/config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lumos/optimal_control/config.py b/lumos/optimal_control/config.py
index 4bab520..6cba927 100644
--- a/lumos/optimal_control/config.py
+++ b/lumos/optimal_control/config.py
@@ -44,14 +44,19 @@ class BoundConfig:
 @dataclass
 class ScaleConfig:
     """Config for the scale on variables
-    
-    TODO: check all values are postiive!
+
+    The scale must be positive.
     """
 
     group: str
     name: str
     value: float
 
+    def __post_init__(self):
+        assert (
+            self.value > 0
+        ), f"Failed to set scale for {self.group}:{self.name}. Scale must be positive."
+
 
 @dataclass
 class BoundaryConditionConfig:
-- 
2.43.0


From 532ab415155a2c76638b3d22f1c1972a0a409ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 55/57] fix: check the constraint outputs when they are set

---
 lumos/models/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index 8c6f742..f4b3b6a 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -519,7 +519,16 @@ class StateSpaceModel(Model):
                 raise ValueError(f"residual {c} not found in outputs")
 
     def set_con_outputs(self, con_outputs: Tuple[str, ...]) -> None:
-        """Set the con_outputs of the model."""
+        """Set the con_outputs of the model.
+
+        They must be outputs of the model, each given once.
+        """
+        for c in con_outputs:
+            if c not in self.get_group_names("outputs"):
+                raise ValueError(f"constraint outputs {c} not found in outputs")
+        if len(set(con_outputs)) != len(con_outputs):
+            raise ValueError(f"duplicate constraint outputs in {con_outputs}")
+
         # NOTE: names is a namedtuple, so it's immutable. Using the _replace method is
         # just a workaround to change a field.
         self.names = self.names._replace(con_outputs=con_outputs)
-- 
2.43.0


From eb2f1e0b17c89e1c675668ee4ba4a7945481616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 56/57] fix: give cyipopt the lower triangular hessian
 structure it requires

---
 lumos/optimal_control/nlp.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lumos/optimal_control/nlp.py b/lumos/optimal_control/nlp.py
index c56b0b6..6cd7a57 100644
--- a/lumos/optimal_control/nlp.py
+++ b/lumos/optimal_control/nlp.py
@@ -438,6 +438,23 @@ class BaseObjective:
             return self._hessian(x * self._input_scales) / self._hess_scales
 
 
+class _IpoptCallbacks:
+    """What the solver sees of a problem.
+
+    cyipopt only takes lower triangular hessians, while we use upper triangular ones.
+    """
+
+    def __init__(self, problem: "NLPFunction"):
+        self._problem = problem
+
+    def __getattr__(self, name: str):
+        return getattr(self._problem, name)
+
+    def hessianstructure(self) -> Tuple[np.ndarray, np.ndarray]:
+        rows, cols = self._problem.hessianstructure()
+        return np.maximum(rows, cols), np.minimum(rows, cols)
+
+
 class NLPFunction(ABC):
     """Base class for nonlinear programming problem for IPOPT"""
 
@@ -527,7 +544,7 @@ class NLPFunction(ABC):
         nlp = cyipopt.Problem(
             n=self.num_dec,
             m=self.num_con,
-            problem_obj=self,  # this is particularly concerning...
+            problem_obj=_IpoptCallbacks(self),
             lb=self.lb / self._dec_var_scales,
             ub=self.ub / self._dec_var_scales,
             cl=self.cl,
-- 
2.43.0


From ca6c7b020532263b6aa6f504bbe2577b3eeee24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 57/57] fix: evaluate a batch with the stored parameters by
 default

---
 lumos/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumos/models/base.py b/lumos/models/base.py
index f4b3b6a..d8105d1 100644
--- a/lumos/models/base.py
+++ b/lumos/models/base.py
@@ -679,6 +679,10 @@ class StateSpaceModel(Model):
         mesh: float,
         params: Optional[Dict[str, Any]] = None,
     ) -> StateSpaceModelReturn:
+        # By default the model is evaluated with the parameters it stores
+        if params is None:
+            params = self.get_recursive_params()
+
         return self._batched_forward(states, inputs, mesh, params)
 
     def make_model_algebra_cons(self, backend: str):
-- 
2.43.0


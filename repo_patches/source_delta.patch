From a13b7f141b800114495ec5353c4db3d2365905fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/77] fix: merge nested user configurations on Python >= 3.10

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From 37b7d55efbdf2d5edd88e6ff3e31d3ce34360f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/77] fix: computing the next observation no longer
 overwrites the recorded one

---
 kd/model/discover/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..8622f77 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -124,7 +124,7 @@ class HierarchicalTask(Task):
 
     def get_next_obs(self, actions, obs):
 
-        dangling = obs[:, 3] # Shape of obs: (?, 4)
+        dangling = obs[:, 3].copy() # Shape of obs: (?, 4); obs itself is recorded by the caller
         action = actions[:, -1] # Current action
         lib = self.library
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 1ec7ec7731a6a7a52e7f897803685f64a2b3e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/77] fix: descendant constraints cover every operand of a
 binary effector

---
 kd/model/discover/dso/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..b6886bb 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,7 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        threshold = dangling - arity
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From e933dde839f9e2878723e5943c594d596701d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 04/77] fix: retrospective constraint check handles binary and
 nested effectors and left/right children

---
 kd/model/discover/dso/prior.py       |  5 +++
 kd/model/discover/dso/subroutines.py | 52 ++++++++++------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..e565be3 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -457,6 +457,11 @@ class RelationalConstraint(Constraint):
             violated = jit_check_constraint_violation_uchild(actions, parent, sibling, self.targets, 
                                                      adj_unary_effectors, adj_effectors)
 
+        elif self.relationship in ["lchild", "rchild"]:
+            adj_effectors = self.library.parent_adjust[self.effectors]
+            first = np.equal(sibling, self.L) if self.relationship == "lchild" else np.less(sibling, self.L)
+            violated = bool(np.any(np.isin(actions, self.targets) & np.isin(parent, adj_effectors) & first))
+
         return violated
 
     def validate(self):
diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index b6886bb..146c7ce 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -497,26 +497,20 @@ def jit_check_constraint_violation_descendant_no_target_tokens(\
     B       = binary_tokens.shape[0]
     U       = unary_tokens.shape[0]
     
-    descendant = False # True when current node is a descendant of operator
+    dangling = 0 # Open operands of the outermost effector found so far
 
     # For each action:
     for l in range(L):
         
         action = actions[0,l]
         
-        if a_in_b(action, effector_tokens, E):
-            # Does action match a target token?
-            if descendant:
-                # a token was found previously, but
-                # we are still in a dangling node, therefore
-                # we have a token inside a token expression
-                # that we are not allowed to have e.g.
-                # sin(sin(x)) .
-                
+        if dangling > 0:
+            # We are still in a dangling node. Does action match a token?
+            # Then we have a token inside a token expression
+            # that we are not allowed to have e.g.
+            # sin(sin(x)) .
+            if a_in_b(action, effector_tokens, E):
                 return True
-            descendant  = True
-            dangling    = 1
-        elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
                 # Then add one to dangling.
@@ -529,11 +523,9 @@ def jit_check_constraint_violation_descendant_no_target_tokens(\
                 # and assume that any token not binary 
                 # and unary is a terminal. 
                 dangling -= 1
-            
-            # If we no longer have any dangling nodes, 
-            # Then we cannot be a descendant.     
-            if dangling == 0:
-                descendant = False
+        elif a_in_b(action, effector_tokens, E):
+            # Every operand of the effector is open
+            dangling = 2 if a_in_b(action, binary_tokens, B) else 1
                 
     return False  
 
@@ -581,24 +573,21 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
             
     _,L     = actions.shape
     T       = target_tokens.shape[0]
+    E       = effector_tokens.shape[0]
     B       = binary_tokens.shape[0]
     U       = unary_tokens.shape[0]
     
-    descendant = False # True when current node is a descendant of operator
+    dangling = 0 # Open operands of the outermost effector found so far
 
     # For each action:
     for l in range(L):
         
         action = actions[0,l]
         
-        if a_in_b(action, effector_tokens, T):
-            # Does action match a target token?
-            descendant  = True
-            dangling    = 1
-        elif a_in_b(action, target_tokens, T):
-            if descendant:                
+        if dangling > 0:
+            # We are below an effector. Does action match a target token?
+            if a_in_b(action, target_tokens, T):
                 return True
-        elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
                 # Then add one to dangling.
@@ -611,13 +600,8 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
                 # and assume that any token not binary 
                 # and unary is a terminal. 
                 dangling -= 1
-            
-            # If we no longer have any dangling nodes, 
-            # Then we cannot be a descendant.     
-            if dangling == 0:
-                descendant = False
+        elif a_in_b(action, effector_tokens, E):
+            # Every operand of the effector is open
+            dangling = 2 if a_in_b(action, binary_tokens, B) else 1
                 
     return False  
-
-    
-
-- 
2.43.0


From a15cb8050366363acca6741638f82dd97adb7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 05/77] fix: the 2-D Laplacian operator can be evaluated (it
 failed to compile)

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d4cd645 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -192,7 +192,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From fedfc40fbb7c022551e45c8d1933fdf2344dfbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 06/77] fix: a batch whose valid candidates all have zero
 reward no longer crashes the search

---
 kd/model/discover/searcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..ba18021 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -84,7 +84,7 @@ def quantile_select(actions, obs, priors,programs, r, epsilon):
     s           = list(compress(s, valid))
     s_str       = list(compress(s_str, valid))
     
-    if len(actions)<1:
+    if len(actions)<1 or len(r_full_valid)<1:
         print("no valid training samples")
         # continue when no valid or high-rewards samples
         return None
-- 
2.43.0


From 2d55053b106e293573422e84e3cae03760fbd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 07/77] fix: building a model no longer consumes nested
 settings of the caller's configuration

---
 kd/model/kd_discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..3be0157 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -5,6 +5,7 @@ governing equations of PDEs. It supports both regular grid data and sparse
 sampling, and can be combined with Physics-Informed Neural Networks (PINN).
 """
 
+import copy
 from abc import ABCMeta, abstractmethod
 from ..base import BaseEstimator
 import warnings
@@ -284,7 +285,7 @@ class KD_Discover(BaseRL):
 
         with open(os.path.join(os.path.dirname(os.path.realpath(__file__)), self.base_config_file), encoding='utf-8') as f:
             base_config = json.load(f)
-        config_update = safe_merge_dicts(base_config, config)
+        config_update = safe_merge_dicts(base_config, copy.deepcopy(config))
         self.config = defaultdict(dict, config_update)
         self.config_task = self.config["task"]
         # Snapshot original function_set for safe reset on re-import.
-- 
2.43.0


From 6ab3bea60d0e85858deebb851e9ed3aca8b26626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 08/77] fix: importing data again no longer nests the result
 path inside the previous result file

---
 kd/model/kd_discover.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 3be0157..82e68f7 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -146,12 +146,21 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_out_file(dataset)
         self.setup()
 
+    def _set_out_file(self, name):
+        """Point ``out_path`` at the result file of ``name`` in the user's directory.
+
+        A path derived by an earlier import is not taken for the directory.
+        """
+        if self.out_path is None:
+            return
+        if not hasattr(self, '_out_dir') or self.out_path != self._out_file:
+            self._out_dir = self.out_path
+        self._out_file = os.path.join(self._out_dir, f"discover_{name}_{self.seed}.csv")
+        self.out_path = self._out_file
+
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
         """Import data through a :class:`~kd.dataset.PDEDataset` instance.
 
@@ -182,11 +191,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_file(resolved_name)
 
         self.setup()
         return self
@@ -554,11 +559,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_file(resolved_name)
 
         self.setup()
         return self
@@ -662,7 +663,7 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
+            self.out_path = self._out_file = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From 7591f5c7c4e47897f8ef5e0eb302ae8955854adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 09/77] fix: a coordinate used as a factor varies along its own
 axis on multi-dimensional data

---
 kd/model/discover/execute.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 6d77b0d..8a7eb34 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -2,9 +2,20 @@
 import array
 import torch.autograd as autograd
 import torch
+import numpy as np
 """
 evaluate PDE traversal through predefined operators and operands.
 """
+def _along_own_axis(values, input_var, u):
+    """
+    Shape a coordinate column for pointwise arithmetic with an N-D field u[t, x1, x2, ...].
+    """
+    shape = u[0].shape if len(u) > 0 else ()
+    axis = input_var + 1
+    if len(shape) > 2 and axis < len(shape) and np.size(values) == shape[axis]:
+        return np.reshape(values, [-1 if i == axis else 1 for i in range(len(shape))])
+    return values
+
 def python_execute(traversal, u, x):
     """
     evaulate the preorder traversal with provided data based on numpy. Modified from dso.
@@ -25,6 +36,9 @@ def python_execute(traversal, u, x):
 
                 intermediate_result =  x[token.input_var]
                 dim_flag = token.input_var+1
+                parent = apply_stack[-2][0].name if len(apply_stack) > 1 else ''
+                if 'diff' not in parent and 'Diff' not in parent:
+                    intermediate_result = _along_own_axis(intermediate_result, token.input_var, u)
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
             elif token.state_var is not None:
-- 
2.43.0


From 209ea011aeca6f6d3c6fbd3eb7d000c7d22f08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 10/77] fix: an impossible autograd Laplacian makes the
 candidate invalid instead of aborting the search

---
 kd/model/discover/execute.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 8a7eb34..c02c6e8 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -102,7 +102,10 @@ def python_execute_torch(traversal, u, x):
                         return None
                       
                 elif 'lap' in token.name:
-                    intermediate_result = token(*[*terminals, x])
+                    try:
+                        intermediate_result = token(*[*terminals, x])
+                    except Exception as e:
+                        return None
                 else:  
                     intermediate_result = token(*terminals)
             try:       
-- 
2.43.0


From f945a3b71fce704226c509d774963b0664707367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 11/77] fix: x/t accessors of a dataset follow its declared
 axis order

---
 kd/dataset/_base.py | 34 ++++++++++++++++++++++++++--------
 kd/model/kd_dlga.py |  2 +-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..8346879 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -486,6 +486,19 @@ class PDEDataset(MetaData):
         self.t = coords_1d.get("t")
         self.usol = fields_data[target_field]
 
+    def _xt_field(self) -> np.ndarray:
+        """Return the field as an (x, t) array, whatever the dataset's axis order.
+
+        :raises ValueError: If the dataset's axes are not exactly x and t.
+        """
+        if self.axis_order is None or list(self.axis_order) == ["x", "t"]:
+            return self.usol
+        if list(self.axis_order) == ["t", "x"]:
+            return self.usol.T
+        raise ValueError(
+            f"This accessor requires a dataset over x and t, got axes {self.axis_order}."
+        )
+
     def get_datapoint(self, x_id: int, t_id: int) -> Tuple[float, float, float]:
         """
         Retrieves the (x, t) coordinates and the corresponding solution value.
@@ -494,9 +507,10 @@ class PDEDataset(MetaData):
         :param t_id: Index in the temporal dimension.
         :return: A tuple (x, t, usol) representing the coordinates and solution.
         """
+        usol = self._xt_field()
         if not (0 <= x_id < len(self.x)) or not (0 <= t_id < len(self.t)):
             raise IndexError("Index out of range.")
-        return self.x[x_id], self.t[t_id], self.usol[x_id, t_id]
+        return self.x[x_id], self.t[t_id], usol[x_id, t_id]
 
     def get_data(self) -> Dict[str, Any]:
         """
@@ -514,6 +528,7 @@ class PDEDataset(MetaData):
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
                 - sampled_usol is an array of shape (n,) with corresponding solution values
         """
+        usol = self._xt_field()
         total_points = len(self.x) * len(self.t)
         
         # Convert ratio to absolute count if n_samples is a float < 1
@@ -525,9 +540,9 @@ class PDEDataset(MetaData):
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-            x_samples, t_samples = np.unravel_index(indices, self.usol.shape)
+            x_samples, t_samples = np.unravel_index(indices, usol.shape)
             sampled_points = np.column_stack((self.x[x_samples], self.t[t_samples]))
-            sampled_usol = self.usol[x_samples, t_samples]
+            sampled_usol = usol[x_samples, t_samples]
 
         elif method == 'uniform':
             grid_size = int(np.sqrt(n_samples))
@@ -538,13 +553,13 @@ class PDEDataset(MetaData):
                 self.x[x_samples.flatten()],
                 self.t[t_samples.flatten()]
             ))
-            sampled_usol = self.usol[x_samples.flatten(), t_samples.flatten()]
+            sampled_usol = usol[x_samples.flatten(), t_samples.flatten()]
 
         elif method == 'spline':
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, self.usol, kind='cubic')
+            spline = interp2d(self.t, self.x, usol, kind='cubic')
             usol_new = spline(t_new, x_new)
             x_samples, t_samples = np.meshgrid(x_new, t_new)
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
@@ -562,10 +577,12 @@ class PDEDataset(MetaData):
 
         :return: A 2D array of shape (len(x) * len(t), 2) where each row is (x, t).
         """
+        self._xt_field()  # refuses datasets over other axes
         X, T = np.meshgrid(self.x, self.t, indexing=indexing)
         return np.column_stack([X.ravel(), T.ravel()])
 
     def mesh_bounds(self, indexing='ij') -> np.ndarray:
+        self._xt_field()  # refuses datasets over other axes
         X, T = np.meshgrid(self.x, self.t, indexing=indexing)
         mesh_data = np.column_stack([X.ravel(), T.ravel()])
         return mesh_data.min(0), mesh_data.max(0)
@@ -597,9 +614,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self.usol, axis=0)
+            return np.gradient(self._xt_field(), self.x, axis=0)
         elif axis == 't':
-            return np.gradient(self.usol, axis=1)
+            return np.gradient(self._xt_field(), self.t, axis=1)
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
@@ -611,12 +628,13 @@ class PDEDataset(MetaData):
         :param t_range: Tuple representing the range of t values (min_t, max_t).
         :return: A dictionary containing subsets of x, t, and usol.
         """
+        usol = self._xt_field()
         x_start, x_end = np.searchsorted(self.x, [x_range[0], x_range[1]])
         t_start, t_end = np.searchsorted(self.t, [t_range[0], t_range[1]])
 
         return {'x': self.x[x_start:x_end], 
                 't': self.t[t_start:t_end], 
-                'usol': self.usol[x_start:x_end, t_start:t_end]}
+                'usol': usol[x_start:x_end, t_start:t_end]}
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..1e26999 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -308,7 +308,7 @@ class KD_DLGA(DLGA):
         if Xy_from == "mesh" or sample is None:
             # 使用完整网格上的所有点
             X = dataset.mesh()
-            y = dataset.usol.reshape(-1, 1)
+            y = dataset._xt_field().reshape(-1, 1)
         else:
             # 通过 PDEDataset.sample 抽取训练点
             X, y = dataset.sample(n_samples=sample, method=sample_method)
-- 
2.43.0


From 7b31b7196f571a0e788b1d0e68ddcfff3f3b6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 12/77] fix: spline sampling works again and pairs points with
 their values; a ratio of 1.0 is accepted

---
 kd/dataset/_base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 8346879..a3303d8 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -13,7 +13,7 @@ from pathlib import Path
 from importlib import resources
 from abc import ABC, abstractmethod
 from ._info import DatasetInfo
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 
 
 DATA_MODULE = "kd.dataset.data"
@@ -522,7 +522,7 @@ class PDEDataset(MetaData):
         """
         Samples a subset of the data points using different sampling methods.
 
-        :param n_samples: Number of samples to draw. If < 1, treated as a ratio.
+        :param n_samples: Number of samples to draw. A float in (0, 1] is treated as a ratio.
         :param method: Sampling method to use ('random', 'uniform', 'spline').
         :return: A tuple (sampled_points, sampled_usol), where:
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
@@ -532,7 +532,7 @@ class PDEDataset(MetaData):
         total_points = len(self.x) * len(self.t)
         
         # Convert ratio to absolute count if n_samples is a float < 1
-        if isinstance(n_samples, float) and 0 < n_samples < 1:
+        if isinstance(n_samples, float) and 0 < n_samples <= 1:
             n_samples = int(total_points * n_samples)
 
         if n_samples > total_points:
@@ -559,9 +559,9 @@ class PDEDataset(MetaData):
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, usol, kind='cubic')
-            usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
+            spline = RectBivariateSpline(self.x, self.t, usol)
+            usol_new = spline(x_new, t_new)
+            x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
             sampled_usol = usol_new.flatten()
 
-- 
2.43.0


From 36cbd74a942d60291ad9d57ef5459ddde302ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 13/77] fix: parameter fields are trimmed together with the
 field by cut_quantile

---
 kd/model/discover/adapter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..74626f1 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -408,13 +408,16 @@ class DiscoverSparseAdapter:
         result['u_star'] = u.reshape(-1, 1)
         result['shape'] = u.shape
 
-        # Parameter fields — raw arrays, not sampled.
+        # Parameter fields — trimmed like u, not sampled.
         param_fields = getattr(self.dataset, "param_fields", None) or {}
         if param_fields:
             param_data_list: List[np.ndarray] = []
             param_names: List[str] = []
             for name, arr in param_fields.items():
-                param_data_list.append(np.asarray(arr, dtype=float))
+                _, _, p = self._apply_cut_quantile(
+                    np.asarray(dataset.x), np.asarray(dataset.t), np.asarray(arr, dtype=float)
+                )
+                param_data_list.append(p)
                 param_names.append(name)
             result["param_data"] = param_data_list
             result["n_param_var"] = len(param_data_list)
-- 
2.43.0


From b87beea167f9e1d12732ca7b91422bd43f1c4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 14/77] fix: loading a dataset fails loudly and never exposes
 the registry's own metadata

---
 kd/dataset/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..92b0bae 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -11,6 +11,7 @@ from ._registry import (PDE_REGISTRY,
                         get_dataset_sym_true)
 import numpy as np
 from importlib import resources
+from copy import deepcopy
 
 
 def _tag_dataset(dataset: Optional[PDEDataset], name: str) -> Optional[PDEDataset]:
@@ -20,7 +21,7 @@ def _tag_dataset(dataset: Optional[PDEDataset], name: str) -> Optional[PDEDatase
 
     setattr(dataset, 'registry_name', name)
     info = PDE_REGISTRY.get(name, {})
-    aliases = info.get('aliases', {}) or {}
+    aliases = deepcopy(info.get('aliases', {}) or {})
     setattr(dataset, 'aliases', aliases)
     legacy_name = aliases.get('legacy', getattr(dataset, 'legacy_name', None))
     if legacy_name is None:
@@ -40,7 +41,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
     Returns:
         PDEDataset: The loaded dataset instance.
     """
-    info = get_dataset_info(name)
+    info = deepcopy(get_dataset_info(name))  # callers must not reach the registry
     
     # 处理不同文件格式
     if 'files' in info:  # 多文件情况（如chafee-infante）
@@ -98,6 +99,8 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
             domain=info.get('domain'),
             **info.get('keys', {}),
             **kwargs)
+        if dataset is None:
+            raise RuntimeError(f"Dataset '{name}' could not be loaded from {info['file']}.")
         return _tag_dataset(dataset, name)
 
 _REGRESSION_REGISTRY = {
@@ -145,7 +148,7 @@ def load_regression(name: str):
     X = data[:, info["x_cols"]]
     y = data[:, info["y_col"]]
     meta = {
-        "var_names": info["var_names"],
+        "var_names": list(info["var_names"]),
         "target_name": info["target_name"],
         "description": info["description"],
         "source": info["source"],
-- 
2.43.0


From 9bca9161579e796869e7bcc9a9cc6911c0bc4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 15/77] fix: parameter fields of an x/t dataset reach the
 genetic symbolic search

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 721e74b242f3f9d3700afc32de549051dfe1a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 16/77] fix: loading keeps a square field that is already in
 (x, t) order

---
 kd/dataset/__init__.py | 2 +-
 kd/dataset/_base.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index 92b0bae..b9fc448 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -50,7 +50,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
             u = u.T
 
         dataset = PDEDataset(
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index a3303d8..6651902 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -762,7 +762,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape != (len(x_data), len(t_data)) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
-- 
2.43.0


From 17ccce2463b33d870900fd91a0601159de246dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 17/77] fix: a refused set_params changes nothing, also for
 nested and non-estimator parameters

---
 kd/base.py | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/kd/base.py b/kd/base.py
index eb9bd5c..3c29825 100644
--- a/kd/base.py
+++ b/kd/base.py
@@ -63,24 +63,47 @@ class BaseEstimator:
         """
         if not params:
             return self
-        valid_params = self.get_params(deep=True)
+        # Refuse the whole request before anything is changed.
+        own_params, nested_params = self._split_params(params)
+
+        for key, value in own_params.items():
+            setattr(self, key, value)
+        for key, sub_params in nested_params.items():
+            getattr(self, key).set_params(**sub_params)
         
-        nested_params = defaultdict(dict)
+        return self
+
+    def _split_params(self, params):
+        """Split parameters into own and nested ones, refusing unknown names.
+
+        Args:
+            params (dict): Requested parameters, nested ones as ``name__sub_name``.
+
+        Returns:
+            tuple: Own parameters, and nested parameters grouped by name.
+
+        Raises:
+            ValueError: If a name is not a parameter, at whatever level.
+        """
+        own_params, nested_params = {}, defaultdict(dict)
+        names = self._get_param_names()
         for key, value in params.items():
             key, delim, sub_key = key.partition("__")
-            if key not in valid_params:
+            if key not in names:
                 raise ValueError(f"Invalid parameter {key} for {self}.")
-            
             if delim:
                 nested_params[key][sub_key] = value
             else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        
+                own_params[key] = value
+
         for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        
-        return self
+            nested = own_params[key] if key in own_params else getattr(self, key)
+            if not hasattr(nested, "set_params") or isinstance(nested, type):
+                raise ValueError(f"Parameter {key} of {self} has no parameters of its own.")
+            if isinstance(nested, BaseEstimator):
+                nested._split_params(sub_params)
+
+        return own_params, nested_params
 
     @classmethod
     def _get_param_names(cls):
-- 
2.43.0


From d802fcd9d8cb8e43d3767c61d4056a28d538b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 18/77] fix: the parameters of the Discover models can be
 listed, read and set

---
 kd/model/kd_discover.py            | 41 +++++++++++++++++++++++++-----
 kd/model/kd_discover_regression.py | 16 ++++++++++--
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 82e68f7..f9db376 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -96,15 +96,34 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
-        self.operator = binary_operators + unary_operators
+        self.binary_operators = list(binary_operators)
+        self.unary_operators = list(unary_operators)
+        self.operator = self.binary_operators + self.unary_operators
         self.out_path = out_path
          
         self.dataset = None
         self.seed = seed
         self.core_num = core_num
         self.base_config_file = "./discover/config/config_pde.json"
+        self.config_out = config_out
         self.set_config(config_out)
 
+    def get_params(self, deep=True):
+        """Get parameters; ``out_path`` is the user's directory, also after an import."""
+        params = super().get_params(deep=deep)
+        if hasattr(self, '_out_dir') and self.out_path == self._out_file:
+            params['out_path'] = self._out_dir
+        return params
+
+    def set_params(self, **params):
+        """Set parameters and update what is derived from them."""
+        super().set_params(**params)
+        if 'binary_operators' in params or 'unary_operators' in params:
+            self.operator = list(self.binary_operators) + list(self.unary_operators)
+        if 'config_out' in params:
+            self.set_config(self.config_out)
+        return self
+
     def setup(self):
         """Setup model components.
         
@@ -479,16 +498,24 @@ class KD_Discover_SPR(KD_Discover):
     equation discovery in sparse data settings.
     """
 
-    def __init__(self, *args, config_out=None, **kwargs):
+    def __init__(self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path='./log/',
+        core_num=1,
+        config_out=None,
+        seed=0,
+        ):
         """Initialize KD_Discover_SPR model.
 
-        Args:
-            *args: Positional arguments for KD_Discover.
-            config_out: Optional output configuration.
-            **kwargs: Keyword arguments for KD_Discover.
+        The arguments are those of :class:`KD_Discover`.
         """
-        super().__init__(*args, config_out=None, **kwargs)
+        super().__init__(n_iterations, n_samples_per_batch, binary_operators,
+                         unary_operators, out_path, core_num, None, seed)
         self.base_config_file = "./discover/config/config_pde_pinn.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.is_realtime = False
 
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..b9e26f9 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -27,9 +27,21 @@ class _RegressionArrayData:
 class KD_Discover_Regression(KD_Discover):
     """Discover wrapper for generic symbolic regression on tabular data."""
 
-    def __init__(self, *args, config_out=None, **kwargs):
-        super().__init__(*args, config_out=None, **kwargs)
+    def __init__(
+        self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path='./log/',
+        core_num=1,
+        config_out=None,
+        seed=0,
+    ):
+        super().__init__(n_iterations, n_samples_per_batch, binary_operators,
+                         unary_operators, out_path, core_num, None, seed)
         self.base_config_file = "./discover/config/config_regression.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
-- 
2.43.0


From ab61eedbca49ef2c2a5d82bebfa0e0c21bafc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 19/77] fix: the parameters of the deep-learning genetic search
 can be listed, read and set

---
 kd/model/dlga.py    |  1 +
 kd/model/kd_dlga.py | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..e768d13 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -98,6 +98,7 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 1e26999..9ecee37 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -15,14 +15,22 @@ class KD_DLGA(DLGA):
     with KD's dataset and visualization utilities.
     """
 
-    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
-        self.user_operators = operators
-        self.library_size = len(operators)
+    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, max_iter: int = 50000):
+        self.operators = operators
         self.verbose = verbose
-        super().__init__(epi=epi, input_dim=input_dim, **kwargs)
+        super().__init__(epi=epi, input_dim=input_dim, max_iter=max_iter)
         self.equations_ = None
         self.best_equation_ = None
 
+    @property
+    def operators(self):
+        """The configured operator list, in gene order."""
+        return self.user_operators
+
+    @operators.setter
+    def operators(self, operators):
+        self.user_operators = operators
+        self.library_size = len(operators)
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From 56e9139b31e70ed772940825e77d3f86280c1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 20/77] fix: a changed input dimension or a reset keyword
 dictionary is honoured by the next fit

---
 kd/model/dlga.py    | 33 ++++++++++++++++++++++-----------
 kd/model/kd_pysr.py |  2 +-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index e768d13..aeb9ab0 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -87,18 +87,9 @@ class DLGA(BaseGa):
         self.device = (
             torch.device("cuda") if torch.cuda.is_available() else torch.device("cpu")
         )
-        self.Net = NN(
-            Num_Hidden_Layers=5,
-            Neurons_Per_Layer=50,
-            Input_Dim=input_dim,
-            Output_Dim=1,
-            Data_Type=torch.float32,
-            Device=self.device,
-            Activation_Function="Sin",
-            Batch_Norm=False,
-        )
-
         self.input_dim = input_dim
+        self.Net = self._make_net()
+
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
@@ -109,6 +100,26 @@ class DLGA(BaseGa):
         self.evolution_history = []  # 存储完整的进化历史数据
         self.complexity_history = []  # 存储复杂度历史
 
+    def _make_net(self):
+        """Create an untrained network for ``input_dim`` inputs."""
+        return NN(
+            Num_Hidden_Layers=5,
+            Neurons_Per_Layer=50,
+            Input_Dim=self.input_dim,
+            Output_Dim=1,
+            Data_Type=torch.float32,
+            Device=self.device,
+            Activation_Function="Sin",
+            Batch_Norm=False,
+        )
+
+    def set_params(self, **params):
+        """Set parameters; another input dimension needs another network."""
+        super().set_params(**params)
+        if "input_dim" in params:
+            self.Net = self._make_net()
+        return self
+
     def train_NN(self, X, y):
         """Train neural network on data.
         
diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 56d178f..34e5db0 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -113,7 +113,7 @@ class KD_PySR(BaseEstimator):
             kwargs["binary_operators"] = self.binary_operators
         if self.unary_operators is not None:
             kwargs["unary_operators"] = self.unary_operators
-        kwargs.update(self.extra_model_kwargs)
+        kwargs.update(self.extra_model_kwargs or {})
 
         return _PySRRegressor(**kwargs)  # type: ignore[call-arg]
 
-- 
2.43.0


From 48256f1a729b24c49c7b839323f92c85d0b5f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:51 +0000
Subject: [PATCH 21/77] fix: training the surrogate network no longer permutes
 the caller's dataset in place

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index aeb9ab0..6832c57 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -130,7 +130,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies: the caller's arrays (or views of its dataset) stay as they are
+        X, y = np.array(X), np.array(y)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From 89f19c70592aeb4d15b2fb3503203590143a239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 22/77] fix: safe division no longer writes into its divisor

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..71c1d13 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta
         return up / down
         
     def get_device(self):
-- 
2.43.0


From 54a15c429445eb3888da2a80cc2cffd782b10709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 23/77] fix: edge deletion crops the parameter fields with the
 other fields

---
 kd/model/sga/sgapde/context.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..9d135bd 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -419,6 +419,13 @@ class ProblemContext:
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
 
+        # Parameter fields live on the same grid and are cropped with it.
+        if self.config.param_fields:
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer]
+                for name, value in self.config.param_fields.items()
+            }
+
         # Rebuild the variable registry so fields/coords/axis_map/delta/coord_grids stay in sync.
         self.config.fields_data = new_fields
         self.config.coords_1d = new_coords_1d
-- 
2.43.0


From cfc79476ccd1266f41819fe7313c920059ba96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 24/77] fix: an explicit target field or left-hand axis can be
 combined with a multi-dimensional dataset (SGA)

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..cae422c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        inferred_target_field = solver_kwargs.pop("target_field", None)
+        inferred_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or inferred_target_field or "u"
+        final_lhs_axis = self.lhs_axis or inferred_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 7bd4d695f650474891c58991237dfb1534f72a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 25/77] fix: a name ending in a newline is not a legal name

---
 kd/model/sga/sgapde/naming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/naming.py b/kd/model/sga/sgapde/naming.py
index 5d96e52..1a49835 100644
--- a/kd/model/sga/sgapde/naming.py
+++ b/kd/model/sga/sgapde/naming.py
@@ -24,7 +24,7 @@ def validate_name(name: str, *, reserved: Optional[Set[str]] = None) -> str:
     """Validate a field/coord name and return it."""
     if not isinstance(name, str) or not name:
         raise ValueError("invalid name: empty or non-string.")
-    if not _NAME_RE.match(name):
+    if not _NAME_RE.fullmatch(name):
         raise ValueError(f"invalid name: '{name}'.")
     reserved_set = reserved or DEFAULT_RESERVED
     if name in reserved_set:
-- 
2.43.0


From 9c14f1e70fb5f8159367eab0a343057f98e1e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 26/77] fix: mutating a tree terminates when the only
 derivative axis is not x

---
 kd/model/sga/sgapde/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..3f9537c 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -121,6 +121,8 @@ class Tree: #对应于pde中的一个term
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
+                            if len(context.den) == 1 and parent.name in {'d', 'd^2'} and node[0] == context.den[0, 0]: # 只有一个可求导的自变量时没有别的选择
+                                break
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
                                     var=node[2], full=node, child_num=int(node[1]), child_st=None)
-- 
2.43.0


From cba4928b99e531fb02a618b785cf4c44d8ce5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 27/77] fix: parameter names that clash with another operand
 are refused (SGA)

---
 kd/model/sga/sgapde/context.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 9d135bd..c777f9c 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -297,6 +297,20 @@ class ProblemContext:
                 f"{legacy_conflicts}."
             )
 
+        # Parameter fields share the operand namespace with all of the above.
+        param_names = list(getattr(self.config, "param_fields", None) or {})
+        for param in param_names:
+            validate_name(param)
+        taken = set(field_names) | set(coord_names) | derivative_keys | {"ux"}
+        if len(lhs_axis) == 1:
+            taken.add(f"{self.target_field}{lhs_axis}")
+        param_conflicts = sorted(set(param_names) & taken)
+        if param_conflicts:
+            raise ValueError(
+                "Parameter names conflict with other operand names: "
+                f"{param_conflicts}."
+            )
+
     def _resolve_primary_spatial_axis(self):
         spatial_axes = [axis for axis in self.axis_order if axis != self.lhs_axis]
         if not spatial_axes:
-- 
2.43.0


From 467cf6f1ca100204d828ae20ee04cbd538e7c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 28/77] fix: the reported left-hand side names the target field
 and axis that were fitted (SGA)

---
 kd/model/sga/sgapde/equation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..e6bffd2 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -38,6 +38,11 @@ class SGAEquationDetails:
 
 
 def _infer_lhs_label(config) -> str:
+    field = getattr(config, 'target_field', None) or 'u'
+    axis = getattr(config, 'lhs_axis', None) or 't'
+    if (field, axis) != ('u', 't'):
+        # The legacy labels below all name u_t.
+        return f'{field}_{axis}'
     raw = getattr(config, 'left_side', None)
     if not raw:
         return 'u_t'
-- 
2.43.0


From 9c5ab435d3f43fdfa862b5481991db48ca73107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 29/77] fix: the always-included term is reported under the
 target field's name (SGA)

---
 kd/model/sga/sgapde/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index c777f9c..bc87553 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1074,7 +1074,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
-- 
2.43.0


From fcf54dc47e56af6101d1754966937b16fc207f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 30/77] fix: a derivative key whose axis is not a legal name is
 refused

---
 kd/model/sga/sgapde/naming.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/sga/sgapde/naming.py b/kd/model/sga/sgapde/naming.py
index 1a49835..3031827 100644
--- a/kd/model/sga/sgapde/naming.py
+++ b/kd/model/sga/sgapde/naming.py
@@ -78,6 +78,7 @@ def parse_derivative_key(
         axis = axis_token[0]
         if axis_token != axis * len(axis_token):
             raise ValueError(f"Invalid axis token in '{key}'.")
+        validate_axis_name(axis)
         order = len(axis_token)
 
     return field, axis, order
-- 
2.43.0


From ac1ee1ea6b5c38f71520e0111ceec14d6aca33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 31/77] fix: typeset derivatives and powers of compound terms
 keep their operand (SGA)

---
 kd/model/sga/sgapde/equation.py | 41 +++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index e6bffd2..5b82950 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import re
 from dataclasses import dataclass
 from typing import Iterable, Literal, Sequence
 
@@ -11,6 +12,7 @@ import numpy as np
 from .pde import evaluate_mse
 
 _DEFAULT_TOL = 1e-5
+_SYMBOL = re.compile(r'\\?[A-Za-z]+|[0-9]+')
 
 
 @dataclass
@@ -267,7 +269,14 @@ def _render_leaf(name: str) -> str:
         'rho': '\\rho',
         'sigma': '\\sigma',
     }
-    return mapping.get(name, name)
+    if name in mapping:
+        return mapping[name]
+    # Derivative operands such as ``h_x`` or ``rho_x``.
+    match = re.fullmatch(r'([A-Za-z]+)_([A-Za-z]+)', name)
+    if match:
+        base, sub = match.groups()
+        return f"{mapping.get(base, base)}_{{{sub}}}"
+    return name
 
 
 def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscript") -> str:
@@ -290,14 +299,14 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var)
-            return merged if merged is not None else f"{operand}_{{{var}}}"
+            return merged if merged is not None else f"{_ensure_group(operand)}_{{{var}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
         operand = children[0]
         if notation == "subscript":
             merged = _merge_subscript(operand, var + var)
-            return merged if merged is not None else f"{operand}_{{{var}{var}}}"
+            return merged if merged is not None else f"{_ensure_group(operand)}_{{{var}{var}}}"
         return f"\\frac{{\\partial^{{2}} {operand}}}{{\\partial {var}^{{2}}}}"
     if not children:
         return name
@@ -337,17 +346,31 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
         return None
     existing_sub = operand[idx + 2:close]
     base = operand[:idx]
+    if not _SYMBOL.fullmatch(base) and not _is_group(base):
+        # The subscript belongs to the last factor only (a product).
+        return None
     return f"{base}_{{{existing_sub}{new_sub}}}"
 
 
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    if _is_group(expr) or _SYMBOL.fullmatch(expr):
+        return expr
+    subscripted = re.fullmatch(r'(.+)_\{[A-Za-z]+\}', expr, re.S)
+    if subscripted and (_is_group(subscripted[1]) or _SYMBOL.fullmatch(subscripted[1])):
         return expr
-    if expr.startswith('\\frac'):
-        return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
-        return f"({expr})"
-    return expr
+    return f"({expr})"
+
+
+def _is_group(expr: str) -> bool:
+    """Whether one pair of parentheses encloses the whole expression."""
+    if not (expr.startswith('(') and expr.endswith(')')):
+        return False
+    depth = 0
+    for position, char in enumerate(expr):
+        depth += (char == '(') - (char == ')')
+        if depth == 0:
+            return position == len(expr) - 1
+    return False
 
 
 __all__ = [
-- 
2.43.0


From 2250a809a95da3c145fdd7fb5ced23fdbd49fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 32/77] fix: a typeset term keeps its operands, coefficient and
 operators (Discover)

---
 kd/viz/discover_eq2latex.py | 84 ++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..869145d 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -15,6 +15,8 @@ DEEPRL_SYMBOLS_FOR_SYMPY = {
     name: sympy.Symbol(name)
     for name in ['u1', 'x1', 'x2', 'x3', 'c', 'p1', 'p2', 'p3']
 }
+# Operators without a SymPy counterpart; undeclared names are read letter by letter.
+_OPERATOR_FUNCTIONS = {'laplacian': sympy.Function('laplacian')}
 
 # ... (imports, DEEPRL_SYMBOLS_FOR_SYMPY, DEBUG_RENDERER_MODE) ...
 
@@ -35,6 +37,15 @@ _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
 }
 
 
+class _LeibnizLatexPrinter(LatexPrinter):
+    """SymPy's Leibniz notation with every compound operand in parentheses."""
+
+    def parenthesize(self, item, level, is_neg=False, strict=False):
+        if isinstance(item, sympy.Mul):
+            strict = False
+        return super().parenthesize(item, level, is_neg=is_neg, strict=strict)
+
+
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
@@ -42,6 +53,11 @@ class _SubscriptLatexPrinter(LatexPrinter):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
             func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
+            if '_' in func_name:
+                # p_{1} already carries a subscript.
+                func_name = "(" + func_name + ")"
+        elif _contains_operator(func):
+            func_name = "(" + self._print(func) + ")"
         elif hasattr(func, 'func') and hasattr(func.func, 'name'):
             # Applied function like u1(x1, x2): func.func has .name
             func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
@@ -67,10 +83,14 @@ class _SubscriptLatexPrinter(LatexPrinter):
 # ---------------------------------------------------------------------------
 
 # Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
+_FUNC_SYMBOL_NAMES = frozenset({'u1', 'p1', 'p2', 'p3'})
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
+def _contains_operator(expr: sympy.Basic) -> bool:
+    return bool(expr.atoms(*_OPERATOR_FUNCTIONS.values()))
+
+
 def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
     """Check if *expr* is a first-order Derivative of a compound expression."""
     if not isinstance(expr, sympy.Derivative):
@@ -79,6 +99,9 @@ def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
     if total_order != 1:
         return False
     func = expr.args[0]
+    if _contains_operator(func):
+        # SymPy has no rule to differentiate it.
+        return False
     from sympy.core.function import AppliedUndef
     return not isinstance(func, (sympy.Symbol, AppliedUndef))
 
@@ -99,6 +122,7 @@ def _expand_first_order_compound_derivatives(
         return sympy.Integer(1), expr
 
     # Symbol → Function substitution
+    # (xreplace: a plain ``subs`` may evaluate derivatives of symbols to zero)
     sym_to_fn: dict = {}
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
     for name in _FUNC_SYMBOL_NAMES:
@@ -106,28 +130,36 @@ def _expand_first_order_compound_derivatives(
         fn = sympy.Function(name)(*var_syms)
         sym_to_fn[sym] = fn
 
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
-
-    expanded = expr_fn.doit()
+    expanded = expr.xreplace(sym_to_fn).doit()
 
-    # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    # Function → Symbol substitution (reverse), derivatives as a whole
+    fn_to_sym: dict = {fn: sym for sym, fn in sym_to_fn.items()}
+    for deriv in expanded.atoms(sympy.Derivative):
+        if deriv.expr in fn_to_sym:
+            fn_to_sym[deriv] = sympy.Derivative(fn_to_sym[deriv.expr], *deriv.variable_count)
+    expanded = expanded.xreplace(fn_to_sym)
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
     return coeff, rest
 
 
+def _parse_term(term_string: str, symbols: dict) -> sympy.Basic:
+    return parse_expr(
+        term_string,
+        local_dict={**_OPERATOR_FUNCTIONS, **symbols},
+        transformations='all',  # allow a broad set of SymPy-compatible transformations
+    )
+
+
+def _as_factor(expr: sympy.Basic, latex: str) -> str:
+    """LaTeX of *expr* as it has to appear behind a coefficient."""
+    if isinstance(expr, sympy.Add) or expr.could_extract_minus_sign() or (
+            expr != 1 and expr.as_coeff_Mul()[0] != 1):
+        return f"\\left({latex}\\right)"
+    return latex
+
+
 # ---------------------------------------------------------------------------
 # Node → LaTeX (with optional expansion)
 # ---------------------------------------------------------------------------
@@ -148,20 +180,16 @@ def _discover_term_node_to_latex_expanded(
             local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
 
     sympy_expr_str = term_node_obj.to_sympy_string()
-    parsed = parse_expr(
-        sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
-    )
+    parsed = _parse_term(sympy_expr_str, local_sympy_symbols)
 
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
 
     if notation == "subscript":
         latex_output = _SubscriptLatexPrinter().doprint(expanded)
     else:
-        latex_output = sympy.latex(expanded)
+        latex_output = _LeibnizLatexPrinter().doprint(expanded)
 
-    return factor, latex_output
+    return factor, _as_factor(expanded, latex_output)
 
 
 # Node -> LaTeX
@@ -180,19 +208,15 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if DEBUG_RENDERER_MODE:
              logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
 
-        parsed_sympy_expr = parse_expr(
-            sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
-        )
+        parsed_sympy_expr = _parse_term(sympy_expr_str, local_sympy_symbols)
         if DEBUG_RENDERER_MODE:
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
         if notation == "subscript":
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
-            latex_output = sympy.latex(parsed_sympy_expr)
-        return latex_output
+            latex_output = _LeibnizLatexPrinter().doprint(parsed_sympy_expr)
+        return _as_factor(parsed_sympy_expr, latex_output)
     except Exception as e:
         import traceback
         error_repr = repr(term_node_obj) if term_node_obj else "None"
-- 
2.43.0


From 83697f482c84352439b75ada7213cae2b7519ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 33/77] fix: a typeset equation uses the operators the search
 was given (DLGA)

---
 kd/viz/dlga_eq2latex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..5f88034 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,10 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # Names used by the user-selected operator lists.
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +174,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +182,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From 48eb67477993913f0fee9e00c82e81b5708234b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 34/77] fix: a failed fit leaves no unfitted model behind
 (PySR)

---
 kd/model/kd_pysr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 34e5db0..79cc5d0 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -180,11 +180,13 @@ class KD_PySR(BaseEstimator):
                 f"KD_PySR.fit 收到不匹配的样本数：X.shape[0]={X_arr.shape[0]}, y.shape[0]={y_arr.shape[0]}"
             )
 
+        # Only a completed fit replaces the fitted state.
+        model = self._build_backend()
+        model.fit(X_arr, y_arr)
+
         self.X_train_ = X_arr
         self.y_train_ = y_arr
-
-        self._model = self._build_backend()
-        self._model.fit(X_arr, y_arr)
+        self._model = model
         self._update_equation_info()
         return self
 
-- 
2.43.0


From 358b77e7aa0af752a956bfeff912e7e6b2402f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 35/77] fix: the deep-learning genetic search works for every
 population size

---
 kd/model/dlga.py    | 6 +++---
 kd/model/kd_dlga.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 6832c57..91ddca1 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -337,7 +337,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
@@ -409,7 +409,7 @@ class DLGA(BaseGa):
             name_list.append(name)
         # Select best 50% individuals
         re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
+            map(fitness_list.index, heapq.nsmallest(max(1, int(size_pop / 2)), fitness_list))
         )
 
         for index in re1:
@@ -418,7 +418,7 @@ class DLGA(BaseGa):
             new_coef.append(coef_list[index])
             new_name.append(name_list[index])
         # Fill the rest with new random individuals
-        for _ in range(int(size_pop / 2)):
+        for _ in range(size_pop - len(new_Chrom)):
             new = DLGA.random_genome(self)
             new_Chrom.append(new)
 
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 9ecee37..c516de5 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -193,7 +193,7 @@ class KD_DLGA(DLGA):
             fitness_list.append(MSE)
             coef_list.append(coef)
             name_list.append(name)
-        num_to_keep = int(size_pop / 2)
+        num_to_keep = max(1, int(size_pop / 2))
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
         re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
-- 
2.43.0


From 69fe32af5d28d4be9b6d4ca3eec45da764b381d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 36/77] fix: the term (u(u^2)xx)xx has the value its name says
 (EqGPT)

---
 kd/model/eqgpt/calculate_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..eb33bb2 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 7304f99c8f47680bd5ce04bd0df63e449d464308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 37/77] fix: an equation that cannot be scored has reward 0,
 never NaN (EqGPT)

---
 kd/model/eqgpt/continue_train_GPT_all.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..5a5be01 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -300,7 +300,8 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     #reward = (1 - 0.3 * np.log10(A.shape[1])) * R2  #wave equation, PDE_compound
                     #reward=(1-0.07*np.log10(A.shape[1])) *R2
                     reward = (1 - 0.02 * np.log10(A.shape[1])) * R2
-                    all_reward.append(reward)
+                    if np.isfinite(reward):
+                        all_reward.append(reward)
                     #reward=(1-0.1*np.log10(A.shape[1])) *R2
                     #reward = (1 - 0.1 * np.log10(A.shape[1])) * R2
                     #reward = (1-np.log10(A.shape[1])) / np.sqrt(MSE_true)
@@ -311,7 +312,7 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From 084881ad532815f16ae8186f07eae962c2778f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:40 +0000
Subject: [PATCH 38/77] fix: the list of best equations fills up to ten,
 without NaN (EqGPT)

---
 kd/model/eqgpt/continue_train_GPT_all.py | 2 +-
 kd/model/kd_eqgpt.py                     | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 5a5be01..2df9b81 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -381,7 +381,7 @@ def find_min_no_repeat(all_reward,samples=400):
     for i in range(len(best_award)):
         index=best_index[i]
         award=best_award[i]
-        if award not in min_award:
+        if award==award and award not in min_award:  # NaN is not a reward
             min_award.append(award)
             min_index.append(index)
         if len(min_award)==10:
diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..22f018c 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -474,16 +474,13 @@ class KD_EqGPT:
             potential_award = second_award[p_idx]
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
-            idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
-                continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            idx_arr = np.where((array - potential_award) < 0)[0]
+            ins_idx = idx_arr[0] if len(idx_arr) else len(best_award)
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            del best_sentence[10:], best_award[10:]
 
         return best_award, best_sentence
 
-- 
2.43.0


From 74e543d264a45706d6a41d36368a2703a67c6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 39/77] fix: unsupported operators are refused instead of
 shifting the genes (DLGA)

---
 kd/model/kd_dlga.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index c516de5..f3c2b4e 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -32,6 +32,16 @@ class KD_DLGA(DLGA):
         self.user_operators = operators
         self.library_size = len(operators)
 
+    _SUPPORTED_OPERATORS = ("u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt")
+
+    def _check_operators(self):
+        """Gene i must have a column: refuse operators the library cannot build."""
+        unknown = [op for op in self.user_operators if op not in self._SUPPORTED_OPERATORS]
+        if unknown or not self.user_operators:
+            raise ValueError(
+                f"Unsupported operators {unknown}; choose at least one of {list(self._SUPPORTED_OPERATORS)}."
+            )
+
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
         X_tensor = torch.from_numpy(X.astype(np.float32)).to(self.device)
@@ -62,11 +72,8 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
-        theta_columns = []
-        for op_name in self.user_operators:
-            if op_name in available_ops:
-                theta_columns.append(available_ops[op_name])
-        self.Theta = torch.concatenate(theta_columns, axis=1) if theta_columns else torch.empty(X.shape[0], 0).to(self.device)
+        self._check_operators()
+        self.Theta = torch.concatenate([available_ops[op_name] for op_name in self.user_operators], axis=1)
 
         # 2. metadata 则存储所有计算出的项，使其成为一个完整的“数据源”
         self.metadata = {key: val.cpu().detach().numpy() for key, val in available_ops.items()}
@@ -233,6 +240,7 @@ class KD_DLGA(DLGA):
     
     def fit(self, X, y):
         """Fit DLGA on raw ``(X, y)`` samples."""
+        self._check_operators()
         self.Net, self.best_epoch = self.train_NN(X, y)
         self.Theta = self.generate_meta_data(X)
         
-- 
2.43.0


From 8ecfc7d55d4bd748c67a5ead30d0973709ed07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 40/77] fix: the validation error compares each prediction with
 its own value (DLGA)

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 91ddca1..2b5845d 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -174,7 +174,7 @@ class DLGA(BaseGa):
             prediction_validate = self.Net(X_valid)
             loss = MSELoss(prediction, y_train.view(-1, 1))
             loss_validate = np.mean(
-                (prediction_validate.detach().cpu().numpy() - y_valid) ** 2
+                (prediction_validate.detach().cpu().numpy() - y_valid.reshape(-1, 1)) ** 2
             )
             loss.backward()
             NN_optimizer.step()
-- 
2.43.0


From 05754779dcb61ae517645fa273b1b91988d32f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 41/77] fix: the runner never replaces a missing dataset file
 by another dataset

---
 kd/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/runner.py b/kd/runner.py
index 5555677..0a6b997 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -40,7 +40,9 @@ def load_dataset(config):
     dataset_name = config.get("dataset_name")
     dataset_file = config.get("dataset_file")
 
-    if dataset_file and os.path.exists(dataset_file):
+    if dataset_file:
+        if not os.path.exists(dataset_file):
+            raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
         from kd.dataset._base import PDEDataset, load_mat_file
 
         file_config = config.get("file_config", {})
@@ -199,7 +201,7 @@ def main():
 
     output_dir = args.output_dir or config.get("output_dir", "output")
     params = config.get("params", {})
-    dataset_info = config.get("dataset_name") or config.get("dataset_file", "unknown")
+    dataset_info = config.get("dataset_file") or config.get("dataset_name") or "unknown"
 
     print(f"=== KD GPU Runner ===")
     print(f"  Model   : {model_name}")
-- 
2.43.0


From bc47a07e4c7105be8754e281ef3002ac41aad094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 42/77] fix: the runner does not transpose a square field
 stored as (x, t)

---
 kd/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/runner.py b/kd/runner.py
index 0a6b997..07022d7 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -53,7 +53,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
-- 
2.43.0


From ebf5c08c23b9c658e6605a9b517f9ad8fa5e9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 43/77] fix: a run that found no equation is not reported as a
 success (runner)

---
 kd/runner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kd/runner.py b/kd/runner.py
index 07022d7..bab68f4 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -96,7 +96,9 @@ def run_dlga(dataset, params):
     )
     sample = params.get("sample")
     model.fit_dataset(dataset, sample=int(sample) if sample else None)
-    equation = getattr(model, "eq_latex", None) or "(equation not available)"
+    equation = getattr(model, "eq_latex", None)
+    if not equation:
+        raise RuntimeError("The search ended without an equation.")
     return equation, model
 
 
@@ -118,7 +120,9 @@ def run_dscv_spr(dataset, params):
         n_epochs=int(params.get("n_epochs", 5)),
         sample_ratio=float(params.get("sample_ratio", 0.1)),
     )
-    equation = result.get("expression", "(no expression)") if result else "(no result)"
+    equation = result.get("expression") if result else None
+    if not equation:
+        raise RuntimeError("The search ended without an equation.")
     return equation, model
 
 
-- 
2.43.0


From f6d1ea87b151c1fe0795a03b8daf87d28dc127aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 44/77] fix: every failed run leaves a result file that says so
 (runner)

---
 kd/runner.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/kd/runner.py b/kd/runner.py
index bab68f4..d3ca437 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -192,18 +192,22 @@ def main():
     parser.add_argument("--output_dir", default=None, help="Override output directory")
     args = parser.parse_args()
 
-    with open(args.config) as f:
-        config = json.load(f)
-
-    model_name = config.get("model")
-    if not model_name:
-        print("Error: 'model' field is required in config JSON.")
-        sys.exit(1)
-    if model_name not in RUNNERS:
-        print(f"Error: unknown model '{model_name}'. Available: {list(RUNNERS.keys())}")
+    try:
+        with open(args.config) as f:
+            config = json.load(f)
+        if not isinstance(config, dict):
+            raise ValueError("The config must be a JSON object.")
+    except (OSError, ValueError) as e:
+        print(f"Error: cannot read config: {e}")
+        save_output(args.output_dir or "output", None, "unknown", "(error)", 0.0, {},
+                    error=f"Cannot read config: {e}")
         sys.exit(1)
 
+    model_name = config.get("model")
     output_dir = args.output_dir or config.get("output_dir", "output")
+    # A result of an earlier run must not pass for this one's
+    if os.path.exists(os.path.join(output_dir, "result.json")):
+        os.remove(os.path.join(output_dir, "result.json"))
     params = config.get("params", {})
     dataset_info = config.get("dataset_file") or config.get("dataset_name") or "unknown"
 
@@ -214,6 +218,10 @@ def main():
 
     t0 = time.time()
     try:
+        if not model_name:
+            raise ValueError("'model' field is required in config JSON.")
+        if model_name not in RUNNERS:
+            raise ValueError(f"unknown model '{model_name}'. Available: {list(RUNNERS.keys())}")
         dataset = load_dataset(config)
         equation, model = RUNNERS[model_name](dataset, params)
         elapsed = time.time() - t0
-- 
2.43.0


From b9a674bf7c19999b359ffebe68235b41f98be18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 45/77] fix: a job whose data file is missing is refused, not
 submitted without it

---
 kd/job.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/job.py b/kd/job.py
index ab00855..c74a625 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -71,6 +71,9 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     """
     from bohrium_open_sdk import UploadInputItem
 
+    if dataset_file and not os.path.exists(dataset_file):
+        raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
+
     access_key, app_key = get_credentials(request)
     client = _client(access_key, app_key)
 
@@ -92,7 +95,7 @@ def submit_gpu_job(model_name, dataset_name, params, request,
         inputs = {"config": "", "output_dir": "output"}
         upload_files = [UploadInputItem(input_field="config", src=config_path)]
 
-        if dataset_file and os.path.exists(dataset_file):
+        if dataset_file:
             inputs["dataset_file"] = ""
             upload_files.append(
                 UploadInputItem(input_field="dataset_file", src=dataset_file)
-- 
2.43.0


From b669f625be0297f761ab9e57c0949f10ec93077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 46/77] fix: a job's configuration names the data file uploaded
 with it

---
 kd/job.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/job.py b/kd/job.py
index c74a625..6c7a66a 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -85,6 +85,8 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     }
     if dataset_name:
         config["dataset_name"] = dataset_name
+    if dataset_file:
+        config["dataset_file"] = os.path.basename(dataset_file)
 
     # Write to a temp file for upload
     fd, config_path = tempfile.mkstemp(suffix=".json", prefix="kd_cfg_")
-- 
2.43.0


From 9b2e6d551e4840d483ee7d9846d03ba9f36d9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 47/77] fix: a download without a result does not return an
 earlier job's

---
 kd/job.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/job.py b/kd/job.py
index 6c7a66a..2ebe348 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -164,12 +164,14 @@ def download_result(job_id, request, save_dir=None):
     if save_dir is None:
         save_dir = os.path.join(JOB_OUTPUT_DIR, f"kd_{job_id}")
     os.makedirs(save_dir, exist_ok=True)
+    result_path = os.path.join(save_dir, "result.json")
+    if os.path.exists(result_path):  # left by an earlier download
+        os.remove(result_path)
 
     client.web.sub_model.download(
         job_id, remote_target="output", save_path=save_dir
     )
 
-    result_path = os.path.join(save_dir, "result.json")
     if os.path.exists(result_path):
         with open(result_path) as f:
             return json.load(f), save_dir
-- 
2.43.0


From 159a310207460b208def6f5469c5f6990ec57480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 48/77] fix: a plot request goes to the adapter of the nearest
 registered class

---
 kd/viz/registry.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..43f7fa4 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -44,7 +44,8 @@ def _resolve_lazy(class_name: str) -> None:
         return
     model_cls, adapter = resolver()
     if model_cls is not None and adapter is not None:
-        _ADAPTERS[model_cls] = adapter
+        # An adapter registered explicitly in the meantime keeps precedence.
+        _ADAPTERS.setdefault(model_cls, adapter)
 
 
 def get_adapter(target: Any) -> Optional[VizAdapter]:
@@ -52,18 +53,18 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # Nearest registered class wins: the class itself, then its bases in
+    # method resolution order.  Lazy adapters are keyed by class name and
+    # take part in the same walk.
+    for cls in model_cls.__mro__:
+        adapter = _ADAPTERS.get(cls)
+        if adapter is None and cls.__name__ in _LAZY_ADAPTERS:
+            _resolve_lazy(cls.__name__)
+            adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
 
+    # Virtual subclasses (``ABCMeta.register``) do not appear in the MRO.
     for registered_cls, registered_adapter in _ADAPTERS.items():
         try:
             if issubclass(model_cls, registered_cls):
-- 
2.43.0


From 1aac3bc9b319f65ac6762c44b3eef24cfb1ced35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 49/77] fix: an equation image that could not be written is a
 warning, not a reported path

---
 kd/viz/_adapters/discover.py |  8 +++++++-
 kd/viz/_adapters/dlga.py     |  8 +++++++-
 kd/viz/_adapters/pysr.py     |  8 +++++++-
 kd/viz/_adapters/sga.py      | 16 +++++++++++++---
 kd/viz/equation_renderer.py  |  7 ++++++-
 5 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..3285448 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -224,7 +224,7 @@ class DiscoverVizAdapter:
 
         _, path = self._resolve_output(ctx, 'equation.png')
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get('font_size', 16),
@@ -233,6 +233,12 @@ class DiscoverVizAdapter:
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
+        if rendered is False:
+            return VizResult(
+                intent='equation',
+                warnings=['Failed to render LaTeX equation image.'],
+                metadata={'latex': latex},
+            )
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..471d883 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -208,12 +208,18 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
+        rendered = render_latex_to_image(
             latex,
             output_path=str(path),
             font_size=ctx.options.get('font_size', 16),
             show=False,
         )
+        if rendered is False:
+            return VizResult(
+                intent='equation',
+                warnings=['Failed to render LaTeX equation image.'],
+                metadata={'latex': latex, 'index': index},
+            )
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index 8218b36..d67bf83 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -103,7 +103,7 @@ class PySRVizAdapter:
 
         _, path = self._resolve_output(ctx, "equation.png")
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get("font_size", 18),
@@ -115,6 +115,12 @@ class PySRVizAdapter:
                 warnings=[f"Failed to render PySR LaTeX equation: {exc}"],
             )
 
+        if rendered is False:
+            return VizResult(
+                intent="equation",
+                warnings=["Failed to render LaTeX equation image."],
+                metadata={"latex": latex},
+            )
         return VizResult(intent="equation", paths=[path], metadata={"latex": latex})
 
     def _parity(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..980025e 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -76,13 +76,13 @@ class SGAVizAdapter:
         output_path = self._resolve_output(ctx, 'equation.png')
         structure_path = self._resolve_output(ctx, 'equation_structure.png')
         try:
-            render_latex_to_image(
+            equation_rendered = render_latex_to_image(
                 latex_plain,
                 output_path=str(output_path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
             )
-            render_latex_to_image(
+            structure_rendered = render_latex_to_image(
                 structure_plain,
                 output_path=str(structure_path),
                 font_size=ctx.options.get('font_size', 16),
@@ -95,7 +95,17 @@ class SGAVizAdapter:
             'latex': latex_plain,
             'structure_latex': structure_plain,
         }
-        return VizResult(intent='equation', paths=[output_path, structure_path], metadata=metadata)
+        paths = []
+        warnings = []
+        for rendered, path in (
+            (equation_rendered, output_path),
+            (structure_rendered, structure_path),
+        ):
+            if rendered is False:
+                warnings.append(f'Failed to render LaTeX equation image {path.name}.')
+            else:
+                paths.append(path)
+        return VizResult(intent='equation', paths=paths, metadata=metadata, warnings=warnings)
 
     def _field_comparison(self, model, ctx) -> VizResult:
         context = getattr(model, 'context_', None)
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..b339603 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -28,6 +28,8 @@ def render_latex_to_image(
     *,
     show=True,
 ):
+    """Render ``latex_str``; return whether rendering (and saving) succeeded."""
+    rendered = False
     try:
         latex_str = _ensure_math_mode(str(latex_str))
         # Heuristically adjust figure width based on LaTeX string length.
@@ -47,7 +49,9 @@ def render_latex_to_image(
         
         if show:
             plt.show()
-        
+
+        rendered = True
+
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
@@ -59,3 +63,4 @@ def render_latex_to_image(
                 # 在测试环境中, plt.subplots 可能被 monkeypatch 成返回非 Figure 对象
                 # 此时直接忽略关闭错误, 以避免干扰调用方。
                 plt.close()
+    return rendered
-- 
2.43.0


From 8610fd58f5613a486ad6af2350d59bbbc711941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 50/77] fix: a second DLGA field comparison replaces the first
 picture

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 471d883..1725620 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From 99cce5869c6f1496a3c77c47da0f1b3f1aec9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 51/77] fix: a failed plot request closes the figures it opened

---
 kd/viz/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..b01813b 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -93,8 +93,18 @@ def render(request: VizRequest, *, backend: str = 'matplotlib') -> VizResult:
             metadata={'capabilities': sorted(capabilities)},
         )
 
+    import matplotlib.pyplot as plt
+
+    open_before = set(plt.get_fignums())
     with style_context(request.options.get('style')):
-        return adapter.render(request, ctx)
+        try:
+            return adapter.render(request, ctx)
+        except BaseException:
+            # A failed request must not leave its half-drawn figures open.
+            for num in plt.get_fignums():
+                if num not in open_before:
+                    plt.close(num)
+            raise
 
 
 def list_capabilities(target: Any) -> Iterable[str]:
-- 
2.43.0


From 4ae649f168801a7233840c9adb82d8b650bf36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 52/77] fix: the SGA residual compares left and right side on
 the same grid

---
 kd/viz/_adapters/sga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 980025e..6c5b0e4 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -607,7 +607,7 @@ class SGAVizAdapter:
             residual_origin = np.transpose(residual_origin, perm)
 
         residual_data = ResidualPlotData.from_actual_predicted(
-            actual=true_ut.reshape(-1),
+            actual=meta_ut.reshape(-1),
             predicted=rhs_meta.reshape(-1),
             metadata={'mode': 'metadata_vs_groundtruth'},
         )
-- 
2.43.0


From 9bd9c0bb39b485f6aeb28bce266bad29b5d96487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 53/77] fix: SGA fields on different grids are a warning, not
 an exception

---
 kd/viz/_adapters/sga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 6c5b0e4..57fd267 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -402,6 +402,9 @@ class SGAVizAdapter:
 
         metadata_field = np.asarray(metadata_field)
         original_field = np.asarray(original_field)
+        if metadata_field.shape != original_field.shape:
+            # Cropped edges or resampled metadata: no common grid to compare on.
+            return None
 
         # --- N-D 路径：有 axis_order / coords_1d ---
         axis_order = getattr(context, 'axis_order', None)
-- 
2.43.0


From cc81369116d3cb87e5fd4a62607fb6b990f56bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 54/77] fix: a DLGA parity plot never leaves out terms of the
 equation

---
 kd/viz/_adapters/dlga.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 1725620..f236e42 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -668,12 +668,14 @@ class DLGAVizAdapter:
         for idx, module in enumerate(best_chrom):
             if idx >= coefficients.size:
                 break
+            # Every term of the reported equation must be available; a sum
+            # over some of them would show a different equation.
             if any(gene >= len(operators) for gene in module):
-                continue
+                return None
             try:
                 term_arrays = [np.asarray(metadata[operators[gene]]) for gene in module]
             except KeyError:
-                continue
+                return None
             term_values = np.prod(term_arrays, axis=0).reshape(-1)
             rhs_values = rhs_values + float(coefficients[idx]) * term_values
 
-- 
2.43.0


From 6a5d36d42fdde90dc41a9cbe37b0236de8737b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 55/77] fix: the Discover equation image names the left-hand
 side that was fitted

---
 kd/viz/_adapters/discover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 3285448..676fbf9 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -218,7 +218,11 @@ class DiscoverVizAdapter:
 
         try:
             notation = ctx.options.get('notation', 'subscript')
-            latex = discover_program_to_latex(program, notation=notation)
+            latex_options = {'notation': notation}
+            lhs_axis = getattr(getattr(model, 'dataset_', None), 'lhs_axis', None)
+            if lhs_axis and lhs_axis != 't':
+                latex_options['lhs_axis'] = lhs_axis
+            latex = discover_program_to_latex(program, **latex_options)
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
-- 
2.43.0


From 81d5f89c27660c90475fc186f6ffdab718503f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 56/77] fix: reward density curves are labelled with their own
 epoch

---
 kd/viz/_adapters/discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 676fbf9..b956a38 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,7 +141,9 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        if epoches is not None:
+            epoches = [i for i in epoches if i < len(history)]
+        data = history if epoches is None else [history[i] for i in epoches]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
-- 
2.43.0


From 960ed1b7f0c6fe6eef6a3ab76233f3077090cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 57/77] fix: Discover figures keep the direction of a
 descending spatial axis

---
 kd/viz/discover_viz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..f92940c 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -314,7 +314,12 @@ def _calculate_pde_fields_nd(
     spatial_dxs = []
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
-        coord_unique = np.unique(coord_1d)
+        # Keep the axis as it runs in the data (it may descend): sorting it would
+        # turn the sign of every odd derivative along it.
+        if coord_1d.size == u_trimmed.shape[dim_idx + 1]:
+            coord_unique = coord_1d
+        else:
+            coord_unique = np.unique(coord_1d)
         if coord_unique.size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
-- 
2.43.0


From 55b5d0444307f0ec38075964345fd6806bb9a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 58/77] fix: an equation that cannot be typeset is a warning,
 not a picture of the error

---
 kd/viz/_adapters/discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index b956a38..13d9c19 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -228,6 +228,13 @@ class DiscoverVizAdapter:
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
+        if 'Error: Invalid program structure' in latex:
+            return VizResult(
+                intent='equation',
+                warnings=['The best program has no fitted PDE terms to render.'],
+                metadata={'latex': latex},
+            )
+
         _, path = self._resolve_output(ctx, 'equation.png')
         try:
             rendered = render_latex_to_image(
-- 
2.43.0


From 500427c3f77ed32ad8d798721645d4f2bdc7bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:56 +0000
Subject: [PATCH 59/77] fix: the DLGA optimization plot of a single generation
 does not fail after saving

---
 kd/viz/dlga_viz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/viz/dlga_viz.py b/kd/viz/dlga_viz.py
index 14399a2..84d387a 100644
--- a/kd/viz/dlga_viz.py
+++ b/kd/viz/dlga_viz.py
@@ -424,6 +424,7 @@ def plot_optimization_analysis(model, output_dir: str = None):
             ax2.legend()
         else:
             # If no changes, plot full curve only
+            show_gens = 0
             ax2.plot(generations, fitness_history,
                      color='#2ca02c', linewidth=2,
                      marker='o', markersize=3)
-- 
2.43.0


From d3653dbc08e2aea292974c3f4a2d7529428d8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 60/77] fix: the SPR field comparison draws space along the
 axis labelled space

---
 kd/viz/discover_viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index f92940c..94f88ec 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -733,7 +733,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制左图：真实场
     ax0 = axes[0]
-    im0 = ax0.imshow(grid_ut.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im0 = ax0.imshow(grid_ut, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im0, ax=ax0, label='Value')
     ax0.set_title("True Field ($u_t$)")
@@ -742,7 +742,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制右图：预测场
     ax1 = axes[1]
-    im1 = ax1.imshow(grid_yhat.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im1 = ax1.imshow(grid_yhat, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im1, ax=ax1, label='Value')
     ax1.set_title("Predicted Field (RHS)")
-- 
2.43.0


From c537d5ff22f48ddcf1e043a83f78070eb3ce5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 61/77] fix: kd.viz can be the first thing asked of the package

---
 kd/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index bb56d26..adbab16 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -31,8 +31,9 @@ __all__ = _submodules + [
 
 def __getattr__(name: str):
     if name == "viz":
-        from . import viz as _viz
-        return _viz
+        # ``from . import viz`` would ask this function again, without end.
+        import importlib
+        return importlib.import_module(".viz", __name__)
     if name in {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"}:
         from . import model as _model
         return getattr(_model, name)
-- 
2.43.0


From 852c76730544507919cb5c3e585f1ce3f294726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 62/77] fix: kd offers the load_kdv_equation it lists

---
 kd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index adbab16..b294317 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -8,7 +8,7 @@ __version__ = '1.0.0'
 
 __pkg_name__ = 'KD'
 
-from .dataset import load_burgers_equation, load_mat_file
+from .dataset import load_burgers_equation, load_kdv_equation, load_mat_file
 
 _submodules = [
     'dataset',
-- 
2.43.0


From 83f29b8894d7ebee857324e1beb32cf606401fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 63/77] fix: kd.dataset lists only names it has

---
 kd/dataset/__init__.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index b9fc448..66b4961 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -165,23 +165,5 @@ __all__ = [
     "load_pde_dataset",
     "list_available_datasets",  # 新增辅助函数
     "get_dataset_sym_true",  # 新增辅助函数
-    "Burgers_equation_shock",
-    "KdV_equation",
-    "KdV_equation_sine",
-    "Chaffee_Infante_equation",
-    "KG_equation",
-    "Allen_Cahn_equation",
-    "Convection_diffusion_equation_solution",
-    "Convection_diffusion_equation_simulation",
-    "Wave_equation",
-    "KS_equation",
-    "Beam_equation",
-    "Heat_equation",
-    "Heat_equation_sin",
-    "Diffusion_equation",
-    "Parametric_convection_diffusion",
-    "Parametric_Burgers_equation",
-    "Parametric_wave_equation",
-    "Burgers_2D",
     "load_regression",
 ]
-- 
2.43.0


From 508ddc6f90f291cc9352b9a5f48390a7a67995db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 64/77] fix: DLGA figures work when the model is imported
 before kd.viz

---
 kd/model/dlga.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 2b5845d..dcf503c 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -17,8 +17,6 @@ from tqdm import tqdm
 import pickle
 import matplotlib.pyplot as plt
 
-from ..viz import equation_renderer
-
 class BaseGa(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for genetic algorithm based models."""
 
@@ -600,7 +598,13 @@ class DLGA(BaseGa):
             print(f"equation form: {equation}")
 
 
-            if equation_renderer: # 检查导入是否成功
+            # Imported here: kd.viz looks up the models to register their adapters,
+            # and would find this module half-imported.
+            try:
+                from ..viz import dlga_eq2latex as equation_renderer
+            except ImportError:
+                equation_renderer = None
+            if equation_renderer:
                 self.eq_latex = equation_renderer.dlga_eq2latex(
                     chromosome=Chrom,
                     coefficients=coef,
-- 
2.43.0


From cc40e0150fed49aa52c28c9590ebc2e045243325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 65/77] fix: wording of the warning about an equation that
 cannot be typeset

---
 kd/viz/_adapters/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 13d9c19..f2f98f2 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -231,7 +231,7 @@ class DiscoverVizAdapter:
         if 'Error: Invalid program structure' in latex:
             return VizResult(
                 intent='equation',
-                warnings=['The best program has no fitted PDE terms to render.'],
+                warnings=['Failed to convert program to LaTeX: it has no fitted PDE terms.'],
                 metadata={'latex': latex},
             )
 
-- 
2.43.0


From 657a65b3af7151771a3611743bdf4d5cf6d7bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 66/77] fix: reward density reports the epochs that were asked
 for

---
 kd/viz/_adapters/discover.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index f2f98f2..e459902 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,9 +141,8 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        if epoches is not None:
-            epoches = [i for i in epoches if i < len(history)]
-        data = history if epoches is None else [history[i] for i in epoches]
+        drawn = [i for i in (range(len(history)) if epoches is None else epoches) if i < len(history)]
+        data = [history[i] for i in drawn]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
@@ -152,7 +151,7 @@ class DiscoverVizAdapter:
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {drawn[idx]}',
                 fill=False,
             )
 
-- 
2.43.0


From 0da280cc94444705ff1403f22d207307162209da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:25 +0000
Subject: [PATCH 67/77] fix: kd.model resolves without having been imported
 before

---
 kd/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index b294317..b2ed84d 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -30,10 +30,10 @@ __all__ = _submodules + [
 
 
 def __getattr__(name: str):
-    if name == "viz":
+    if name in _submodules:
         # ``from . import viz`` would ask this function again, without end.
         import importlib
-        return importlib.import_module(".viz", __name__)
+        return importlib.import_module("." + name, __name__)
     if name in {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"}:
         from . import model as _model
         return getattr(_model, name)
-- 
2.43.0


From e59320e383e30498332576f0ae62288172cf1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:30 +0000
Subject: [PATCH 68/77] fix: Discover figures say that they count time steps

---
 kd/viz/_adapters/discover.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index e459902..8987ced 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -381,7 +381,7 @@ class DiscoverVizAdapter:
             vmin=-vabs, vmax=vabs, shading='auto',
         )
         fig.colorbar(im, ax=ax1, label='Residual')
-        ax1.set_title(f'Residual (t={t_axis[t_idx]:.2f})')
+        ax1.set_title(f'Residual (t index={t_axis[t_idx]})')
         ax1.set_xlabel('$x_2$')
         ax1.set_ylabel('$x_1$')
 
@@ -450,13 +450,13 @@ class DiscoverVizAdapter:
         im0 = axes[0].pcolormesh(data.t_coords, data.x_coords, data.true_field, cmap='viridis', vmin=vmin, vmax=vmax, shading='auto')
         fig.colorbar(im0, ax=axes[0], label='Value')
         axes[0].set_title('True Field ($u_t$)')
-        axes[0].set_xlabel('Time')
+        axes[0].set_xlabel('Time (index)')
         axes[0].set_ylabel('Space')
 
         im1 = axes[1].pcolormesh(data.t_coords, data.x_coords, data.predicted_field, cmap='viridis', vmin=vmin, vmax=vmax, shading='auto')
         fig.colorbar(im1, ax=axes[1], label='Value')
         axes[1].set_title('Predicted Field (RHS)')
-        axes[1].set_xlabel('Time')
+        axes[1].set_xlabel('Time (index)')
 
         fig.tight_layout(rect=[0, 0.03, 1, 0.95])
         _, path = self._resolve_output(ctx, 'field_comparison.png')
@@ -524,7 +524,7 @@ class DiscoverVizAdapter:
                 x_coords, y_coords, true_slice,
                 cmap=cmap, vmin=vmin, vmax=vmax, shading='auto',
             )
-            axes[0, col_idx].set_title(f'True (t={plot_data.t_coords[t_idx]:.2f})')
+            axes[0, col_idx].set_title(f'True (t index={plot_data.t_coords[t_idx]})')
             axes[0, col_idx].set_xlabel('$x_2$')
             if col_idx == 0:
                 axes[0, col_idx].set_ylabel('$x_1$')
@@ -533,7 +533,7 @@ class DiscoverVizAdapter:
                 x_coords, y_coords, pred_slice,
                 cmap=cmap, vmin=vmin, vmax=vmax, shading='auto',
             )
-            axes[1, col_idx].set_title(f'Predicted (t={plot_data.t_coords[t_idx]:.2f})')
+            axes[1, col_idx].set_title(f'Predicted (t index={plot_data.t_coords[t_idx]})')
             axes[1, col_idx].set_xlabel('$x_2$')
             if col_idx == 0:
                 axes[1, col_idx].set_ylabel('$x_1$')
-- 
2.43.0


From 1e5c1c9c70916da820daea02b43aa64f8ecd8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:30 +0000
Subject: [PATCH 69/77] fix: DLGA time slices are titled with the time they
 show

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index f236e42..1ed30b0 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -155,11 +155,11 @@ class DLGAVizAdapter:
         if not isinstance(axes, np.ndarray):
             axes = np.asarray([axes])
 
-        for ax, idx, t_val in zip(axes, indices, slice_times):
+        for ax, idx in zip(axes, indices):
             ax.plot(data.x_coords, data.true_field[:, idx], 'b-', linewidth=2, label='Exact')
             ax.plot(data.x_coords, data.predicted_field[:, idx], 'r--', linewidth=2, label='Prediction')
             ax.set_xlabel(ctx.options.get('space_label', 'Space'))
-            ax.set_title(f't = {t_val:.3f}')
+            ax.set_title(f't = {t_coords[idx]:.3f}')
             ax.grid(True, linestyle='--', alpha=0.5)
 
         axes[0].set_ylabel(ctx.options.get('field_label', 'u(x, t)'))
-- 
2.43.0


From a5e7a243359a4cd288a6eea893535fea0f2a3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 70/77] fix: the web interface imports the Discover models from
 where they are

---
 app.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..996f839 100644
--- a/app.py
+++ b/app.py
@@ -162,8 +162,8 @@ def _get_model_capabilities(model):
         return []
     caps = list(list_capabilities(model))
     # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
-    if not isinstance(model, KD_DSCV_SPR):
+    from kd.model.kd_discover import KD_Discover_SPR
+    if not isinstance(model, KD_Discover_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
 
@@ -293,8 +293,8 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
-                model = KD_DSCV(
+                from kd.model.kd_discover import KD_Discover
+                model = KD_Discover(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -304,8 +304,8 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
-                model = KD_DSCV_SPR(
+                from kd.model.kd_discover import KD_Discover_SPR
+                model = KD_Discover_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
-- 
2.43.0


From 50eb0c6849d3e83bb1a96f46e9c49d5c266149d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 71/77] fix: the web interface offers the Discover models the
 registry lists

---
 app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index 996f839..c46ec68 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
-- 
2.43.0


From 4e35ec369dca25f0bae0015e5e75a5bff8301f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 72/77] fix: an equation that cannot be drawn as given does not
 turn a training into an error

---
 app.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/app.py b/app.py
index c46ec68..e4b3269 100644
--- a/app.py
+++ b/app.py
@@ -185,13 +185,16 @@ def _render_equation_fig(model, equation_text):
         return None
     fig, ax = plt.subplots(figsize=(8, 2))
     ax.axis("off")
+    math_text = equation_text.strip().strip("$")
+    label = ax.text(0.5, 0.5, f"${math_text}$", fontsize=18,
+                    ha="center", va="center", transform=ax.transAxes)
     try:
-        ax.text(0.5, 0.5, f"${equation_text}$", fontsize=18,
-                ha="center", va="center", transform=ax.transAxes)
+        fig.tight_layout()  # the text is parsed here
     except Exception:
-        ax.text(0.5, 0.5, equation_text, fontsize=14,
+        label.remove()
+        ax.text(0.5, 0.5, equation_text, fontsize=14, parse_math=False,
                 ha="center", va="center", transform=ax.transAxes, family="monospace")
-    fig.tight_layout()
+        fig.tight_layout()
     return fig
 
 
-- 
2.43.0


From 6eab7ad299e1c5b221fd101f7b6ec49d36abf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 73/77] fix: a GPU job whose run failed is not shown as
 finished

---
 app.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app.py b/app.py
index e4b3269..38789c6 100644
--- a/app.py
+++ b/app.py
@@ -417,6 +417,14 @@ def check_gpu_status(job_id, request: gr.Request = None):
     # ── Job finished → download & display ──
     try:
         result_data, save_dir = download_result(job_id, request)
+        if result_data.get("status") != "success":
+            reason = result_data.get("error") or result_data.get("equation")
+            return (
+                f"Job {job_id} failed: {reason}", None, None, gr.update(),
+                None,
+                gr.update(visible=True, value=f"Job {job_id}: Failed"),
+                gr.update(visible=False),
+            )
         equation = result_data.get("equation", "(unknown)")
 
         eq_fig = None
-- 
2.43.0


From 74d99ac3769be84b32eb110b9addcfc9c3c1558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 74/77] fix: a failed download does not lose the GPU job

---
 app.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index 38789c6..47619ac 100644
--- a/app.py
+++ b/app.py
@@ -448,8 +448,12 @@ def check_gpu_status(job_id, request: gr.Request = None):
             gr.update(visible=False),
         )
     except Exception as e:
-        return (f"Download failed: {e}",
-                None, None, gr.update()) + _NO_GPU
+        return (
+            f"Download failed: {e}", None, None, gr.update(),
+            job_id,
+            gr.update(visible=True, value=f"Job {job_id}: Download failed"),
+            gr.update(visible=True),
+        )
 
 
 # ── Visualization ──────────────────────────────────────────────
-- 
2.43.0


From d22a15acac9b86653dbefdfbc0265db8d67e4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 75/77] fix: a figure that comes with a warning is shown with
 it

---
 app.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/app.py b/app.py
index 47619ac..f13cb30 100644
--- a/app.py
+++ b/app.py
@@ -472,12 +472,11 @@ def run_viz(viz_type, model_state):
         configure(save_dir=tmpdir)
         try:
             viz_result = render(VizRequest(viz_type, model_state))
-            if viz_result.warnings:
-                return None, "\n".join(viz_result.warnings)
+            message = "\n".join([f"'{viz_type}' generated."] + viz_result.warnings)
 
             # Prefer in-memory figure
             if viz_result.figure is not None:
-                return viz_result.figure, f"'{viz_type}' generated."
+                return viz_result.figure, message
 
             # Fallback: read saved image file
             if viz_result.paths:
@@ -486,9 +485,9 @@ def run_viz(viz_type, model_state):
                 ax.imshow(img)
                 ax.axis("off")
                 fig.tight_layout(pad=0)
-                return fig, f"'{viz_type}' generated."
+                return fig, message
 
-            return None, f"No output for '{viz_type}'."
+            return None, "\n".join(viz_result.warnings) or f"No output for '{viz_type}'."
         except Exception as e:
             return None, f"Visualization error: {e}"
         finally:
-- 
2.43.0


From bc440dd14ddd3d09370a46990b9d52ec708a90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:15 +0000
Subject: [PATCH 76/77] fix: the web interface does not leave figures pointed
 at a removed directory

---
 app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app.py b/app.py
index f13cb30..b1df69f 100644
--- a/app.py
+++ b/app.py
@@ -469,6 +469,7 @@ def run_viz(viz_type, model_state):
 
     # Use a temp dir so adapters that save-to-file still work
     with tempfile.TemporaryDirectory() as tmpdir:
+        previous_dir = configure().save_dir
         configure(save_dir=tmpdir)
         try:
             viz_result = render(VizRequest(viz_type, model_state))
@@ -491,7 +492,7 @@ def run_viz(viz_type, model_state):
         except Exception as e:
             return None, f"Visualization error: {e}"
         finally:
-            configure(save_dir=None)
+            configure().save_dir = previous_dir  # None leaves it as it is
 
 
 # ── Gradio UI ──────────────────────────────────────────────────
-- 
2.43.0


From cfaee3d0d953a3f41d446b0754949b1c120e2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:01 +0000
Subject: [PATCH 77/77] fix: drop_duplicates replaces the compared candidate,
 not the first one of its length

---
 kd/model/discover/ga_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..8102ec2 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -211,13 +211,12 @@ def drop_duplicates( tokens, values):
 
     for i, (arr_current, str_current) in enumerate(zip(values, token_len)):
         duplicate_found = False
-        for arr_compare, str_compare in zip(values[i+1:], token_len[i+1:]):
+        for idx, (arr_compare, str_compare) in enumerate(zip(values[i+1:], token_len[i+1:]), start=i+1):
             # if the sum of differences is less than 1e-5, consider them the same
             if np.abs(np.sum(arr_compare - arr_current)) < 1e-5:
                 duplicate_found = True
                 # if the current string is shorter, replace the compared one
                 if str_current < str_compare:
-                    idx = token_len.index(str_compare)
                     token_len[idx] = str_current
                     tokens[idx]=tokens[i]
                     values[idx]=values[i]
-- 
2.43.0


From 580f3572d3921fb5cccf6b13f38d3dfa180ca761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 01/38] fix: Bisection with has_aux=True no longer compares
 (value, aux) tuples

---
 jaxopt/_src/bisection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..0f062e4 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -21,6 +21,7 @@ from typing import Optional
 from typing import Union
 
 from dataclasses import dataclass
+import functools
 
 import jax.numpy as jnp
 
@@ -172,7 +173,11 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun_with_aux = self.optimality_fun
+      self._fun_with_aux = fun_with_aux
+      # `init_state` and implicit differentiation need the value only.
+      self.optimality_fun = functools.wraps(fun_with_aux)(
+          lambda *a, **kw: fun_with_aux(*a, **kw)[0])
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From 231d69f18e1b2bab9bb2bceee4ecffe4f8a1870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 02/38] fix: proximal gradient solvers initialise state.aux
 with the auxiliary output when value_and_grad=True

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..7181476 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -327,11 +327,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From 7b11b641cc99730b44b0992eeb63bc4d256c52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:47 +0000
Subject: [PATCH 03/38] fix: SciPy wrappers do not modify the caller's options
 nor the shared default options

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..32873d5 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -401,8 +401,8 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    # Copied: the dictionary belongs to the caller.
+    self.options = {} if self.options is None else dict(self.options)
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -701,12 +701,8 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    # Copied: the dictionaries belong to the caller and to this module.
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
-- 
2.43.0


From 3d73827e1d5a2c69ccf90a9b1cde63cab7ac0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 04/38] fix: has_aux=True in ScipyRootFinding and the SciPy
 least squares wrappers no longer recurses forever

---
 jaxopt/_src/scipy_wrappers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 32873d5..dfca56d 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -22,6 +22,7 @@
 """
 
 from dataclasses import dataclass
+import functools
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -560,13 +561,16 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
+      fun_with_aux = self.optimality_fun
+
+      @functools.wraps(fun_with_aux)
       def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+        return fun_with_aux(x, *args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -705,7 +709,8 @@ class ScipyLeastSquares(ScipyWrapper):
     self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From 39841f4315459848bc0845f1bf4958b4ea5bddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 05/38] fix: SciPy least squares wrappers accept an array or an
 integer as x_scale

---
 jaxopt/_src/scipy_wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index dfca56d..324cbf5 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -713,8 +713,7 @@ class ScipyLeastSquares(ScipyWrapper):
       self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
-    if self.options['x_scale'] != 'jac' and not isinstance(
-        self.options['x_scale'], float):
+    if not isinstance(self.options['x_scale'], (str, int, float)):
       self.options['x_scale'] = jnp_to_onp(self.options['x_scale'], self.dtype)
 
     # Pre-compile useful functions.
-- 
2.43.0


From 65cb7e1f51a553aeddd0230ac5d3d142017dba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 06/38] fix: LevenbergMarquardt selects the accepted or
 rejected step instead of blending them, so that a NaN trial is discarded

---
 jaxopt/_src/levenberg_marquardt.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..725987b 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # Select, rather than blend by multiplication: a rejected step may contain
+    # NaNs or infinities.
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From 86e5b58724102865ce5006d6079e47779dbde6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 07/38] fix: LevenbergMarquardt uses a custom jac_fun when
 materialize_jac=True

---
 jaxopt/_src/levenberg_marquardt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 725987b..e77664d 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -485,9 +485,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
+      else:
+        self._jac_fun = self.jac_fun
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
     else:
       if self.jac_fun:
         self._jac_fun = self.jac_fun
-- 
2.43.0


From f7be1f707026d02db004cb364d94cd6aaa2fbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 08/38] fix: LevenbergMarquardt madsen-nielsen stop criterion
 has the documented sign

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index e77664d..4b4e00a 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From 59a5e9ac704b729526144c73a6534775c5cd2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:23 +0000
Subject: [PATCH 09/38] fix: LBFGSB sorts its correction pairs chronologically
 once the circular history has wrapped

---
 jaxopt/_src/lbfgsb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..51de383 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -408,6 +408,14 @@ class LBFGSB(base.IterativeSolver):
     s_history_flat = _flatten_and_concat(state.s_history, batch_ndims=1)
     y_history_flat = _flatten_and_concat(state.y_history, batch_ndims=1)
 
+    # The lower triangular matrix L_k of [1] relies on the pairs being sorted
+    # from the oldest to the newest one: once the circular buffers are full,
+    # bring the oldest pair back to the first row.
+    oldest = jnp.where(state.num_updates >= self.history_size,
+                       state.num_updates % self.history_size, 0)
+    s_history_flat = jnp.roll(s_history_flat, -oldest, axis=0)
+    y_history_flat = jnp.roll(y_history_flat, -oldest, axis=0)
+
     # Construct the limited-memory BFGS matrix from [1], section 3.
     w_flat = jnp.transpose(
         jnp.concatenate([y_history_flat, state.theta * s_history_flat], axis=0))
-- 
2.43.0


From dc961eee1c2d6a13019357a3dcd2ed65028333ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 10/38] fix: Broyden's inverse Jacobian product couples all the
 leaves of a pytree

---
 jaxopt/_src/broyden.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..3862de2 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -38,29 +38,6 @@ from jaxopt.tree_util import tree_l2_norm
 from jaxopt._src.tree_util import tree_single_dtype
 
 
-def matvec(d_history, c_history, x, indices):
-  # CD^T x
-  # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
-
-
 def inv_jacobian_product(pytree: Any,
                          d_history: Any,
                          c_history: Any,
@@ -84,10 +61,18 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  history_size = len(jax.tree_util.tree_leaves(d_history)[0])
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  # CD^T v, where the dot products D^T v run over all the leaves: here j is the
+  # history dimension and ... are the space dimensions.
+  dtv = sum(jax.tree_util.tree_leaves(tree_map(
+      lambda d, v: jnp.einsum('j..., ... -> j', d[indices], v),
+      d_history, pytree)))
+  # This is done using the notations of DEQ.
+  return tree_map(
+      lambda v, c: gamma * v + jnp.einsum('j..., j -> ...', c[indices], dtv),
+      pytree, c_history)
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From 6792977a5173660ac45739c2663ea0029944a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 11/38] fix: Broyden ignores degenerate pairs instead of
 filling its history with NaN

---
 jaxopt/_src/broyden.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 3862de2..709bc22 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -346,7 +346,9 @@ class Broyden(base.IterativeSolver):
     delta_x = tree_sub(new_params, params)
     v = jac_rprod(delta_x)
     delta_g = tree_sub(new_value, value)
-    denom = 1 / tree_vdot(v, delta_g)
+    denom = tree_vdot(v, delta_g)
+    # As in LBFGS, a degenerate pair (zero step) does not contribute.
+    denom = jnp.where(denom == 0, 0, 1 / denom)
     d = tree_scalar_mul(denom, v)
     c = tree_sub(delta_x, jac_prod(delta_g))
 
-- 
2.43.0


From 27f3f9ac6f852a2f7ee8ede6d20c146b05fbf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 12/38] fix: NonlinearCG state.error is the gradient norm at
 the returned params

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From bb6a72686fe836adbb8f8f8faf80772e65f146a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 13/38] fix: FISTA line search keeps backtracking on a NaN
 trial

---
 jaxopt/_src/proximal_gradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 7181476..d875014 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -65,7 +65,8 @@ def fista_line_search(
     # where the terms have been reordered for numerical stability.
     fun_decrease = stepsize * (fun(next_x, *args, **kwargs) - x_fun_val)
     condition = stepsize * tree_vdot(diff_x, x_fun_grad) + 0.5 * sqdist
-    return fun_decrease > condition + eps
+    # Negated so that a NaN objective value is a violation.
+    return ~(fun_decrease <= condition + eps)
 
   def body_fun(pair):
     stepsize = pair[1]
-- 
2.43.0


From d708679c5e5116e0ea22bf1858ea7674514e7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 14/38] fix: ArmijoSGD line search keeps backtracking on a NaN
 trial

---
 jaxopt/_src/armijo_sgd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/armijo_sgd.py b/jaxopt/_src/armijo_sgd.py
index c9b79b9..1e0b3c8 100644
--- a/jaxopt/_src/armijo_sgd.py
+++ b/jaxopt/_src/armijo_sgd.py
@@ -38,7 +38,8 @@ from jaxopt._src import loop
 
 def wolfe_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
   eps = jnp.finfo(f_next.dtype).eps
-  return stepsize * coef * grad_sqnorm > f_cur - f_next + eps
+  # Negated so that a NaN objective value is a violation.
+  return ~(stepsize * coef * grad_sqnorm <= f_cur - f_next + eps)
 
 
 def curvature_cond_violated(stepsize, coef, f_cur, f_next, grad_sqnorm):
-- 
2.43.0


From ed580cf8b41aa5345a83774ac940925638e6ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 15/38] fix: BoxOSQP infeasibility certificates must be
 strictly negative, so that a zero step certifies nothing

---
 jaxopt/_src/osqp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..9d667e5 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -553,7 +553,7 @@ class BoxOSQP(base.IterativeSolver):
     certif_u   = tree_map(lambda adxi,ui: jnp.all(adxi <= ui), Adx, tree_where(unbounded_u, jnp.inf, criterion))
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
-    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c < -criterion), certif_A)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -575,7 +575,7 @@ class BoxOSQP(base.IterativeSolver):
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From db9b21342e7c2f6b4485480aa6078a70d4d27e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:26 +0000
Subject: [PATCH 16/38] fix: BoxOSQP primal infeasibility certificate respects
 infinite bounds

---
 jaxopt/_src/osqp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 9d667e5..d88143b 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -575,7 +575,11 @@ class BoxOSQP(base.IterativeSolver):
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion)
+    # an infinite bound cannot contribute to the certificate.
+    certif_l   = tree_map(lambda dyi, li: jnp.all((li > -jnp.inf) | (dyi >= -criterion)), dy_minus, l)
+    certif_u   = tree_map(lambda dyi, ui: jnp.all((ui < jnp.inf) | (dyi <= criterion)), dy_plus, u)
+    certif_inf = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
+    certif_primal_infeasible = jnp.logical_and(jnp.logical_and(certif_A  <= criterion, certif_lu  < -criterion), certif_inf)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 05c2b11666fb51848ff92c3fd576e89550e5e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:58 +0000
Subject: [PATCH 17/38] fix: BoxOSQP step size update does not divide by zero

---
 jaxopt/_src/osqp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index d88143b..8604910 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -517,10 +517,11 @@ class BoxOSQP(base.IterativeSolver):
   def _update_stepsize(self, rho_bar, solver_state, primal_residuals, dual_residuals, Q, c, A, x, y):
     """Update stepsize based on the ratio between primal and dual residuals."""
     Ax, ATy     = A.matvec_and_rmatvec(x, y)
-    primal_coef = tree_inf_norm(primal_residuals) / tree_inf_norm(Ax)
+    Ax_inf      = tree_inf_norm(Ax)
+    eps_div     = jnp.finfo(Ax_inf.dtype).eps
+    primal_coef = tree_inf_norm(primal_residuals) / (Ax_inf + eps_div)
     max_inf     = jnp.maximum(tree_inf_norm(Q(x)), jnp.maximum(tree_inf_norm(ATy), tree_inf_norm(c)))
-    dual_coef   = tree_inf_norm(dual_residuals) / max_inf
-    eps_div     = jnp.finfo(dual_coef.dtype).eps
+    dual_coef   = tree_inf_norm(dual_residuals) / (max_inf + eps_div)
     coef        = jnp.sqrt(primal_coef / (dual_coef + eps_div))
     rho_bar     = jnp.clip(rho_bar * coef, self.rho_min, self.rho_max)
     solver_state = self._eq_qp_solve_impl.update_stepsize(solver_state, rho_bar)
-- 
2.43.0


From c2d57580c229a8e777ec13984e33ece22a467b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 18/38] fix: LBFGSB line search does not step out of the bounds
 when max_stepsize > 1

---
 jaxopt/_src/lbfgsb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 51de383..6ef7f74 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -623,7 +623,9 @@ class LBFGSB(base.IterativeSolver):
         value_and_grad=self._value_and_grad_with_aux,
         has_aux=True,
         maxlsiter=self.maxls,
-        max_stepsize=self.max_stepsize,
+        # The end point of the search direction lies in the box, points beyond it
+        # need not.
+        max_stepsize=min(self.max_stepsize, 1.0),
         jit=self.jit,
         unroll=unroll,
         verbose=max(int(self.verbose)-1, 0),
-- 
2.43.0


From fd4d2d97e68a8f7d9deb02c82acf7deb047148da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 19/38] fix: Hager-Zhang line search reports the step size it
 took when the initial interval already succeeds

---
 jaxopt/_src/hager_zhang_linesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..886534a 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,7 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From 39717e9661d969c15a99c869b588e8a7b997ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:44 +0000
Subject: [PATCH 20/38] fix: Lipschitz constants of the multiclass linear SVM
 dual scale with l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From 2f4166a4009e52b3ed7797ce24c5ae6c793b5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:17 +0000
Subject: [PATCH 21/38] fix: IterativeRefinement starts from the residuals of
 its initial params

---
 jaxopt/_src/iterative_refinement.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..960ca45 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -124,12 +124,16 @@ class IterativeRefinement(base.IterativeSolver):
                  A: Any,
                  b: Any,
                  A_bar: Any = None):
+    zeros = self.init_params(A, b, A_bar)
+    if init_params is None:
+      init_params = zeros
+    # The first correction starts from the residuals of the initial params.
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      target_residuals=tree_sub(b, self.matvec_A(A)(init_params)),
+      init=zeros,
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From f25bdf31c79c0bfd0a5b7052e5d7e1ddfe8ac980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 22/38] fix: Hager-Zhang bracketing terminates on functions
 that keep decreasing

---
 jaxopt/_src/hager_zhang_linesearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 886534a..e68665f 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -311,8 +311,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
       new_num_fun_grad_calls += 1
       num_fun_grad_calls += new_num_fun_grad_calls
 
-      # Terminate on encountering NaNs to avoid an infinite loop.
+      # Terminate on encountering NaNs, or when the step size overflows because
+      # the function keeps decreasing, to avoid an infinite loop.
       failed = failed  | _failed_nan(new_value_middle, new_grad_middle)
+      failed = failed  | jnp.isinf(new_middle)
       return (done,
               failed,
               new_low,
-- 
2.43.0


From d50a8df1924274d7d74b87c083a71e7723e85e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 23/38] fix: Hager-Zhang line search reports exactly one of
 success and failure

---
 jaxopt/_src/hager_zhang_linesearch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index e68665f..368e695 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -501,10 +501,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
           params, new_low, new_high, c, approx_wolfe_threshold_value,
           descent_direction, fun_args, fun_kwargs)
 
-    failed, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
+    new_failed, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
         ~state.done & ((new_high - new_low) >
                        (self.shrinkage_factor * (state.high - state.low))),
         _reupdate, lambda: (failed, new_low, new_high, 0))
+    failed = failed | new_failed
     new_num_fun_eval += num_fun_grad_calls
     new_num_grad_eval += num_fun_grad_calls
 
@@ -540,7 +541,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
                           approx_wolfe_threshold_value,
                           descent_direction))
     done = state.done | (error <= self.tol)
+    # A NaN error stops the search.
+    failed = failed | jnp.isnan(error)
     failed = failed | ((state.iter_num + 1 == self.maxiter) & ~done)
+    # A search that ends at a point satisfying the conditions has not failed.
+    failed = failed & ~done
 
     new_state = HagerZhangLineSearchState(
         iter_num=state.iter_num + 1,
-- 
2.43.0


From 271afc3ef2896803dc77d3f2bcccc091faef63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 24/38] fix: Hager-Zhang line search never returns a NaN end
 point when the other one is finite

---
 jaxopt/_src/hager_zhang_linesearch.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 368e695..e6602ed 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -412,9 +412,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     num_fun_eval += 2
     num_grad_eval +=  2
 
-    best_point = jnp.where(value_low < value_high, low, high)
-    gd_vdot_best_point = jnp.where(value_low < value_high, grad_low, grad_high)
-    value_best_point = jnp.minimum(value_low, value_high)
+    # A NaN end point is never the best point.
+    low_is_best = (value_low < value_high) | jnp.isnan(value_high)
+    best_point = jnp.where(low_is_best, low, high)
+    gd_vdot_best_point = jnp.where(low_is_best, grad_low, grad_high)
+    value_best_point = jnp.where(low_is_best, value_low, value_high)
 
     error = self._satisfies_wolfe_and_approx_wolfe(
         best_point,
@@ -518,10 +520,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     new_num_fun_eval += 2
     new_num_grad_eval += 2
 
-    best_point = jnp.where(value_low < value_high, new_low, new_high)
-    gd_vdot_best_point = jnp.where(value_low < value_high, grad_low, grad_high)
-
-    value_best_point = jnp.minimum(value_low, value_high)
+    # A NaN end point is never the best point.
+    low_is_best = (value_low < value_high) | jnp.isnan(value_high)
+    best_point = jnp.where(low_is_best, new_low, new_high)
+    gd_vdot_best_point = jnp.where(low_is_best, grad_low, grad_high)
+    value_best_point = jnp.where(low_is_best, value_low, value_high)
 
     new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
-- 
2.43.0


From c260df7693b3eadffb60c5bb4f77947d97c337a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 25/38] fix: projection_transport's default solver no longer
 diverges on the linear pieces of the semi-dual

---
 jaxopt/_src/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..467381f 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -576,8 +576,10 @@ def _regularized_transport_semi_dual(cost_matrix,
     raise ValueError("cost_matrix and marginals must have matching shapes.")
 
   if make_solver is None:
+    # The semi-dual is piecewise quadratic with flat curvature on some pieces: the
+    # line search must be able to take very long steps.
     make_solver = lambda fun: LBFGS(fun=fun, tol=1e-3, maxiter=500,
-                                    linesearch="zoom")
+                                    linesearch="hager-zhang")
 
   semi_dual = _make_semi_dual(max_vmap, gamma=gamma)
   solver = make_solver(semi_dual)
-- 
2.43.0


From 8e30528c624b871723be79f7f3f6265ff371e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 26/38] fix: LevenbergMarquardt with geodesic acceleration
 never accepts a step that increases the loss

---
 jaxopt/_src/levenberg_marquardt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 4b4e00a..02db1b6 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -326,7 +326,10 @@ class LevenbergMarquardt(base.IterativeSolver):
     # Current value of loss function F=0.5*||f||^2.
     loss_next = 0.5 * jnp.sum(jnp.square(residual_next))
 
-    gain_ratio = (loss_curr - loss_next) / gain_ratio_denom
+    # With geodesic acceleration or an inexact linear solver, the predicted
+    # decrease can be negative: a step that increases the loss is never a gain.
+    gain_ratio = jnp.where(gain_ratio_denom > 0,
+                           (loss_curr - loss_next) / gain_ratio_denom, -1.0)
 
     gain_ratio_test_init_state = (params, damping_factor, increase_factor,
                                   residual, gradient, jac, jt, jtj, hess_res,
-- 
2.43.0


From 51ddb1fd55edd7adcc221a81f37741e4a2f6dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 27/38] fix: ScipyMinimize callbacks accept the extra arguments
 that trust-constr passes

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 324cbf5..bb5b416 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -324,7 +324,8 @@ class ScipyMinimize(ScipyWrapper):
 
     # wrap the callback so its arguments are of the same kind as fun
     if self.callback is not None:
-      def scipy_callback(x_onp: onp.ndarray):
+      def scipy_callback(x_onp: onp.ndarray, *unused_args):
+        # Some methods, such as `trust-constr`, also pass their own state.
         x_jnp = onp_to_jnp(x_onp)
         return self.callback(x_jnp)
     else:
-- 
2.43.0


From 9798695a5411ad287a1e1c32a69cb59e344df57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 28/38] fix: ScipyMinimize no longer fails on methods that do
 not report an iteration count

---
 jaxopt/_src/scipy_wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index bb5b416..28e557e 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -90,7 +90,7 @@ class ScipyMinimizeInfo(NamedTuple):
   fun_val: jnp.ndarray
   success: bool
   status: int
-  iter_num: int
+  iter_num: Optional[int]
   hess_inv: Optional[Union[jnp.ndarray, LbfgsInvHessProductPyTree]]
   num_fun_eval: int = 0
   num_jac_eval: int = 0
@@ -369,7 +369,8 @@ class ScipyMinimize(ScipyWrapper):
     info = ScipyMinimizeInfo(fun_val=jnp.asarray(res.fun),
                              success=res.success,
                              status=res.status,
-                             iter_num=res.nit,
+                             # Some methods, such as `COBYLA`, do not report it.
+                             iter_num=getattr(res, 'nit', None),
                              hess_inv=hess_inv,
                              num_fun_eval=nev_dict['nfev'],
                              num_jac_eval=nev_dict['njev'],
-- 
2.43.0


From 5f76fc1665bd82f660b3bd5947b1b423d86a33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 29/38] fix: ScipyRootFinding works with df-sane, which takes
 no Jacobian

---
 jaxopt/_src/scipy_wrappers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 28e557e..b87f70c 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -101,7 +101,7 @@ class ScipyRootInfo(NamedTuple):
   """Named tuple with results for `scipy.optimize.root` wrappers."""
   fun_val: float
   success: bool
-  status: int
+  status: Optional[int]
   iter_num: int
 
   num_fun_eval: int = 0
@@ -520,12 +520,17 @@ class ScipyRootFinding(ScipyWrapper):
                                          pytree_topology,
                                          self.dtype)
 
-    def scipy_fun(x_onp: onp.ndarray, scipy_args: Any) -> Tuple[onp.ndarray, onp.ndarray]:
+    # Unlike the other methods, `df-sane` does not split (value, Jacobian) pairs.
+    with_jac = self.method is None or self.method.lower() != 'df-sane'
+
+    def scipy_fun(x_onp: onp.ndarray, scipy_args: Any) -> Any:
       # scipy_args is unused but must appear in the signature since
       # the `args` argument passed to osp.optimize.root is not None.
       del scipy_args  # unused
       x_jnp = onp_to_jnp(x_onp)
       value_jnp = self.optimality_fun(x_jnp, *args, **kwargs)
+      if not with_jac:
+        return jnp_to_onp(value_jnp, self.dtype)
       jacs_jnp = self._jac_fun(x_jnp, *args, **kwargs)
       return jnp_to_onp(value_jnp, self.dtype), jac_jnp_to_onp(jacs_jnp)
 
@@ -534,7 +539,7 @@ class ScipyRootFinding(ScipyWrapper):
     # See the related issue: https://github.com/google/jaxopt/issues/290
     res = osp.optimize.root(scipy_fun, jnp_to_onp(init_params, self.dtype),
                             args=(None,),
-                            jac=True,
+                            jac=True if with_jac else None,
                             tol=self.tol,
                             method=self.method,
                             options=self.options)
@@ -557,7 +562,8 @@ class ScipyRootFinding(ScipyWrapper):
 
     info = ScipyRootInfo(fun_val=jnp.asarray(res.fun),
                          success=res.success,
-                         status=res.status,
+                         # `df-sane` does not report it.
+                         status=getattr(res, 'status', None),
                          iter_num=iter_num,
                          num_fun_eval=num_fun_eval)
     return base.OptStep(params, info)
-- 
2.43.0


From ce2c49a673eb39cc3d68717aeeaa169f1664bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 30/38] fix: LbfgsInvHessProductPyTree initialises the linear
 operator that its products rely on

---
 jaxopt/_src/scipy_wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index b87f70c..6c1fb39 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -64,8 +64,9 @@ class LbfgsInvHessProductPyTree(LbfgsInvHessProduct):
     if sk.shape != yk.shape or sk.ndim != 2:
       raise ValueError('sk and yk must have matching shape, (n_corrs, n)')
     n_corrs, n = sk.shape
-    self.dtype = jnp.float64 if config.jax_enable_x64 is True else jnp.float32
-    self.shape = (n, n)
+    dtype = jnp.float64 if config.jax_enable_x64 is True else jnp.float32
+    # Sets `dtype`, `shape` and what SciPy's `matvec` relies on.
+    super(LbfgsInvHessProduct, self).__init__(dtype, (n, n))
     self.sk = sk
     self.yk = yk
     self.n_corrs = n_corrs
-- 
2.43.0


From 25ac7af096084b800bb1a166237adc73644f881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 31/38] fix: GaussNewton and LevenbergMarquardt are
 differentiable with respect to keyword arguments

---
 jaxopt/_src/gauss_newton.py        | 1 +
 jaxopt/_src/levenberg_marquardt.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..0cd4f1e 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -150,6 +150,7 @@ class GaussNewton(base.IterativeSolver):
       residual = self._fun(params, *args, **kwargs)
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
+    self.reference_signature = self.residual_fun
 
   def _jtj_op(self, params, vec, *args, **kwargs):
     """Product with J.T J"""
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 02db1b6..55f2c2a 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -478,6 +478,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     else:
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw), None)
+    self.reference_signature = self.residual_fun
 
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
-- 
2.43.0


From 74961af0bf4b260a1720b5ffa9c1b8f37013f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 32/38] fix: the Huber loss of ScipyLeastSquares' optimality
 conditions is symmetric

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 6c1fb39..fb6eb32 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -594,7 +594,7 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From 5e837545a3e615ac877a1b943ebc40e80b5486c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 33/38] fix: ScipyLeastSquares is differentiable when the
 residuals are a pytree

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fb6eb32..115c61b 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -642,7 +642,8 @@ class ScipyLeastSquares(ScipyWrapper):
   use_jacrev: bool = True
 
   def _cost_fun(self, params, *args, **kwargs):
-    residuals = self.fun(params, *args, **kwargs)
+    leaves = tree_util.tree_leaves(self.fun(params, *args, **kwargs))
+    residuals = jnp.concatenate([jnp.ravel(leaf) for leaf in leaves])
     # NOTE: `self._rho` includes the squaring of residuals in its definition.
     losses = self._rho(residuals / self.options['f_scale'])
     return 0.5 * jnp.square(self.options['f_scale']) * jnp.mean(losses)
-- 
2.43.0


From 1f973760c53b5927f36495ec6df733000be6266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:30 +0000
Subject: [PATCH 34/38] fix: SciPy minimisation wrappers are differentiable
 with respect to keyword arguments

---
 jaxopt/_src/scipy_wrappers.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 115c61b..12b01cd 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -23,6 +23,7 @@
 
 from dataclasses import dataclass
 import functools
+import inspect
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -243,6 +244,15 @@ def pytree_topology_from_example(x_jnp: Any) -> PyTreeTopology:
   return PyTreeTopology(treedef=treedef, shapes=shapes, dtypes=dtypes)
 
 
+def _signature_with_bounds(fun: Callable) -> inspect.Signature:
+  """Signature of `fun` with `bounds` inserted as its second argument."""
+  signature = inspect.signature(getattr(fun, 'subfun', fun))
+  params = list(signature.parameters.values())
+  if params[0].kind != inspect.Parameter.VAR_POSITIONAL:
+    params.insert(1, params[0].replace(name='bounds'))
+  return signature.replace(parameters=params)
+
+
 @dataclass(eq=False)
 class ScipyWrapper(base.Solver):
   """Wraps over `scipy.optimize` methods with PyTree and implicit diff support.
@@ -270,11 +280,16 @@ class ScipyWrapper(base.Solver):
     raise NotImplementedError(
         'ScipyWrapper subclasses must implement `optimality_fun` as needed.')
 
+  def _reference_signature(self):
+    """Signature with which `run` resolves its keyword arguments."""
+    return None  # That of `optimality_fun`.
+
   def __post_init__(self):
     # Set up implicit diff.
     decorator = idf.custom_root(self.optimality_fun,
                                 has_aux=True,
-                                solve=self.implicit_diff_solve)
+                                solve=self.implicit_diff_solve,
+                                reference_signature=self._reference_signature())
     # pylint: disable=g-missing-from-attributes
     self.run = decorator(self.run)
 
@@ -317,6 +332,9 @@ class ScipyMinimize(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.minimize`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -442,6 +460,9 @@ class ScipyBoundedMinimize(ScipyMinimize):
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def run(self,
           init_params: Any,
           bounds: Optional[Any],
@@ -652,6 +673,9 @@ class ScipyLeastSquares(ScipyWrapper):
     """Optimality function mapping compatible with `@custom_root`."""
     return self._grad_cost_fun(sol, *args, **kwargs)
 
+  def _reference_signature(self):
+    return self.fun
+
   def _run(self, init_params, bounds, *args, **kwargs):
     """Wraps `scipy.optimize.least_squares`."""
     # Sets up the "JAX-SciPy" bridge.
@@ -777,6 +801,9 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
+  def _reference_signature(self):
+    return _signature_with_bounds(self.fun)
+
   def run(self,
           init_params: Any,
           bounds: Optional[Any],
-- 
2.43.0


From 4c37fcbff7c804a269e68cd3d184d2e05d694516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 35/38] fix: the optimality conditions of BoxOSQP call fun with
 the primal variable

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 8604910..205c984 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From 3dad02d6f079f72dfa1efd1347fecc72a0253c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:00 +0000
Subject: [PATCH 36/38] fix: make_perturbed_fun is differentiable for outputs
 of every shape, with and without a control variate

---
 jaxopt/_src/perturbations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..b06ff2e 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -256,7 +256,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
   def pert_jvp(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
@@ -264,13 +264,12 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     output = fun(inputs)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
@@ -279,8 +278,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - output, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   if control_variate:
     forward_pert.defjvps(pert_jvp_control_variate, None)
-- 
2.43.0


From 701779a0d142c9eae3706481cdf2198ca7ca57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 37/38] fix: prox_elastic_net accepts scalar arrays together
 with pytrees

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..9cc473c 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -126,9 +126,9 @@ def prox_elastic_net(x: Any,
     hyperparams = (1.0, 1.0)
 
   lam = tree_util.tree_map(lambda y: hyperparams[0]*jnp.ones_like(
-      y), x) if type(hyperparams[0]) == float else hyperparams[0]
+      y), x) if jnp.isscalar(hyperparams[0]) else hyperparams[0]
   gam = tree_util.tree_map(lambda y: hyperparams[1]*jnp.ones_like(
-      y), x) if type(hyperparams[1]) == float else hyperparams[1]
+      y), x) if jnp.isscalar(hyperparams[1]) else hyperparams[1]
 
   def prox_l1(u, lambd): return jnp.sign(u) * jax.nn.relu(jnp.abs(u) - lambd)
 
-- 
2.43.0


From bf955f53ae667f38fb4f92de27bd3995f132a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:14 +0000
Subject: [PATCH 38/38] fix: CvxpyQP raises for every status without a solution
 (e.g. iteration limit) instead of returning the last iterate

---
 jaxopt/_src/cvxpy_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/cvxpy_wrapper.py b/jaxopt/_src/cvxpy_wrapper.py
index cbe9944..33130f3 100644
--- a/jaxopt/_src/cvxpy_wrapper.py
+++ b/jaxopt/_src/cvxpy_wrapper.py
@@ -139,7 +139,7 @@ class CvxpyQP(base.Solver):
     pb = cp.Problem(cp.Minimize(objective), constraints)
     pb.solve(solver=self.solver)
 
-    if pb.status in ["infeasible", "unbounded"]:
+    if pb.status not in ["optimal", "optimal_inaccurate"]:
       raise ValueError("The problem is %s." % pb.status)
 
     dual_eq = None if params_eq is None else jnp.array(pb.constraints[0].dual_value)
-- 
2.43.0


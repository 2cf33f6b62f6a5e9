From c79f851b4e5b4e4a8ab5fa05049226fe8c499085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 01/28] fix: MultiSteps passes the current params on to the
 wrapped optimiser

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..d71bc32 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 143b79d3291d6445542c1a30429ca145eb8ba51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 02/28] fix: masked tests params against None instead of for
 truth

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d71bc32..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -322,7 +322,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From cb2eaeaff075771214f67f794b2bcfb1f05ce801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 03/28] fix: ema without debiasing returns the moving average,
 not its input

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..8ffdd83 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -125,8 +125,8 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
+    updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From f48534fa7dccdb1e3051eef7ef043fcfe9d8369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 04/28] fix: lookahead hands the fast params to the fast
 optimiser

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From fb8c81090894f76e3d6fbccd782eab5acd210a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 05/28] fix: lookahead selects instead of multiplying by the
 sync flag

Multiplying by the flag turned a non-finite fast update into NaN slow
parameters on non-synchronisation steps, kept non-finite fast states alive
across a reset, and changed the dtype of boolean fast states.
---
 optax/_src/lookahead.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..01b1170 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
@@ -182,11 +182,12 @@ def _lookahead_update(
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
-  fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(sync_next, slow_step_size * diff, 0.),
       last_difference)
+  fast_updates = jax.tree_multimap(
+      lambda up, diff: up - jnp.where(sync_next, (1 - slow_step_size) * diff, 0.
+                                      ), updates, last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
 
-- 
2.43.0


From 884ccd2b1a3f559e9b624a557d65a8af1f4c1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 06/28] fix: apply_every does not carry non-finite gradients
 into later windows

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ffdd83..7dc91f5 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,9 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, 0) + g, updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(lambda ga: jnp.where(emit, ga, 0), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From e4d62bf4d29beea9c150c588150505bb386bcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 07/28] fix: scale_by_sm3 accumulators use the dtype of the
 parameters

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 7dc91f5..87bb2ea 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,7 +745,7 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From 8e1bc26132bf4589634bf7bdf3fbc9550438e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 08/28] fix: add_noise scales the noise by its standard
 deviation, not its variance

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 87bb2ea..9f30aed 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -634,12 +634,13 @@ def add_noise(
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
     variance = eta / count_inc**gamma
+    standard_deviation = jnp.sqrt(variance)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + standard_deviation.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From 6252c8a8055ee549c2bb559c402331e261860e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 09/28] fix: noisy_sgd adds the noise to the gradients, before
 the learning rate

---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 784260aef8fc2510b984ecaf8e9bc572291ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 10/28] fix: hessian_diag works for parameters of any floating
 point dtype

---
 optax/_src/second_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/second_order.py b/optax/_src/second_order.py
index 6793dbc..748b07f 100644
--- a/optax/_src/second_order.py
+++ b/optax/_src/second_order.py
@@ -84,7 +84,8 @@ def hessian_diag(
     A DeviceArray corresponding to the product to the Hessian of `loss`
     evaluated at `(params, inputs, targets)`.
   """
-  vs = jnp.eye(ravel(params).size)
+  flat_params = ravel(params)
+  vs = jnp.eye(flat_params.size, dtype=flat_params.dtype)
   comp = lambda v: jnp.vdot(v, ravel(hvp(loss, v, params, inputs, targets)))
   return jax.vmap(comp)(vs)
 
-- 
2.43.0


From e5c759d9e15ef2b5a475ff63e1285ee0ee98ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 11/28] fix: piecewise interpolated schedules tolerate
 intervals of zero length

The one-cycle schedules create them for short cycles, and were NaN throughout.
---
 optax/_src/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..bc647c9 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -280,6 +280,8 @@ def piecewise_interpolate_schedule(
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
   interval_sizes = (bounds[1:] - bounds[:-1])
+  # An empty interval is never active: keep its fraction finite.
+  interval_sizes = jnp.where(interval_sizes > 0, interval_sizes, 1)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From 0bd6d745cdfb52ca5d6097ba81f2934a9efb0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 12/28] fix: moving_avg_baseline debiases without compounding

The state holds the debiased average: dividing the mixture of that state and
the new mean once more made the baseline grow without bound.
---
 optax/_src/control_variates.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..c9776d3 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -192,12 +192,13 @@ def moving_avg_baseline(
     else:
       iteration_decay = decay
 
-    updated_value = iteration_decay * value
-    updated_value += (1 - iteration_decay) * jnp.mean(
-        jax.vmap(function)(samples))
-
+    step_size = 1 - iteration_decay
     if zero_debias:
-      updated_value /= (jnp.ones([]) - jnp.power(iteration_decay, i + 1))
+      # `value` is itself debiased already.
+      step_size /= (jnp.ones([]) - jnp.power(iteration_decay, i + 1))
+
+    updated_value = (1 - step_size) * value
+    updated_value += step_size * jnp.mean(jax.vmap(function)(samples))
 
     return (jax.lax.stop_gradient(updated_value), i + 1)
 
-- 
2.43.0


From ae1d9b26446a0cd205ddb28d6ddd5b31be4760b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 13/28] fix: scale_by_sm3 handles scalar parameters

---
 optax/_src/transform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9f30aed..ea82a34 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -746,7 +746,9 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape]
+    # Scalars have a single accumulator, of rank 0.
+    return ([jnp.zeros([s], dtype=p.dtype) for s in p.shape]
+            or [jnp.zeros_like(p)])
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -757,6 +759,8 @@ def scale_by_sm3(
     # Replaces a `shape` of [M, N, K] with 1 in all dimensions except for i.
     # For eg: i = 1 returns [1, N, 1].
     rank = len(shape)
+    if rank == 0:
+      return []
     return [1] * axis + [shape[axis]] + [1] * (rank - axis - 1)
 
   def _new_accum(g, v):
@@ -779,7 +783,7 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(len(v))],
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -787,7 +791,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 27211e9acb3797ad685fc5850ced72e0cb56ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 14/28] fix: scale_by_sm3 handles parameters without elements

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index ea82a34..9599694 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -774,7 +774,8 @@ def scale_by_sm3(
     if g.ndim < 2:
       return g
     else:
-      return jnp.max(g, axis=other_axes(i, g.ndim))
+      # The accumulators are not negative; `initial` is for empty parameters.
+      return jnp.max(g, axis=other_axes(i, g.ndim), initial=0.)
 
   def other_axes(idx, ndim):
     return list(range(idx)) + list(range(idx+1, ndim))
-- 
2.43.0


From 75607105ef857d9f06b9282596cf78173d9bd0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 15/28] fix: onecycle schedules keep every scale when
 boundaries coincide

---
 optax/_src/schedule.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index bc647c9..b8234bf 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -292,6 +292,13 @@ def piecewise_interpolate_schedule(
   return schedule
 
 
+def _merge_boundaries(*boundaries_and_scales) -> Dict[int, float]:
+  merged = {}
+  for boundary, scale in boundaries_and_scales:
+    merged[boundary] = merged.get(boundary, 1.) * scale
+  return merged
+
+
 def linear_onecycle_schedule(
     transition_steps: int,
     peak_value: float,
@@ -329,9 +336,10 @@ def linear_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'linear',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(pct_final * transition_steps): 1. / div_factor,
-       transition_steps: 1. / final_div_factor})
+      _merge_boundaries(
+          (int(pct_start * transition_steps), div_factor),
+          (int(pct_final * transition_steps), 1. / div_factor),
+          (transition_steps, 1. / final_div_factor)))
 
 
 def cosine_onecycle_schedule(
@@ -368,8 +376,9 @@ def cosine_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'cosine',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(transition_steps): 1. / (div_factor * final_div_factor)})
+      _merge_boundaries(
+          (int(pct_start * transition_steps), div_factor),
+          (int(transition_steps), 1. / (div_factor * final_div_factor))))
 
 
 def join_schedules(schedules: Sequence[base.Schedule],
-- 
2.43.0


From 98804230fca803669dbe03a418fc3c4c1d21de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 16/28] fix: matrix_inverse_pth_root computes its matrix powers
 for every p

---
 optax/_src/linear_algebra.py | 49 ++++++++----------------------------
 1 file changed, 11 insertions(+), 38 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..4c0cdac 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -122,45 +122,18 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
-
-    Args:
-      mat_m: a square matrix
-      p: a positive integer
-
-    Returns:
-      mat_m^p
-    """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    """Computes mat_m^p, for p a positive integer, by repeated squaring."""
+    def body(state):
+      exponent, base, result = state
+      result = jnp.where(
+          exponent % 2 == 1,
+          jnp.matmul(result, base, precision=precision), result)
+      return exponent // 2, jnp.matmul(base, base, precision=precision), result
+
+    init = (jnp.asarray(p, jnp.int32), mat_m, jnp.eye(*mat_m.shape,
+                                                      dtype=mat_m.dtype))
+    return lax.while_loop(lambda state: state[0] > 0, body, init)[-1]
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From 6cc6c5d94dab8c89535c7599abf9b51f577bbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/28] fix: scale_by_stddev does not take the root of a
 negative variance

---
 optax/_src/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9599694..8a47930 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -249,8 +249,10 @@ def scale_by_stddev(
     mu = _update_moment(updates, state.mu, decay, 1)
     nu = _update_moment(updates, state.nu, decay, 2)
     updates = jax.tree_multimap(
-        lambda g, m, n: g * jax.lax.rsqrt(n - jnp.square(m) + eps), updates, mu,
-        nu)
+        # The variance is not negative, but for rounding.
+        lambda g, m, n: g * jax.lax.rsqrt(
+            jnp.maximum(n - jnp.square(m), 0.) + eps),
+        updates, mu, nu)
     return updates, ScaleByRStdDevState(mu=mu, nu=nu)
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 4ae06e36955de558bba0250ca51eaf1ea6b2a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 18/28] fix: scale_by_radam works for parameters of any
 floating point dtype

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8a47930..9303c7f 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -459,7 +459,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: r.astype(m.dtype)*m / (jnp.sqrt(v + eps_root) + eps),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 1784b4048f0d4d2928714089bfdceb9debca31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 19/28] fix: clip_by_global_norm keeps the dtype of every
 update

---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..ff18942 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(
+            trigger, t, ((t / g_norm) * max_norm).astype(t.dtype)), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From cd49f01e93119d0b5e78a0d33b5b8ed2822845db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 20/28] fix: differentially_private_aggregate keeps the dtype
 of every update

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..edb9265 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1).astype(g.dtype)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From 9a6a2ae2d8e9815022d38b96b7a35b1fedd7646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 21/28] fix: power_iteration is a function of its arguments

---
 optax/_src/linear_algebra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 4c0cdac..bf4f0dc 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -69,8 +69,10 @@ def power_iteration(
     return (i + 1, s_v, s_new, s_v,
             jnp.greater(jnp.abs(s_new - s), error_tolerance))
 
-  # Figure out how to use step as seed for random.
-  v_0 = np.random.uniform(-1.0, 1.0, matrix_size).astype(matrix.dtype)
+  # A fixed seed keeps the result a function of the arguments, and leaves the
+  # global random state alone.
+  v_0 = np.random.RandomState(1729).uniform(
+      -1.0, 1.0, matrix_size).astype(matrix.dtype)
 
   init_state = tuple([0, v_0, jnp.zeros([], dtype=matrix.dtype), v_0, True])
   _, v_out, s_out, _, _ = lax.while_loop(
-- 
2.43.0


From 3eebad3b74e05cd90c850a186e28a4a030b55d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 22/28] fix: polynomial schedules end exactly, and finite, when
 compiled

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index b8234bf..aa4bfd5 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -84,7 +84,8 @@ def polynomial_schedule(
 
   def schedule(count):
     count = jnp.clip(count - transition_begin, 0, transition_steps)
-    frac = 1 - count / transition_steps
+    # Zero at the end of the transition, however the division is rounded.
+    frac = (transition_steps - count) / transition_steps
     return (init_value - end_value) * (frac**power) + end_value
   return schedule
 
-- 
2.43.0


From 1d61aca4b9a73b8c3f440fe719189ce3ba77780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 23/28] fix: staircase exponential decay steps at the same
 counts when compiled

---
 optax/_src/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index aa4bfd5..c7eb94a 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -195,7 +195,8 @@ def exponential_decay(
     decreased_count = count - transition_begin
     p = decreased_count / transition_steps
     if staircase:
-      p = jnp.floor(p)
+      # Exact for integers, unlike rounding `p` down.
+      p = 1. * jnp.floor_divide(decreased_count, transition_steps)
     decayed_value = jnp.where(
         decreased_count <= 0, init_value, init_value * jnp.power(decay_rate, p))
     if end_value is not None:
-- 
2.43.0


From aaf1c2b61fa4af41ad2433ccef1a44147f25d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 24/28] fix: control_variates_jacobians updates the control
 variate state before estimating coefficients

The docstring promises that the state is updated (once) before the
coefficients are computed. They were computed with the old state but applied
to the control variate with the new one, so that the coefficient did not
minimise the variance (with a moving average baseline starting from zero it
was always zero).
---
 optax/_src/control_variates.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index c9776d3..8128c4d 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -273,6 +273,14 @@ def control_variates_jacobians(
   control_variate = control_variate_from_function(function)
   stochastic_cv, expected_value_cv, update_state_cv = control_variate
   data_dim = params[0].shape[0]
+
+  # The rng has to be the same as passed to the grad_estimator below so that we
+  # obtain the same samples.
+  samples = dist_builder(*params).sample((num_samples,), seed=rng)
+  # If the CV has state, update it.
+  control_variate_state = update_state_cv(
+      params, samples, control_variate_state)
+
   if estimate_cv_coeffs:
     cv_coeffs = estimate_control_variate_coefficients(
         function, control_variate_from_function, grad_estimator, params,
@@ -288,13 +296,6 @@ def control_variates_jacobians(
   # Chain rule since CVs can also depend on parameters - for example, for the
   # pathwise gradient estimator they have in order to have an effect on
   # gradient.
-  # The rng has to be the same as passed to the grad_estimator above so that we
-  # obtain the same samples.
-  samples = dist_builder(*params).sample((num_samples,), seed=rng)
-  # If the CV has state, update it.
-  control_variate_state = update_state_cv(
-      params, samples, control_variate_state)
-
   def samples_fn(x):
     return stochastic_cv(
         jax.lax.stop_gradient(params), x, control_variate_state)
-- 
2.43.0


From 6c840e63c24cfe3f5fe8ce1bbd559f61577fa95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 25/28] fix: wrapper step counters saturate instead of wrapping
 around

With 32-bit types the counters of apply_if_finite, MultiSteps and
maybe_update became negative after 2^31 - 1 steps, so that schedules and
predicates were evaluated at negative steps.
---
 optax/_src/numerics.py | 16 ++++++++++++++++
 optax/_src/wrappers.py | 13 +++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/optax/_src/numerics.py b/optax/_src/numerics.py
index 4185b18..d3b5ee1 100644
--- a/optax/_src/numerics.py
+++ b/optax/_src/numerics.py
@@ -51,3 +51,19 @@ def safe_int32_increment(count):
   one = jnp.array(1, dtype=jnp.int32)
   return jnp.where(count < max_int32_value, count + one, max_int32_value)
 
+
+def safe_increment(count):
+  """Increments an integer counter by one, staying at the maximum of its type.
+
+  Args:
+    count: a counter of any integer type to be incremented.
+
+  Returns:
+    a counter incremented by 1, or the largest value of its type if that is
+    reached.
+  """
+  count = jnp.asarray(count)
+  max_value = jnp.iinfo(count.dtype).max
+  one = jnp.array(1, dtype=count.dtype)
+  return jnp.where(count < max_value, count + one,
+                   jnp.array(max_value, dtype=count.dtype))
diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..cb4abd6 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -25,6 +25,7 @@ from jax.tree_util import tree_unflatten
 import numpy as np
 
 from optax._src import base
+from optax._src import numerics
 
 Array = jnp.ndarray
 PyTree = Any
@@ -136,7 +137,7 @@ def apply_if_finite(
     isfinite = jnp.all(
         jnp.array([jnp.all(jnp.isfinite(p)) for p in flat_updates]))
     notfinite_count = jnp.where(isfinite, jnp.zeros([], jnp.int64),
-                                1 + state.notfinite_count)
+                                numerics.safe_increment(state.notfinite_count))
 
     def do_update(_):
       return inner.update(updates, inner_state, params)
@@ -150,7 +151,9 @@ def apply_if_finite(
     return updates, ApplyIfFiniteState(
         notfinite_count=notfinite_count,
         last_finite=isfinite,
-        total_notfinite=jnp.logical_not(isfinite) + state.total_notfinite,
+        total_notfinite=jnp.where(
+            isfinite, state.total_notfinite,
+            numerics.safe_increment(state.total_notfinite)),
         inner_state=new_inner_state)
 
   return base.GradientTransformation(init=init, update=update)
@@ -242,7 +245,8 @@ class MultiSteps:
       updates, new_inner_state = self._opt.update(
           grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
-                                  gradient_step=state.gradient_step + 1,
+                                  gradient_step=numerics.safe_increment(
+                                      state.gradient_step),
                                   inner_opt_state=new_inner_state,
                                   acc_grads=_zeros_tree_like(acc_grads))
       return updates, new_state
@@ -386,7 +390,8 @@ def maybe_update(
 
     updates, new_inner_state = lax.cond(
         should_update_fn(state.step), do_update, reject_update, operand=None)
-    return updates, MaybeUpdateState(new_inner_state, state.step + 1)
+    return updates, MaybeUpdateState(new_inner_state,
+                                     numerics.safe_increment(state.step))
 
   return base.GradientTransformation(init_fn, update_fn)
 
-- 
2.43.0


From 4958a24db1886c4c55521a32a9dd562548543c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 26/28] fix: add_noise with an integer gamma does not overflow

An integer power of the int32 step count overflowed (for gamma=2 after 46340
steps), so that the variance became negative and the noise NaN.
---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 9303c7f..b3bd020 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -636,7 +636,8 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    # An integer power of an integer count would overflow.
+    variance = eta / count_inc**(1. * gamma)
     standard_deviation = jnp.sqrt(variance)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
-- 
2.43.0


From dd18e47acd28831028a1f4059e03ca0f014caabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 27/28] fix: derivatives through scale_by_trust_ratio are
 finite at zero updates

---
 optax/_src/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index b3bd020..743e32c 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -586,11 +586,13 @@ def scale_by_trust_ratio(
       # Clip norms to minimum value, by default no clipping.
       param_norm = numerics.safe_norm(param, min_norm)
       update_norm = numerics.safe_norm(update, min_norm)
-      trust_ratio = param_norm / update_norm
 
       # If no minimum norm clipping is used
       # Set trust_ratio to 1 in case where parameters would never be updated.
+      # The unused branch must not divide by zero, to keep derivatives finite.
       zero_norm = jnp.logical_or(param_norm == 0., update_norm == 0.)
+      trust_ratio = param_norm / jnp.where(
+          zero_norm, jnp.ones_like(update_norm), update_norm)
       safe_trust_ratio = jnp.where(
           zero_norm, jnp.array(1.0, dtype=param.dtype), trust_ratio)
 
-- 
2.43.0


From 345998d4d15b5132d89e5a0283c1f534f18a02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 28/28] fix: matrix_inverse_pth_root must not give up on
 correlated matrices

The early stop compared the largest entry of M - I, which grows while the
eigenvalues of a strongly correlated matrix are converging, so that the
iteration stopped at its first step. Compare the norm instead.
---
 optax/_src/linear_algebra.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index bf4f0dc..b058ca8 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -145,15 +145,18 @@ def matrix_inverse_pth_root(
     return jnp.logical_and(i < num_iters, error_above_threshold)
 
   def _iter_body(state):
-    (i, mat_m, mat_h, unused_old_mat_h, error, unused_run_step) = state
+    (i, mat_m, mat_h, unused_old_mat_h, unused_error, unused_run_step) = state
     mat_m_i = (1 - alpha) * identity + alpha * mat_m
     new_mat_m = jnp.matmul(mat_power(mat_m_i, p), mat_m, precision=precision)
     new_mat_h = jnp.matmul(mat_h, mat_m_i, precision=precision)
     new_error = jnp.max(jnp.abs(new_mat_m - identity))
     # sometimes error increases after an iteration before decreasing and
-    # converging. 1.2 factor is used to bound the maximal allowed increase.
-    return (i + 1, new_mat_m, new_mat_h, mat_h, new_error,
-            new_error < error * 1.2)
+    # converging. 1.2 factor is used to bound the maximal allowed increase. The
+    # norm is used here since the largest entry of correlated matrices grows
+    # while their eigenvalues are converging.
+    run_step = (jnp.linalg.norm(new_mat_m - identity)
+                < jnp.linalg.norm(mat_m - identity) * 1.2)
+    return (i + 1, new_mat_m, new_mat_h, mat_h, new_error, run_step)
 
   if matrix_size == 1:
     resultant_mat_h = (matrix + ridge_epsilon)**alpha
-- 
2.43.0


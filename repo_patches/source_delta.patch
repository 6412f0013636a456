From 0475a78ac9249ecb0f4e1c0690ec7b28a0a52014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 01/25] fix: step size schedule via first and last step for a
 constant step size

first == last (the default) resulted in NaNs and a single iteration in a
failing assertion.
---
 jax_sgmc/scheduler.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index e36ac60..8338779 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -508,15 +508,16 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
 
   """
 
-  # Calculates the required coefficients of the polynomial
-  def find_ab(its, gamma, first, last):
+  # The polynomial a * (b + n)^(-gamma) through the first and the last step size
+  # is evaluated in the form (a^(-1/gamma) * b + a^(-1/gamma) * n)^(-gamma),
+  # which is also well defined for a constant step size (first == last, i.e.
+  # a -> infinity).
+  def step_sizes(its, gamma, first, last):
     ginv = jnp.power(gamma, -1.0)
     fpow = jnp.power(first, -ginv) # pylint: disable=E1130
     lpow = jnp.power(last, -ginv) # pylint: disable=E1130
-    apow = jnp.divide(lpow - fpow, its - 1)
-    a = jnp.power(apow, -gamma)
-    b = jnp.power(jnp.divide(first, a), -ginv) # pylint: disable=E1130
-    return a, b
+    apow = jnp.divide(lpow - fpow, max(its - 1, 1))
+    return jnp.power(fpow + apow * jnp.arange(its), -gamma)
 
   def init_fn(iterations: int,
               first: [float, Array] = first,
@@ -527,9 +528,7 @@ def polynomial_step_size_first_last(first: [float, Array] = 1.0,
     assert gamma > 0, f"Gamma must be bigger than 0, is {gamma}"
     assert first >= last, f"The first step size must be larger than the last:" \
                          f" {first} !>= {last}"
-    a, b = find_ab(iterations, gamma, first, last)
-    init_fn, _, _ = polynomial_step_size(a=a, b=b, gamma=gamma)
-    return init_fn(iterations)
+    return step_sizes(iterations, gamma, first, last)
 
   def update_fn(state: Array, iteration: int, **kwargs) -> Array:
     del iteration, kwargs
-- 
2.43.0


From f2636d269976c1ea6fc05fc5604ac3bd88054c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/25] fix: adaptive step size uses the target acceptance rate
 of the chain

The target acceptance rate from the state was ignored.
---
 jax_sgmc/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 8338779..1857193 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -422,7 +422,7 @@ def adaptive_step_size(burn_in = 0,
     m = iteration + 1
 
     h_bar *= (1 - 1/(m + t0))
-    h_bar += 1/(m + t0) * (target_acceptance_rate - acceptance_ratio)
+    h_bar += 1/(m + t0) * (alpha - acceptance_ratio)
 
     x = mu - jnp.sqrt(m) / gamma * h_bar
 
-- 
2.43.0


From 4abc45fa60b9f15a4147b0b204231147683dd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/25] fix: variance of the stochastic potential in the
 langevin integrator

The variance of the likelihoods has to be scaled like the stochastic potential,
otherwise the correction of the replica exchange swaps is too small.
---
 jax_sgmc/integrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 09df0a3..65cc89b 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -877,7 +877,10 @@ def langevin_diffusion(
       mini_batch,
       state=state.model_state,
       likelihoods=True)
-    variance = jnp.var(likelihoods)
+    # The stochastic potential is the mean likelihood scaled to the full dataset
+    _, mb_information = mini_batch
+    variance = (mb_information.observation_count ** 2
+                / mb_information.batch_size * jnp.var(likelihoods))
 
     scaled_gradient = tree_scale(-parameters.step_size, gradient)
     scaled_noise = tree_scale(
-- 
2.43.0


From ddfb19073e9933c44c6a4ca5dee2edfe2b103bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 04/25] fix: parallel tempering swaps the chains if the swap is
 accepted

---
 jax_sgmc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index d1db1d3..a6080a5 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -286,8 +286,8 @@ def parallel_tempering(integrator,
     # Swap the chains at random
     (normal_chain, hot_chain) = lax.cond(
       log_u < log_s,
-      lambda cold_hot: cold_hot,
       lambda cold_hot: (cold_hot[1], cold_hot[0]),
+      lambda cold_hot: cold_hot,
       (normal_chain, hot_chain))
 
     return (normal_chain, hot_chain, ssq_estimate, F, step, key), None
-- 
2.43.0


From 5824cbfb26f6244fa6763c813bda5d8f28307514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 05/25] fix: scale noise of friction leapfrog with square root
 of the friction

The injected noise has the covariance 2 * step_size * friction.
---
 jax_sgmc/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 65cc89b..32d31f1 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -651,7 +651,8 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     else:
       noise_state = None
       scaled_noise = tree_scale(jnp.sqrt(2 * parameters.step_size), noise)
-      scaled_noise = tree_multiply(friction, scaled_noise)
+      scaled_noise = tree_multiply(
+        tree_util.tree_map(jnp.sqrt, friction), scaled_noise)
     new_momentum = tree_add(new_momentum, scaled_noise)
 
     new_state = LeapfrogState(
-- 
2.43.0


From f8145d6b955820198bd2d22f536bd5042b018353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 06/25] fix: square root of the non-diagonal adapted mass
 matrix

The square root of the mass matrix is the inverse square root of the
adapted covariance.
---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index 8576e17..abd1ae2 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -315,7 +315,8 @@ def mass_matrix(diagonal=True, burn_in=1000):
       inv = ssq / iteration
       eigw, eigv = jnp.linalg.eigh(ssq / iteration)
       # Todo: More effective computation
-      sqrt = jnp.matmul(jnp.transpose(eigv), jnp.matmul(jnp.diag(jnp.sqrt(eigw)), eigv))
+      sqrt = jnp.matmul(
+        eigv, jnp.matmul(jnp.diag(1 / jnp.sqrt(eigw)), jnp.transpose(eigv)))
     return inv, sqrt
 
   def init(sample: Array, init_cov: Array):
-- 
2.43.0


From 41fd4f3d827c1080ac4124f3dc9e0dd47a2c489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 07/25] fix: initialize mass matrix without initial covariance

None was flattened to an empty array.
---
 jax_sgmc/adaption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index abd1ae2..b190003 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -134,7 +134,8 @@ def _adaption(adaption_fn: Callable, quantity: namedtuple = tuple):
       unravel_fn = get_unravel_fn(x0)
 
       x0_flat = ravel_fn(x0)
-      init_flat = map(ravel_fn, init_args)
+      # Arguments which are not provided must not be flattened
+      init_flat = (None if arg is None else ravel_fn(arg) for arg in init_args)
       state = init(x0_flat, *init_flat, **init_kwargs)
 
       # Wrap the potential in a flatten function if potential is provided as
-- 
2.43.0


From efcace4b6fe3b44964e65107062bb99bb25a4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 08/25] fix: order of the dictionary keys must match the order
 of the pytree leaves

The keys were returned in the order of the leaves of the dictionary, such that
leaves of e.g. namedtuples with unsorted fields or lists with more than ten
elements were interchanged.
---
 jax_sgmc/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index bc07d97..2011060 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -170,9 +170,11 @@ def pytree_dict_keys(tree: PyTree):
       [('a', 'list_element_0'), ('a', 'list_element_1'), ('b',)]
 
   """
-  node = pytree_to_dict(tree)
-  leaves, treedef = tree_util.tree_flatten(node)
-  idx_tree = tree_util.tree_unflatten(treedef, list(range(len(leaves))))
+  # The order of the leaves in the original tree and in the dict might differ,
+  # as the keys of the dict are sorted.
+  leaves, treedef = tree_util.tree_flatten(tree)
+  idx_tree = pytree_to_dict(
+    tree_util.tree_unflatten(treedef, list(range(len(leaves)))))
   key_list = [None] * len(leaves)
   def _recurse(node, path):
     if node is None:
-- 
2.43.0


From 6e1f9bf8b6609d1fbbc1a98ae6fcce102f629439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 09/25] fix: return the collected samples after they have been
 written to the disk

---
 jax_sgmc/io.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 2011060..b959d98 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -583,14 +583,17 @@ class MemoryCollector(DataCollector):
 
     """
     # Is called after all host callback calls have been processed
-    self._finished[chain_id].release()
-    if self._dir:
-      output_dir = Path(self._dir)
-      output_file = output_dir / f"chain_{chain_id}.npz"
-      output_dir.mkdir(exist_ok=True)
-      onp.savez(
-        output_file,
-        **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    try:
+      if self._dir:
+        output_dir = Path(self._dir)
+        output_file = output_dir / f"chain_{chain_id}.npz"
+        output_dir.mkdir(exist_ok=True)
+        onp.savez(
+          output_file,
+          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+    finally:
+      # The run must not return before the samples have been written
+      self._finished[chain_id].release()
 
   def finished(self, chain_id):
     """Returns samples after all data has been processed.
-- 
2.43.0


From 7a1b58df8721763cbb9fd542b28ad37c30d4ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 10/25] fix: loading a checkpoint of the NumpyDataLoader must
 not modify it

The checkpoint was emptied and shared memory with the state of the chain, such
that it could not be loaded twice.
---
 jax_sgmc/data/numpy_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/numpy_loader.py b/jax_sgmc/data/numpy_loader.py
index 02b84eb..63540ee 100644
--- a/jax_sgmc/data/numpy_loader.py
+++ b/jax_sgmc/data/numpy_loader.py
@@ -217,7 +217,8 @@ class NumpyDataLoader(NumpyBase, HostDataLoader):
     """
     # Restore the state by setting the random number generators to the
     # checkpointed state
-    type, value = data.popitem()
+    # The checkpoint must remain valid, as it might be loaded again
+    (type, value), = deepcopy(data).items()
     if type == 'random':
       rng_state, chain_data = value
       self._chains[chain_id]['rng'].bit_generator.state = rng_state
-- 
2.43.0


From 5f18af54d020c81d742a0d3e0c5f02499b3fb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 11/25] fix: serve data after warning about an invalid request
 in non-strict mode

The request failed with an UnboundLocalError.
---
 jax_sgmc/data/core.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index a478fc9..0ee0dbd 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -435,22 +435,21 @@ class _Requests:
         else:
           self._cached_requests[token.as_uuid][0] -= 1
 
-      # Check if token is invalid
-      elif current_token != token.as_uuid and current_token is not None:
-        if strict:
-          raise RuntimeError(f"Invalid request for "
-                             f"chain {chain_id}. This might be due to using a "
-                             f"pmap in a jitted function. See "
-                             f"usage/data.html#combining-pmap-and-jit in the "
-                             f"docs.")
-        warnings.warn(f"Invalid request for chain "
-                      f"{chain_id}. This might be due to using a pmap in a "
-                      f"jitted function. If the preservation ")
-
-      # The request is valid and the first request, so the results have to be
-      # stored in the cache
       else:
-        # Issue a new token and request data
+        # Check if token is invalid
+        if current_token != token.as_uuid and current_token is not None:
+          if strict:
+            raise RuntimeError(f"Invalid request for "
+                               f"chain {chain_id}. This might be due to using a "
+                               f"pmap in a jitted function. See "
+                               f"usage/data.html#combining-pmap-and-jit in the "
+                               f"docs.")
+          warnings.warn(f"Invalid request for chain "
+                        f"{chain_id}. This might be due to using a pmap in a "
+                        f"jitted function. If the preservation ")
+
+        # The request is the first request, so the results have to be stored in
+        # the cache. Issue a new token and request data
         new_token = JaxUUID()
         callback_response = self._host_data_loaders[callback_uuid.as_uuid].get_batches(chain_id)
 
-- 
2.43.0


From e4a9b2f0091ee55497155a19fedcdb50d3afc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 12/25] fix: full data mapper for unbatched functions with
 carry

take_along_axis does not accept scalar indices.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 0ee0dbd..5a3f7f5 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -1097,7 +1097,7 @@ def full_data_mapper(data_loader: DataLoader = None,
             state = None
           else:
             state = tree_util.tree_map(
-              partial(jnp.take_along_axis, indices=0, axis=0),
+              lambda leaf: leaf[0],
               states)
           return results, state
 
-- 
2.43.0


From 5f834641067b37ae0f70680e7968883201830013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 13/25] fix: use batch size for full reference data on device

The cache size has been used as batch size.
---
 jax_sgmc/data/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 5a3f7f5..70fbde7 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -549,7 +549,7 @@ def full_reference_data(data_loader: DataLoader,
       data_loader, cached_batches_count, mb_size)
   elif isinstance(data_loader, DeviceDataLoader):
     init_fn, (_batch_fn, mb_information), cleanup = _full_reference_data_device(
-      data_loader, cached_batches_count)
+      data_loader, mb_size)
   else:
     raise TypeError("The DataLoader must inherit from HostDataLoader or "
                     "DeviceDataLoader")
-- 
2.43.0


From ed4d134be2c76e23cadf98054ec70bc02a5ee891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 14/25] fix: full data mapper for data on the device

The initial state has not been an array and the results of a second mapping
were not in the order of the observations.
---
 jax_sgmc/data/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/data/core.py b/jax_sgmc/data/core.py
index 70fbde7..36167cc 100644
--- a/jax_sgmc/data/core.py
+++ b/jax_sgmc/data/core.py
@@ -933,7 +933,7 @@ def _full_reference_data_device(data_loader: DeviceDataLoader,
                        f"observation count. Given {offset} and "
                        f"{total_observations}.")
 
-    init_state = CacheState(current_line=offset)
+    init_state = CacheState(current_line=jnp.array(offset))
     return init_state
 
   def batch_fn(data_state: CacheState,
@@ -967,6 +967,10 @@ class _FullDataHelper:
     self._init_fn, self._map_fn, self._cleanup_fn = full_reference_data(
       data_loader, cache_size, batch_size)
 
+    # On the device, the next pass does not start at the first observation if
+    # the batch size is not a divisor of the observation count.
+    self._restart = isinstance(data_loader, DeviceDataLoader)
+
     # Initialize the first cache state to compute the shape of the CacheState
     self._unused_states = [self._new_cache_state()]
     self._cache_state_format = tree_util.tree_map(
@@ -994,6 +998,8 @@ class _FullDataHelper:
 
   def free_cache_state(self, cache_state: CacheState) -> Array:
     """Adds cache state back to the unused cache states."""
+    if self._restart:
+      cache_state = self._new_cache_state()
     with self._lock:
       self._unused_states.append(cache_state)
     return jnp.array(1.0)
-- 
2.43.0


From 980995982e4f2e099f14e9a2585b9966566131ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 15/25] fix: center empirical fisher information

The gradient of the potential has the opposite sign of the gradient of the
likelihoods.
---
 jax_sgmc/adaption.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index b190003..a573ff1 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -409,8 +409,9 @@ def fisher_information(minibatch_potential: Callable = None,
     N = mb_information.observation_count
     n = mb_information.batch_size
 
-    # Unscale the gradient to get mean
-    sample_grad /= N
+    # Unscale the gradient of the potential (negative log-likelihood) to get the
+    # mean gradient of the likelihood
+    sample_grad /= -N
 
     def potential_at_obs(smp, obs_idx):
       _, (likelihoods, _) = flat_potential(
-- 
2.43.0


From f7ecd9cb87210068f400cebd530cb0bed402bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 16/25] fix: matrix square root of the non-diagonal empirical
 fisher information

---
 jax_sgmc/adaption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/adaption.py b/jax_sgmc/adaption.py
index a573ff1..dce7851 100644
--- a/jax_sgmc/adaption.py
+++ b/jax_sgmc/adaption.py
@@ -452,8 +452,8 @@ def fisher_information(minibatch_potential: Callable = None,
       u_cb, s_cb, _ = jnp.linalg.svd(jnp.diag(friction) - b)
       u, s, _ = jnp.linalg.svd(b)
 
-      noise_scale = jnp.dot(u_cb, jnp.sqrt(s_cb))
-      scale = jnp.dot(u, jnp.sqrt(s))
+      noise_scale = jnp.dot(u_cb, jnp.diag(jnp.sqrt(s_cb)))
+      scale = jnp.dot(u, jnp.diag(jnp.sqrt(s)))
 
     return noise_scale, scale
 
-- 
2.43.0


From 02c26bba8235786e9d1df936e654f68362674c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 17/25] fix: batched likelihood for batches with a single
 observation

---
 jax_sgmc/potential.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/potential.py b/jax_sgmc/potential.py
index 2215471..75e77db 100644
--- a/jax_sgmc/potential.py
+++ b/jax_sgmc/potential.py
@@ -133,8 +133,9 @@ def minibatch_potential(prior: Prior,
     else:
       lks = likelihood(sample, reference_data)
       state = None
-    # Ensure that a scalar is returned to avoid broadcasting with mask
-    return jnp.squeeze(lks), state
+    # Ensure that a scalar (or one value per observation) is returned to avoid
+    # broadcasting with mask
+    return (jnp.ravel(lks) if is_batched else jnp.squeeze(lks)), state
 
   # Define the strategies to evaluate the likelihoods sequantially, vectorized
   # or in parallel
-- 
2.43.0


From 74236f334addedbfaa6f1ca1415510b6f4476a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 18/25] fix: vectorized chains must not save samples that are
 not to be kept

---
 jax_sgmc/io.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index b959d98..0762cbd 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -689,22 +689,26 @@ def save(data_collector: DataCollector = None,
   # Helper functions for host_callback
 
   def _save(data, *unused_args):
-    chain_ids, data = data
+    chain_ids, keep, data = data
 
     # id_tap sends batched arguments to the host
     if chain_ids.ndim == 0:
       data_collector.save(chain_ids, data)
     else:
+      # The cond is replaced by a select under vmap. Hence, this function is
+      # also called for samples that should not be saved.
+      keep = onp.broadcast_to(keep, chain_ids.shape)
       for idx, chain_id in enumerate(chain_ids):
-        data_collector.save(chain_id, [leaf[idx] for leaf in data])
+        if keep[idx]:
+          data_collector.save(chain_id, [leaf[idx] for leaf in data])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
     # used to avoid losing the call to Jax's optimizations.
     # Only return the leaves, as tree structure is redundant and requires
     # flattening on the host.
-    chain_id, data = args
-    flat_args = (chain_id, tree_util.tree_leaves(data))
+    chain_id, keep, data = args
+    flat_args = (chain_id, keep, tree_util.tree_leaves(data))
     counter = host_callback.id_tap(_save, flat_args, result=1)
     return counter
 
@@ -737,7 +741,7 @@ def save(data_collector: DataCollector = None,
     return lax.cond(keep,
                     _save_wrapper,
                     lambda *args: 0,
-                    (state.chain_id, sample))
+                    (state.chain_id, keep, sample))
 
   # Todo: Generalize the saving by contracting the scheduler state and the
   #       solver state to a single checkpointing state.
-- 
2.43.0


From 845de5094e0285346e8899c09fc687cd30212d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 19/25] fix: vectorized chains must save values shared by all
 chains completely

---
 jax_sgmc/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 0762cbd..1a45026 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -688,7 +688,7 @@ def save(data_collector: DataCollector = None,
 
   # Helper functions for host_callback
 
-  def _save(data, *unused_args):
+  def _save(data, transforms):
     chain_ids, keep, data = data
 
     # id_tap sends batched arguments to the host
@@ -698,9 +698,15 @@ def save(data_collector: DataCollector = None,
       # The cond is replaced by a select under vmap. Hence, this function is
       # also called for samples that should not be saved.
       keep = onp.broadcast_to(keep, chain_ids.shape)
+      # Values shared by all chains are not batched
+      (_, params), = transforms
+      _, _, *batch_dims = params["batch_dims"]
       for idx, chain_id in enumerate(chain_ids):
         if keep[idx]:
-          data_collector.save(chain_id, [leaf[idx] for leaf in data])
+          data_collector.save(
+            chain_id,
+            [leaf[idx] if isinstance(dim, int) else leaf
+             for leaf, dim in zip(data, batch_dims)])
 
   def _save_wrapper(args) -> int:
     # Use the result to count the number of saved samples. The result must be
-- 
2.43.0


From baa7ee4e138e557a84d6a501185eec5261fabbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 20/25] fix: conversion of pytrees with empty nodes to
 dictionaries

---
 jax_sgmc/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index 1a45026..da52369 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -136,8 +136,8 @@ def pytree_to_dict(tree: PyTree):
 
   """
   global _dictionize_rules
-  pytree_def = tree_util.tree_structure(tree)
-  if tree_util.treedef_is_leaf(pytree_def):
+  # Empty nodes are not leaves, although their structure is a single node
+  if tree is None or tree_util.all_leaves([tree]):
     return tree
   else:
     return {key: pytree_to_dict(childs)
-- 
2.43.0


From 223d4db254fa4916496f8df63f40620dbe28e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 21/25] fix: collectors must accept samples with keys other
 than strings

---
 jax_sgmc/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index da52369..d6d491b 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -442,7 +442,7 @@ class HDF5Collector(DataCollector):
 
     chain_id = len(self._finished)
     # Save the pytree as it would be transformed to a dict by pytree_to_dict
-    leaf_names = ["/".join(itertools.chain([f"/chain~{chain_id}"], key_tuple))
+    leaf_names = ["/".join(map(str, (f"/chain~{chain_id}", *key_tuple)))
                   for key_tuple in pytree_dict_keys(init_sample)]
     leaves = tree_util.tree_leaves(init_sample)
     # Allocate memory upfront, this is more effective than the chunk-wise
@@ -559,7 +559,8 @@ class MemoryCollector(DataCollector):
     self._samples.append(sample_cache)
     self._treedefs.append(treedef)
     self._samples_count.append(0)
-    self._leafnames.append(["/".join(key_tuple) for key_tuple in pytree_keys])
+    self._leafnames.append(
+      ["/".join(map(str, key_tuple)) for key_tuple in pytree_keys])
     return chain_id
 
   def save(self, chain_id: int, values):
-- 
2.43.0


From 3e002fde208e9f2d311b854ca001a7a1267d42d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 22/25] fix: memory collector must accept leaves named like
 arguments of numpy.savez

---
 jax_sgmc/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/io.py b/jax_sgmc/io.py
index d6d491b..1e1ef8f 100644
--- a/jax_sgmc/io.py
+++ b/jax_sgmc/io.py
@@ -29,6 +29,7 @@ import itertools
 from pathlib import Path
 from functools import partial
 import threading
+import zipfile
 
 from typing import Any, Union, Tuple, Callable, Type, Dict, NoReturn
 
@@ -589,9 +590,12 @@ class MemoryCollector(DataCollector):
         output_dir = Path(self._dir)
         output_file = output_dir / f"chain_{chain_id}.npz"
         output_dir.mkdir(exist_ok=True)
-        onp.savez(
-          output_file,
-          **dict(zip(self._leafnames[chain_id], self._samples[chain_id])))
+        # Keyword arguments of savez cannot take all names, e. g. "file"
+        with zipfile.ZipFile(output_file, "w") as npz:
+          for name, leaf in zip(self._leafnames[chain_id],
+                                self._samples[chain_id]):
+            with npz.open(f"{name}.npy", "w", force_zip64=True) as file:
+              onp.lib.format.write_array(file, leaf)
     finally:
       # The run must not return before the samples have been written
       self._finished[chain_id].release()
-- 
2.43.0


From baf67a74f06dcd27f30dbd6dda925f8c00fe38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 23/25] fix: progress bar for vectorized chains

---
 jax_sgmc/scheduler.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/jax_sgmc/scheduler.py b/jax_sgmc/scheduler.py
index 1857193..9dfa4f3 100644
--- a/jax_sgmc/scheduler.py
+++ b/jax_sgmc/scheduler.py
@@ -25,6 +25,8 @@ schedulers.
 from collections import namedtuple
 from typing import Callable, Tuple
 
+import numpy as onp
+
 import jax.numpy as jnp
 from jax import lax
 from jax import random
@@ -309,13 +311,19 @@ def _progress_bar(burn_in: specific_scheduler,
   """
 
   def _print_fn(info, _):
-    percentage = round(
-      int(info['current_iteration']) / int(info['total_iterations']) * 100)
-    total_samples = int(info["total_samples"])
-    collected_samples = int(info["collected_samples"])
-    current_iteration = int(info["current_iteration"])
-    total_iterations = int(info["total_iterations"])
-
+    # The values of all chains arrive at once in each iteration if the chains
+    # are vectorized
+    rows = onp.broadcast_arrays(*(
+      onp.ravel(info[name]) for name in
+      ("show", "current_iteration", "total_iterations", "collected_samples",
+       "total_samples")))
+    for show, *values in zip(*rows):
+      if show:
+        _print_progress(*map(int, values))
+
+  def _print_progress(current_iteration, total_iterations, collected_samples,
+                      total_samples):
+    percentage = round(current_iteration / total_iterations * 100)
     print(f"[Step {current_iteration}/{total_iterations}]"
           f"({percentage}%) Collected {collected_samples} of "
           f"{total_samples} samples...")
@@ -343,7 +351,12 @@ def _progress_bar(burn_in: specific_scheduler,
     saved = sample_burn_in * sample_accepted
     collected_samples += saved
 
+    # Calculate number of steps until the progress should be printed out
+    num_its = jnp.int_(jnp.floor(iterations / steps))
+    show = jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled)
+
     info = {
+      "show": show,
       "total_iterations": iterations,
       "current_iteration": iteration,
       "total_samples": tot_samples,
@@ -351,12 +364,9 @@ def _progress_bar(burn_in: specific_scheduler,
       "kwargs": kwargs
     }
 
-    # Calculate number of steps until the progress should be printed out
-    num_its = jnp.int_(jnp.floor(iterations / steps))
-
     # Return the number of collected samples as result of id_tap
     collected_samples = lax.cond(
-      jnp.logical_and(jnp.mod(iteration, num_its) == 0, enabled),
+      show,
       lambda arg: hcb.id_tap(_print_fn, arg, result=collected_samples),
       lambda arg: info["collected_samples"],
       info
-- 
2.43.0


From 5a2fdd36cc9a13bc0e661ba93478fb51cd8191e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:47 +0000
Subject: [PATCH 24/25] fix: accept a constant mass for samples which are a
 single array

The truth value of an array was taken to find out if a mass is given, which
raises an error if sample and mass are bare arrays with several entries.
---
 jax_sgmc/integrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_sgmc/integrator.py b/jax_sgmc/integrator.py
index 32d31f1..9cd66e1 100644
--- a/jax_sgmc/integrator.py
+++ b/jax_sgmc/integrator.py
@@ -166,7 +166,7 @@ def obabo(potential_fn: StochasticPotential,
   stochastic_gradient = value_and_grad(potential_fn, argnums=0, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -375,7 +375,7 @@ def reversible_leapfrog(potential_fn: StochasticPotential,
   stochastic_gradient = grad(potential_fn, has_aux=True)
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
@@ -595,7 +595,7 @@ def friction_leapfrog(potential_fn: StochasticPotential,
     init_noise_model, update_noise_model, get_noise_model = noise_model
 
   # Calculate the inverse and the square root
-  if const_mass:
+  if const_mass is not None:
     const_mass = init_mass(const_mass)
   else:
     const_mass = None
-- 
2.43.0


From 886a2ea4c977de18610a5f68fef41893e0eddd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:34 +0000
Subject: [PATCH 25/25] fix: reject proposals with an undefined energy balance

---
 jax_sgmc/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_sgmc/solver.py b/jax_sgmc/solver.py
index a6080a5..3c3f021 100644
--- a/jax_sgmc/solver.py
+++ b/jax_sgmc/solver.py
@@ -384,6 +384,8 @@ def amagold(integrator_fn,
     # Limit acceptance ratio to 1.0
     log_alpha = state.potential - new_potential + proposal.potential
     log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Proposals with an undefined energy, e. g. after a divergence, are rejected
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
     slice = random.uniform(split)
 
     # If true, the step is accepted
@@ -523,7 +525,9 @@ def sggmc(integrator_fn,
       + proposal.kinetic_energy_end - proposal.kinetic_energy_start)
     # Limit the probability to 1.0 to ensure correct calculation of acceptance
     # ratio statistics.
-    log_alpha = jnp.where(log_alpha <= 0, log_alpha, 0.0)
+    log_alpha = jnp.where(log_alpha > 0.0, 0.0, log_alpha)
+    # Proposals with an undefined energy, e. g. after a divergence, are rejected
+    log_alpha = jnp.where(jnp.isnan(log_alpha), -jnp.inf, log_alpha)
 
     slice = random.uniform(split)
 
-- 
2.43.0


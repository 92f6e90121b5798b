From b3b4e8fcae6b4da57cd99f85b5a919b6fd3e22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 01/28] fix: vectorize must not rely on the removed alias
 np.int

With a current numpy, np.int does not exist, so vectorize fails on every
input and no sampler can be constructed at all.
---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From af240b28c33bff8b7a68af0cb3bbc4a7d7a50a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 02/28] fix: SGLDSampler ignored the stepsize schedule it was
 given

The schedule was never passed on to the base class, so every SGLD chain
ran with the base class default of 0.01.
---
 pysgmcmc/samplers/sgld.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..d3536ec 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -95,6 +95,7 @@ class SGLDSampler(BurnInMCMCSampler):
 
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
+            stepsize_schedule=stepsize_schedule,
             burn_in_steps=burn_in_steps, seed=seed,
             session=session, dtype=dtype
         )
-- 
2.43.0


From 2afb22ccf9d9e1f4c831dc6c9fc5438451499724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 03/28] fix: burn-in samplers dropped the caller's feed_dict
 after burn-in

The dictionary was replaced by the tuned mass matrix instead of being
extended by it.
---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 103ea15d2b24c70ef632c5ffb12984104bb68d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 04/28] fix: generate_shuffled_batches reordered the caller's
 dataset in place

Minibatches are views into `x` and `y`, so shuffling them in place shuffled
the user's arrays; two generators with the same seed over the same arrays
therefore yielded different batches.
---
 pysgmcmc/data_batches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..34cdcd7 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,9 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches are views into the dataset, never shuffle the dataset itself
+        batch = {key: data.copy() for key, data in batch.items()}
+
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From 4fd80268b9757c49d2dd42f39eb789220d4ffd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 05/28] fix: PYSGMCMCTrace.from_sampler ignored keep_every

Keep every `keep_every`th sample, as documented (and as done by
docs/source/experiments/compute_ess.py).
---
 pysgmcmc/diagnostics/sample_chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..0eade3a 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,8 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in
+            islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From 9de7f57295ad0ca4e782bbcfd1a32c50d1a601de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 06/28] fix: evaluate cost and all gradients before any
 parameter is updated

Nothing ordered the update of one parameter after the evaluation of the cost
and of the gradients of the other parameters. Depending on the schedule of the
tensorflow executor, the returned cost belonged to the new parameters and a
gradient was evaluated at partially updated parameters.
---
 pysgmcmc/samplers/relativistic_sghmc.py | 11 +++++++----
 pysgmcmc/samplers/sghmc.py              |  4 +++-
 pysgmcmc/samplers/sgld.py               |  4 +++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..12eacca 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -134,10 +134,13 @@ class RelativisticSGHMCSampler(MCMCSampler):
                 tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
-            self.theta_t[i] = tf.assign(
-                param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
-            )
+            # no parameter may change before the cost and *all*
+            # gradients were evaluated at the current parameters
+            with tf.control_dependencies([self.cost] + grads):
+                self.theta_t[i] = tf.assign(
+                    param,
+                    unvectorize(vectorized_theta_t, original_shape=param.shape)
+                )
 
 
 def _sample_relativistic_momentum(m, c, n_params,
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..d527910 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -197,7 +197,9 @@ class SGHMCSampler(BurnInMCMCSampler):
 
             #  }}} Burn-in logic #
 
-                    with tf.control_dependencies([g_t, v_hat_t]):
+                    # no parameter may change before the cost and *all*
+                    # gradients were evaluated at the current parameters
+                    with tf.control_dependencies([g_t, v_hat_t, self.cost] + grads):
 
                         #  Draw random normal sample {{{ #
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index d3536ec..e1d18e8 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -181,7 +181,9 @@ class SGLDSampler(BurnInMCMCSampler):
                     )
 
             #  }}} Burn-in logic #
-                    with tf.control_dependencies([g_t, v_hat_t]):
+                    # no parameter may change before the cost and *all*
+                    # gradients were evaluated at the current parameters
+                    with tf.control_dependencies([g_t, v_hat_t, self.cost] + grads):
                         #  Draw random sample {{{ #
 
                         sigma = safe_sqrt(
-- 
2.43.0


From aed0c39c83f8ec9ddbdd777ae3b3af99ba167bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 07/28] fix: seeded samplers injected identical noise into all
 parameters

All random operations of a sampler were created with the same seed, so that
parameters of the same shape always received exactly the same noise.
---
 pysgmcmc/samplers/base_classes.py       | 12 +++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..b582320 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -84,6 +84,9 @@ class MCMCSampler(object):
 
         self.seed = seed
 
+        # number of noise tensors drawn so far, see `_draw_noise_sample`
+        self._n_noise_samples = 0
+
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
         assert hasattr(stepsize_schedule, "initial_value")
@@ -215,8 +218,15 @@ class MCMCSampler(object):
             standard deviation `Sigma`.
 
         """
+        seed = self.seed
+        if seed is not None:
+            # random operations with the same seed draw the same numbers,
+            # give the noise of each parameter a stream of its own
+            seed += 104729 * self._n_noise_samples
+        self._n_noise_samples += 1
+
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=seed
         )
 
     # Conform to iterator protocol.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 12eacca..9bedd96 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = self._draw_noise_sample(
+                sigma=tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)),
+                shape=vectorized_param.shape
+            )
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From dd684eeb66ed49cae9e61d684d93b381b2c5c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 08/28] fix: SVGD particles attracted each other instead of
 repelling

`lnpgrad` is the gradient of the cost (the *negative* log likelihood) and the
update is subtracted, hence the repulsive kernel gradient needs the opposite
sign of the cost gradient. With the wrong sign all particles collapse.
---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..458fe7d 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 70f3421756533b5c71ab6a9360772b8083bbefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 09/28] fix: a second SVGDSampler could not be constructed in
 the same graph

`tf.get_variable` refuses to create a second variable with the same name.
---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 458fe7d..de06206 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype),
+            dtype=dtype, name="historical_grad", trainable=False
         )
 
         self.session.run(
-- 
2.43.0


From 848e74a09529b7cb57f9129a7971c75c1fdcbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 10/28] fix: SVGDSampler failed for particles with a single
 dimension

Squeezing the gradient also removed the dimension of the particles.
---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index de06206..03f55af 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad, = tf.gradients(self.cost, self.particles)
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From 4ab8031b191357126726beb72b76dad71ca143a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 11/28] fix: samplers did not find the default session

The default argument is evaluated when the module is imported, at which time
there is no default session; constructing a sampler without an explicit
session always failed.
---
 pysgmcmc/samplers/base_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index b582320..f407232 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -73,6 +73,9 @@ class MCMCSampler(object):
         assert batch_generator is None or hasattr(batch_generator, "__next__")
         assert seed is None or isinstance(seed, int)
 
+        if session is None:
+            session = tf.get_default_session()
+
         assert isinstance(session, (tf.Session, tf.InteractiveSession))
         assert isinstance(dtype, tf.DType)
 
-- 
2.43.0


From 5e2f87296ba6b2a330e5e01209a2a390f511ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 12/28] fix: sampler steps must start from the current
 parameter values

The update was applied to a vectorized clone of the parameter, made when the
sampler was constructed, while gradients were evaluated at the parameter
itself. After `tf.global_variables_initializer()` (which re-draws random
initial values) or any other assignment to a parameter, the next step jumped
back to the stale clone.
---
 pysgmcmc/samplers/relativistic_sghmc.py | 3 ++-
 pysgmcmc/samplers/sghmc.py              | 5 +++--
 pysgmcmc/samplers/sgld.py               | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 9bedd96..4692a06 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -132,8 +132,9 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
+            vectorized_theta_t = tf.assign(
                 vectorized_param,
+                tf.reshape(param, vectorized_param.shape) +
                 tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d527910..a54d79d 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -240,8 +240,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
+                        vectorized_Theta_t = tf.assign(
+                            vectorized_param,
+                            tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
                         self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index e1d18e8..93d932e 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -201,8 +201,9 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
+                        vectorized_theta_t = tf.assign(
                             vectorized_param,
+                            tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
                         self.theta_t[i] = tf.assign(
-- 
2.43.0


From 5f3a9f0ff26dc18c021aa6b74595538253054d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 13/28] fix: RelativisticSGHMCSampler supported only scalar
 parameters

There was a single momentum value per parameter; parameters with more than one
element failed with a shape error.
---
 pysgmcmc/samplers/relativistic_sghmc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 4692a06..5c8460c 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -105,11 +105,14 @@ class RelativisticSGHMCSampler(MCMCSampler):
         D = tf.constant(D, dtype=dtype)
         b_hat = tf.constant(Bhat, dtype=dtype)
 
+        # one momentum value for each element of each target parameter
+        n_elements = [int(param.shape[0]) for param in self.vectorized_params]
+        momentum_samples = iter(_sample_relativistic_momentum(
+            m=mass, c=speed_of_light, n_params=sum(n_elements), seed=self.seed
+        ))
         momentum = [
-            tf.Variable(momentum_sample, dtype=dtype)
-            for momentum_sample in _sample_relativistic_momentum(
-                m=mass, c=speed_of_light, n_params=len(self.params), seed=self.seed
-            )
+            tf.Variable([[next(momentum_samples)] for _ in range(n)], dtype=dtype)
+            for n in n_elements
         ]
 
         # In internal implementation, stick to mathematical formulas.
-- 
2.43.0


From 7bac8cdc89f28d0a8f0ed319580b3364dd8c8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 14/28] fix: burn-in samples of a single parameter were not
 unraveled

A chain over a single parameter returned one-element lists during burn-in and
bare values afterwards.
---
 pysgmcmc/samplers/base_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index f407232..001270b 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -453,6 +453,10 @@ class BurnInMCMCSampler(MCMCSampler):
                 feed_dict=feed_dict
             )
 
+            if len(params) == 1:
+                # unravel single-element lists to scalars
+                params = params[0]
+
             self.stepsize_schedule.update(params, cost)
 
             self.n_iterations += 1
-- 
2.43.0


From 5c62786546adebfcbc7db22ce51e52384340caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 15/28] fix: PYSGMCMCTrace.from_sampler failed for a single
 non-scalar parameter

---
 pysgmcmc/diagnostics/sample_chains.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 0eade3a..37d9767 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -169,6 +169,10 @@ class PYSGMCMCTrace(object):
             islice(sampler, 0, n_samples * keep_every, keep_every)
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel samples of a single target parameter
+            samples = [[sample] for sample in samples]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From b9f6db43ad5c84309c34e9ac1aff65f81d2858a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 16/28] fix: BNN predictions were wrong for networks with a
 single parameter

---
 pysgmcmc/models/bayesian_neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..632e4a0 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -524,6 +524,9 @@ class BayesianNeuralNetwork(object):
                 )
 
                 # collect sample
+                if len(self.network_params) == 1:
+                    # samplers unravel samples of a single target parameter
+                    parameter_values = [parameter_values]
                 self.samples.append(parameter_values)
 
                 if len(self.samples) == self.n_nets:
-- 
2.43.0


From 2e4328643f2bdb8a13c4001269b2c64388c47b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 17/28] fix: pymc3_multitrace reset the state of already
 burnt-in samplers

---
 pysgmcmc/diagnostics/sample_chains.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 37d9767..6cf790a 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -10,6 +10,8 @@ import numpy as np
 import pymc3
 import logging
 
+from pysgmcmc.tensor_utils import uninitialized_params
+
 
 class PYSGMCMCTrace(object):
     """
@@ -375,7 +377,10 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # keep the state of samplers that were already burnt-in
+            session.run(tf.variables_initializer(
+                uninitialized_params(tf.global_variables(), session)
+            ))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From c5f1334390af3cd0d4c018fa3e4a6362d6d498e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 18/28] fix: normalization of constant columns resulted in nan
 values

---
 pysgmcmc/models/base_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 72965c6..8ea3feb 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -112,6 +112,8 @@ def zero_one_normalization(X, lower=None, upper=None):
         lower = np.min(X, axis=0)
     if upper is None:
         upper = np.max(X, axis=0)
+        # avoid division by zero for constant columns
+        upper = np.where(upper == lower, lower + 1, upper)
 
     X_normalized = np.true_divide((X - lower), (upper - lower))
 
@@ -127,6 +129,8 @@ def zero_mean_unit_var_normalization(X, mean=None, std=None):
         mean = np.mean(X, axis=0)
     if std is None:
         std = np.std(X, axis=0)
+        # avoid division by zero for constant columns
+        std = np.where(std == 0, 1., std)
 
     X_normalized = (X - mean) / std
 
-- 
2.43.0


From 3cac9571c0e59f5414069e7be206ff6422d2e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 19/28] fix: get_sampler silently accepted an argument named
 self

---
 pysgmcmc/sampling.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pysgmcmc/sampling.py b/pysgmcmc/sampling.py
index cf436f1..2480bc5 100644
--- a/pysgmcmc/sampling.py
+++ b/pysgmcmc/sampling.py
@@ -195,8 +195,9 @@ class Sampler(Enum):
         from inspect import signature, _empty
 
         # look up all initializer parameters with their (potential)
-        # default values
-        all_sampler_parameters = signature(Get_Sampler.__init__).parameters
+        # default values, `self` is never passed by callers
+        all_sampler_parameters = dict(signature(Get_Sampler.__init__).parameters)
+        del all_sampler_parameters["self"]
 
         # Check if any invalid sampler arguments were passed
         # (sampler arguments that are not actually parameters of the specified)
@@ -222,8 +223,7 @@ class Sampler(Enum):
                     parameter=undefined_parameter,
                     valid_parameters="\n".join(
                         ["-{}".format(parameter_name)
-                         for parameter_name in all_sampler_parameters
-                         if parameter_name != "self"]
+                         for parameter_name in all_sampler_parameters]
                     )
                 )
             )
@@ -267,7 +267,6 @@ class Sampler(Enum):
         sampler_args = {
             parameter_name: parameter_value(parameter_name)
             for parameter_name in all_sampler_parameters
-            if parameter_name != "self"  # never pass `self` during construction
         }
 
         return Get_Sampler(**sampler_args)
-- 
2.43.0


From e0f9798e0e833a74b1e74a492dbc56d03cc470a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 20/28] fix: the default session of samplers was that at import
 of their module

get_sampler imports sampler modules lazily, possibly while a session is the
default one; samplers constructed later without a session then used that one.
---
 pysgmcmc/samplers/base_classes.py       | 4 ++--
 pysgmcmc/samplers/relativistic_sghmc.py | 2 +-
 pysgmcmc/samplers/sghmc.py              | 2 +-
 pysgmcmc/samplers/sgld.py               | 2 +-
 pysgmcmc/samplers/svgd.py               | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 001270b..943c401 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -22,7 +22,7 @@ class MCMCSampler(object):
 
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initialize the sampler base class. Sets up member variables and
         initializes uninitialized target parameters in the current
@@ -335,7 +335,7 @@ class BurnInMCMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """
         Initializes the corresponding MCMCSampler super object and
         sets member variables.
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 5c8460c..1b4a6be 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -24,7 +24,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.001),
                  mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index a54d79d..d7bee34 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -31,7 +31,7 @@ class SGHMCSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, mdecay=0.05, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 93d932e..c0e1801 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -32,7 +32,7 @@ class SGLDSampler(BurnInMCMCSampler):
     def __init__(self, params, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.01),
                  burn_in_steps=3000, A=1.0, scale_grad=1.0,
-                 session=tf.get_default_session(), dtype=tf.float64, seed=None):
+                 session=None, dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
 
diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 03f55af..684805f 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -22,7 +22,7 @@ class SVGDSampler(MCMCSampler):
     """
     def __init__(self, particles, cost_fun, batch_generator=None,
                  stepsize_schedule=ConstantStepsizeSchedule(0.1),
-                 alpha=0.9, fudge_factor=1e-6, session=tf.get_default_session(),
+                 alpha=0.9, fudge_factor=1e-6, session=None,
                  dtype=tf.float64, seed=None):
         """ Initialize the sampler parameters and set up a tensorflow.Graph
             for later queries.
-- 
2.43.0


From 36e61e43c15de77aadac5330da4c4c663eecd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 21/28] fix: a sampler's private copies were taken for network
 weights when training again

---
 pysgmcmc/samplers/base_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 943c401..cd78a56 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -105,8 +105,12 @@ class MCMCSampler(object):
         self.cost_fun = cost_fun
         self.cost = cost_fun(self.params)
 
-        # compute vectorized clones of all parameters
-        self.vectorized_params = [vectorize(param) for param in self.params]
+        # compute vectorized clones of all parameters, these belong to this
+        # sampler and are no target parameters of anybody else
+        self.vectorized_params = [
+            tf.Variable(vectorize(param.initialized_value()), trainable=False)
+            for param in self.params
+        ]
 
         self.epsilon = tf.Variable(
             self.stepsize_schedule.initial_value,
-- 
2.43.0


From 498cc0c90d4cad90f4aa03713d55d33e2efeb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 22/28] fix: normalization of constant columns failed when
 their standard deviation was rounded

---
 pysgmcmc/models/base_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 8ea3feb..c9cf411 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -129,8 +129,9 @@ def zero_mean_unit_var_normalization(X, mean=None, std=None):
         mean = np.mean(X, axis=0)
     if std is None:
         std = np.std(X, axis=0)
-        # avoid division by zero for constant columns
-        std = np.where(std == 0, 1., std)
+        # avoid division by zero for constant columns (due to rounding, their
+        # standard deviation need not be exactly zero)
+        std = np.where(np.max(X, axis=0) == np.min(X, axis=0), 1., std)
 
     X_normalized = (X - mean) / std
 
-- 
2.43.0


From 0050e0fb9d138d755e5b0c986774c26742c78c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 23/28] fix: pairwise distances of a single point had the wrong
 type

---
 pysgmcmc/tensor_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..d59d88b 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -406,7 +406,8 @@ def pdist(tensor, metric="euclidean"):
             for i in range(m):
                 for j in range(i + 1, m):
                     distances.append(euclidean_distance(tensor[i], tensor[j]))
-            return tf.convert_to_tensor(distances)
+            # there are no distances to infer the type from for a single point
+            return tf.convert_to_tensor(distances, dtype=tensor.dtype.base_dtype)
 
         metric_function = pairwise_euclidean_distance
     else:
-- 
2.43.0


From 5d9ad00e7f5bb7fc06e52e9e11003d34dab383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 24/28] fix: slicing a trace sliced its draws as well as its
 variables

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 6cf790a..e58993e 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -239,7 +239,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From f429198bd708611f8845df7cad8ef8ab19f0514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 25/28] fix: gmm log likelihoods failed for variables of type
 float64

---
 pysgmcmc/diagnostics/objective_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..0e27901 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,12 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
+            pi = tf.constant(np.pi, dtype=x.dtype.base_dtype)
             return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [tf.log(tf.convert_to_tensor(weights[i], dtype=x.dtype.base_dtype)) +
+             normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From f28bfcc65b138ba9581c922622e0b3729ac33634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 26/28] fix: logsumexp was imported from scipy.misc, which no
 longer has it

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 0e27901..0ab6524 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From ab21a3b0044b71551cfafd55991bbe35c86a5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 27/28] fix: steps wrote minibatches, stepsizes and
 preconditioners into the caller's feed dictionary

---
 pysgmcmc/samplers/base_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index cd78a56..6adc06e 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -307,8 +307,8 @@ class MCMCSampler(object):
         # Ensure self.theta_t and self.cost are defined
         assert hasattr(self, "theta_t") or not hasattr(self, "cost")
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never modify the dictionary of our caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         feed_dict.update(self._next_batch())
         feed_dict.update(self._next_stepsize())
@@ -443,8 +443,8 @@ class BurnInMCMCSampler(MCMCSampler):
         """
         assert (feed_dict is None or hasattr(feed_dict, "update"))
 
-        if feed_dict is None:
-            feed_dict = dict()
+        # never modify the dictionary of our caller
+        feed_dict = dict() if feed_dict is None else dict(feed_dict)
 
         if self.is_burning_in:
             # feed next batch and stepsize
-- 
2.43.0


From 28835108fec26e210757c4f57589e476fe993060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:40 +0000
Subject: [PATCH 28/28] fix: SVGDSampler rejected cost functions without a name

---
 pysgmcmc/samplers/svgd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 684805f..f8ecfbd 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,10 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        # callable objects and partial functions have no name
+        cost_fun_wrapper.__name__ = getattr(
+            cost_fun, "__name__", cost_fun_wrapper.__name__
+        )
 
         super().__init__(
             params=particles,
-- 
2.43.0


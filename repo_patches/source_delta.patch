From d584df9527dfc451775a52deb906eb7dca44b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 01/15] fix: include the measurement likelihood in the cSMC
 backward sampling weights

---
 fbs/samplers/csmc/csmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..10a06d2 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,7 +71,8 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
-        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
+        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, measurement_cond_logpdf,
+                                                  vs, ts, xss, log_ws, **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
     return xs_star, bs_star
@@ -164,7 +165,7 @@ def forward_pass(key: JKey,
     return As, log_wss, uss
 
 
-def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
+def backward_sampling_pass(key, transition_logpdf, likelihood_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
     """
     Backward sampling pass for the cSMC kernel.
 
@@ -174,6 +175,8 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
         Random number generator key.
     transition_logpdf:
         The transition logpdf. p(x_k | x_{k-1})
+    likelihood_logpdf:
+        The measurement conditional logpdf p(v_k | x_{k-1}, v_{k-1}), which also depends on x_{k-1}.
     uss:
         JArray of particles.
     log_ws:
@@ -202,8 +205,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     x_T = uss[-1, B_T]
 
     def body(x_t, inp):
-        op_key, xs_t_m_1, log_w_t_m_1, v_t_m_1, t_m_1 = inp
+        op_key, xs_t_m_1, log_w_t_m_1, v_t, v_t_m_1, t_m_1 = inp
         Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)  # I swapped the order
+        Gamma_log_w += likelihood_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)
         Gamma_log_w -= jnp.max(Gamma_log_w)
         log_w = Gamma_log_w + log_w_t_m_1
         w = normalise(log_w)
@@ -214,7 +218,7 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     # Reverse arrays, ideally, should use jax.lax.scan(reverse=True) but it is simpler this way due to insertions.
     # xs[-2::-1] is the reversed list of xs[:-1], I know, not readable... Same for log_ws.
     # vs[-1:0:-1] means the reverse of vs[1:]
-    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]
+    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1]
 
     # Run backward pass
     _, (uss, Bs, Ws) = jax.lax.scan(body, x_T, inps)
-- 
2.43.0


From 7a11fe119b2844c283fcf853e70c275d76252e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 02/15] fix: do not reuse the split key in the backward
 smoother

---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..168c5d8 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -106,7 +106,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From a6ec437615c9539fcb9e9b5c8bafc54ed0de18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 03/15] fix: missing factor one half in the Gaussian KL
 divergence

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From d616e0e1ce53c2ec71848f55724429ff037e7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 04/15] fix: Crescent prior density takes standard deviations,
 not variances

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From 093539fca74975882eb2f1739469d4cafbf3789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 05/15] fix: acceptance probability of the forced move

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..d06839d 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -208,7 +208,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(temp / (1 - weights), 1.))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From 5168c24f08889a7ae6a17576a082447f1ebef867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 06/15] fix: honour log=False in the bootstrap filter

---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 168c5d8..bf7ed03 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 6defe6da13538552dfaf56645cfc6871927b3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 07/15] fix: marginal (keep_path=False) simulation with vector
 times and default initial time

---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..6e02a84 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,8 +220,9 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, ts[0] if t0 is None else t0)
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
+            Fs, Qs = [jnp.reshape(z, (*ts.shape, *(1 for _ in x0.shape))) for z in (Fs, Qs)]
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
     return discretise_linear_sde, cond_score_t_0, simulate_cond_forward
-- 
2.43.0


From e74571882fa7223d5173d60a8eeef40d90540950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 08/15] fix: uniform initial weights for the explicit final
 reference of the Gibbs kernel

---
 fbs/samplers/gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index d06839d..edde16c 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -134,7 +134,8 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
             return jax.random.normal(key_, (n_samples, *us.shape[1:]))
 
         def init_likelihood_logpdf(v0, u0s, v1, **kwargs):
-            return likelihood_logpdf(v0, u0s, v1, ts[0], **kwargs)
+            # u0s are draws from the reference p(u0 | v0) already, and v1 is weighted in the first step
+            return -math.log(u0s.shape[0]) * jnp.ones(u0s.shape[0])
 
     else:
         def init_sampler(*_):
-- 
2.43.0


From 26fb813405d1b2d8eca102bcac9a3a8554d90fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 09/15] fix: sub-step times of the Euler-Maruyama integrator on
 decreasing time grids

---
 fbs/sdes/simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..482f9d1 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,7 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next, integration_nsteps, endpoint=False)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 1a2ddd9599051d6b9f1242c050df540d2ed15f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 10/15] fix: elapsed time from t0 in the OU score matching loss

---
 fbs/sdes/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 6e02a84..ef11833 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -382,14 +382,14 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - ts[0])
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - ts[0], fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0


From 76be9210a3fc137e8b140c4162c6d998b39966c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 11/15] fix: integrate the Crescent posterior along the
 matching mesh axes

---
 fbs/data/bayesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..c91d3bd 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,8 +52,8 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
-                                          phi_mesh[:, 0, 1])
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[:, 0, 1], axis=0),
+                                          phi_mesh[0, :, 0])
         return evals / z
 
     @staticmethod
-- 
2.43.0


From caf6b3fff80256e803cc10793ddf596f3293905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 12/15] fix: sinusoidal embedding of dimension two is not NaN

---
 fbs/nn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/nn/base.py b/fbs/nn/base.py
index fb322af..51300ff 100644
--- a/fbs/nn/base.py
+++ b/fbs/nn/base.py
@@ -69,7 +69,7 @@ def sinusoidal_embedding(t: Union[JArray, FloatScalar], out_dim: int = 64, max_p
     """
     half = out_dim // 2
 
-    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / (half - 1))
+    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / max(half - 1, 1))
     embs = t * fs
     embs = jnp.concatenate([jnp.sin(embs), jnp.cos(embs)], axis=-1)
     if out_dim % 2 == 1:
-- 
2.43.0


From e1a660ef4780807483d34f2e7ceef312270bc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 13/15] fix: multiply row vectors by the transposed Cholesky
 factor in the Gaussian samplers of the experiments

---
 experiments/sb/filter.py     | 4 ++--
 experiments/sb/gibbs.py      | 4 ++--
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..7ef121e 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..d434b48 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..f385c9a 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov).T
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From 8b5bb00d9120e31024d23cf594453594527825f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 14/15] fix: draw the CSGM terminal reference with the Cholesky
 factor of its covariance

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From 94363c4810c829093f2d637c5b6df2f9fbe1684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 15/15] fix: consistent initial state (log-likelihood, path) of
 the toy pMCMC chains

---
 experiments/toy/gp_pmcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..3da213a 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -143,12 +143,12 @@ def fwd_ys_sampler(key_, y0_):
 
 # pMCMC initial
 def pmcmc_init(key_):
-    key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
+    key_fwd, key_bf = jax.random.split(key_, num=2)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                    stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    x0s, nell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                 stratified, log=True, return_last=True)
+    return x0s[0], -nell, path_y
 
 
 # pMCMC kernel
-- 
2.43.0


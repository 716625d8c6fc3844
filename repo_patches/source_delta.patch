From ef22c40d9abda1da696442be3c902a7b79517c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 01/25] fix: linear_chi2 broadcasts scalar errors and accepts
 the default err=0

---
 src/microjax/likelihood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..7e50118 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,7 +62,9 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
-    wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
+    err = jnp.broadcast_to(jnp.asarray(err, dtype=float), jnp.shape(x))
+    positive = err > 0
+    wt = jnp.where(positive, 1.0 / jnp.where(positive, err, 1.0) ** 2, 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
     sumy = jnp.sum(wt * y)
-- 
2.43.0


From dbb76c6143c3e1eef56f31540bba5187ca1ef691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 02/25] fix: mag_extended_source uses the triple-lens primary
 mass fraction of the other solvers

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From d502904cefb83a9e103ab13107da698e8f937c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 03/25] fix: mag_limb_dark traces the source limb with the
 requested number of lenses

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From bd43e458d94c353380e0cf93ff86826556f28583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 04/25] fix: mag_hexadecapole places the third lens at
 r3*exp(i*psi)

---
 src/microjax/multipole.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..2c98b0b 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -260,7 +260,8 @@ def mag_hexadecapole(
     **params
         Additional lens parameters in the mid-point coordinate system. For
         binaries this expects ``a`` and ``e1``; for triples ``a``, ``r3``,
-        ``e1`` and ``e2`` in addition to any other configuration details.
+        ``psi``, ``e1`` and ``e2`` in addition to any other configuration
+        details.
 
     Returns
     -------
@@ -290,7 +291,8 @@ def mag_hexadecapole(
             * (e1 / (z - a) ** k + (1.0 - e1) / (z + a) ** k)
         )
     elif nlenses == 3:
-        a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        a, e1, e2 = params["a"], params["e1"], params["e2"]
+        r3 = params["r3"] * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
-- 
2.43.0


From f2d9a844bdc87c6f4c5ab2899f45701683f2e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 05/25] fix: magnifications applies limb darkening to the
 multipole branch

---
 src/microjax/caustics/lightcurve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..6000d56 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -236,6 +236,9 @@ def magnifications(
         raise ValueError("nlenses must be <= 3")
 
 
+    # The multipole terms depend on the brightness profile of the source
+    u1_multi = u1 if limb_darkening else 0.0
+
     # Compute point images for a point source
     z, z_mask = _images_point_source(
         w_points - x_cm, #miyazaki
@@ -246,11 +249,11 @@ def magnifications(
 
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 903d5f2d5610b9890f5069b34dfd24728a0daa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 06/25] fix: limb-darkened fastlens A(0) weights its components
 by their flux

---
 src/microjax/fastlens/mag_fft_jax.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..4be953e 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -107,8 +107,9 @@ class mag_limb(mag_):
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        # flux fractions of the uniform and the sqrt(1 - r^2) components
+        norm = 1.0 - a1 / 3.0
+        return ((1.0 - a1) * A0_disk + 2.0 / 3.0 * a1 * A0_term1) / norm
 
 # FFT based magnification
 class magnification:
@@ -299,8 +300,9 @@ class mag_limb1(magnification):
     def A0(self, rho):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        # flux fractions of the uniform and the sqrt(1 - r^2) components
+        norm = 1.0 - self.a1 / 3.0
+        return ((1.0 - self.a1) * A0_disk + 2.0 / 3.0 * self.a1 * A0_term1) / norm
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From c2e170cc246ab9ba2fdd84887b57e8264bc57ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 07/25] fix: mag_limb and mag_limb1 use the exact Fourier
 profile of the limb-darkened disk

---
 src/microjax/fastlens/mag_fft_jax.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4be953e..c822fbf 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -97,12 +97,12 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        k = jnp.atleast_1d(k)
+        x = k * rho
+        nu = 1.5
+        sk_disk = 2.0 * j1(x) / x
+        sk_term1 = nu * 2**nu * gamma(nu) * j1p5(x) / x**nu
+        return ((1.0 - a1) * sk_disk + 2.0 / 3.0 * a1 * sk_term1) / (1.0 - a1 / 3.0)
 
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
@@ -267,12 +267,12 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
+        k = jnp.atleast_1d(k)
+        x = k * rho
+        nu = 1.5
+        sk_disk = 2.0 * j1(x) / x
+        sk_term1 = nu * 2**nu * gamma(nu) * j1p5(x) / x**nu
+        sk = ((1.0 - self.a1) * sk_disk + 2.0 / 3.0 * self.a1 * sk_term1) / (1.0 - self.a1 / 3.0)
         return sk
 
     def sk__(self, k, rho):
-- 
2.43.0


From d904585a4a098ede375a9950a59126398335638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 08/25] fix: planetary-caustic test is centred on the planetary
 caustic

---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 6000d56..118f9e2 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame, companion at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..213f43c 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame, companion at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From 273a47780b2a78f653bbad1605ae4cd0b5661306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 09/25] fix: region merging across theta=0 drops only the
 interval it merged

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..89ed27b 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) shape: only the intervals merged above
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From 64203d87c7508286763c27d10071c530f2b61dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 10/25] fix: ring images are integrated over exactly one turn

---
 src/microjax/inverse_ray/extended_source.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index fc47a71..1d843eb 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -122,6 +122,7 @@ def mag_limb_dark(
     image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
+    th_scan = _close_full_turns(th_scan, th_resolution - 1, th_resolution - 4)
 
     def _process_r(r0: float, th_values: Array) -> Array:
         """Integrand over angle for a fixed radius.
@@ -269,6 +270,7 @@ def mag_uniform(
     image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
+    th_scan = _close_full_turns(th_scan, th_resolution - 1, th_resolution - 3)
 
     #@jax.checkpoint 
     def _process_r(r0: float, th_values: Array) -> Array:
@@ -329,6 +331,17 @@ def mag_uniform(
     magnification = magnification_unnorm / rho**2 / jnp.pi
     return magnification 
 
+def _close_full_turns(th_scan: Array, n_steps: int, n_summed: int) -> Array:
+    """Make the summed angular cells of full-turn regions span exactly ``2*pi``.
+
+    A ring image occupies a region of ``2*pi`` plus margins; summing it as is
+    would count the overlapping margins twice.
+    """
+    centre = 0.5 * (th_scan[:, 0] + th_scan[:, 1])
+    half = jnp.pi * n_steps / n_summed
+    full = (th_scan[:, 1] - th_scan[:, 0]) >= 2.0 * jnp.pi
+    return jnp.where(full[:, None], jnp.stack([centre - half, centre + half], axis=1), th_scan)
+
 def cubic_interp(
     x: Union[float, Array],
     x0: Union[float, Array],
-- 
2.43.0


From a9e20dedbb337db63e785adca0c76dfae769a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 11/25] fix: single-lens Jacobian is 1 - 1/|z|^4

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..017e88e 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar) ** 4
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From 49ccd0d11bf118d0d14aab3e8a7ae5cf8f6d895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 12/25] fix: root solver's Newton fallback is relative to the
 polynomial's scale

---
 src/microjax/poly_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 91a64e5..3afa671 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -145,7 +145,7 @@ def _ea_step(
     s = jnp.sum(inv_diffs, axis=1)
     # Denominator stabilization: if nearly zero, fall back to Newton step
     den = fp - f * s
-    den = jnp.where(jnp.abs(den) < eps, fp, den)
+    den = jnp.where(jnp.abs(den) < eps * jnp.abs(fp), fp, den)
     update = f / den
     new_roots = roots - update
     return new_roots, update
-- 
2.43.0


From 3d9072206194f5734b25f042146a324ed21b35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 13/25] fix: root solver starts within reach of roots of any
 scale

---
 src/microjax/poly_solver.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 3afa671..670624d 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -89,7 +89,7 @@ def _polyder_coeffs(coeffs: jax.Array) -> jax.Array:
 
 
 def _cauchy_radius(coeffs: jax.Array) -> jax.Array:
-    """Compute a Cauchy bound for the polynomial roots.
+    """Compute a Cauchy-type (Fujiwara) bound for the polynomial roots.
 
     Parameters
     ----------
@@ -100,14 +100,16 @@ def _cauchy_radius(coeffs: jax.Array) -> jax.Array:
     -------
     jax.Array
         Non-negative scalar giving the radius ``R`` such that all roots lie
-        within ``|z| <= R`` using the bound ``1 + max |c_i / c0|``.
+        within ``|z| <= R`` using the bound ``2 * max |c_i / c0|**(1 / i)``, which
+        scales with the roots and so stays reachable within the iteration cap.
     """
     c0 = coeffs[..., 0]
     eps = jnp.finfo(coeffs.real.dtype).eps
     denom = jnp.maximum(jnp.abs(c0), eps)
-    # 1 + max |c_i / c0|
-    r = 1.0 + jnp.max(jnp.abs(coeffs[..., 1:]) / denom[..., None], axis=-1)
-    return r
+    # 2 * max |c_i / c0|**(1 / i); the floor only matters when all c_i vanish
+    i = jnp.arange(1, coeffs.shape[-1])
+    r = 2.0 * jnp.max((jnp.abs(coeffs[..., 1:]) / denom[..., None]) ** (1.0 / i), axis=-1)
+    return jnp.maximum(r, eps)
 
 
 def _ea_step(
-- 
2.43.0


From 8c7a2c0850d8ea87e9e6153ac432ab9f32542527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 14/25] fix: gamma is differentiable at real arguments

---
 src/microjax/fastlens/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..34df7bf 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -94,7 +94,7 @@ def digamma_(z):
     negative_real_mask = jnp.real(z) < 0
     reflection = jnp.pi / jnp.tan(jnp.pi * z)
     z = jnp.where(negative_real_mask, 1.0 - z, z)
-    psi = jnp.where(negative_real_mask, -reflection, 0.0 + 0.0j)
+    psi = jnp.where(negative_real_mask, -reflection, jnp.zeros_like(z))
 
     # Adjustment for x < X
     X = 8.0
-- 
2.43.0


From b090a9ea79eade01545ab3ad775e94f2b694e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 15/25] fix: elliptic and Bessel derivatives are finite at the
 origin

---
 src/microjax/fastlens/special.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 34df7bf..3551a71 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -150,7 +150,9 @@ def ellipk_jvp(primals, tangents):
         m,
     )
     # Derivative of the complete elliptic integral of the first kind with respect to m
-    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m * (1 - m))
+    m_safe = jnp.where(m == 0, 0.5, m)
+    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m_safe * (1 - m))
+    dk_dm = jnp.where(m == 0, jnp.pi / 8, dk_dm)
     return k_val, m_dot * dk_dm
 
 
@@ -188,7 +190,8 @@ def ellipe_jvp(primals, tangents):
     e_val = ellipe_(m)
     k_val = ellipk_(m)
     # Derivative of the complete elliptic integral of the second kind with respect to m
-    de_dm = (e_val - k_val) / (2 * m)
+    m_safe = jnp.where(m == 0, 0.5, m)
+    de_dm = jnp.where(m == 0, -jnp.pi / 8, (e_val - k_val) / (2 * m_safe))
     return e_val, m_dot * de_dm
 
 
@@ -210,7 +213,7 @@ def ellipe(m):
 
 def ellipk(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipk_(m),
         1.0 / jnp.sqrt(jnp.abs(m) + 1.0) * ellipk_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -219,7 +222,7 @@ def ellipk(m):
 
 def ellipe(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipe_(m),
         jnp.sqrt(jnp.abs(m) + 1.0) * ellipe_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -499,7 +502,9 @@ def j1_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     primal_out = j1_(m)
-    tangent_out = j0_(m) * m_dot - j1_(m) * m_dot / m
+    # J1(m) / m -> 1/2 as m -> 0
+    j1_over_m = jnp.where(m == 0, 0.5, primal_out / jnp.where(m == 0, 1.0, m))
+    tangent_out = (j0_(m) - j1_over_m) * m_dot
     # tangent_out = lax.cond(m == 0, lambda _: 0.0, lambda _: tangent_out - j1(m) * m_dot / m, operand=None)
     return primal_out, tangent_out
 
-- 
2.43.0


From dc31dbab315aa4ab5f868e5794794dd35e1df413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 16/25] fix: gamma is finite at complex arguments with a
 non-positive integer real part

---
 src/microjax/fastlens/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 3551a71..d715296 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -58,7 +58,7 @@ def gamma_(z):
 
     non_positive_integer_mask = negative_real_mask & (
         jnp.real(z) == jnp.floor(jnp.real(z))
-    )
+    ) & (jnp.imag(z) == 0)
     g = jnp.where(non_positive_integer_mask, jnp.nan, g)
 
     return g.reshape(original_shape)
-- 
2.43.0


From 94623e7e770133f6954813d1d6562d9930ee8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 17/25] fix: JAX fastlens extrapolates the point-source table
 as the NumPy version does

---
 src/microjax/fastlens/mag_fft_jax.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index c822fbf..c42a1ba 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -28,8 +28,7 @@ class mag_:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -145,8 +144,7 @@ class magnification:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0


From ba9b38e9e91c08b6fa3991293e650cd716f20c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 18/25] fix: root solver's starting points are not symmetric
 about the real axis

A cubic with three real roots (e.g. 0.54950918, -0.12155294, -0.11470134)
starts from a circle that is symmetric about the real axis; the two conjugate
estimates stay conjugate and do not reach two distinct real roots within the
iteration cap (about 1% of random real cubics).
---
 src/microjax/poly_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 670624d..ef10687 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -196,7 +196,8 @@ def poly_roots_EA(
     if initial_roots is None:
         r = _cauchy_radius(coeffs)
         k = jnp.arange(n)
-        initial_roots = r * jnp.exp(2j * jnp.pi * k / n)
+        # off the real axis: starts symmetric about it cannot reach distinct real roots
+        initial_roots = r * jnp.exp(2j * jnp.pi * (k + 0.25) / n)
     else:
         initial_roots = _as_complex(initial_roots)
 
-- 
2.43.0


From 722f5d881b392f293907d5ab5bb38633503ae880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 19/25] fix: a radial cluster of a single limb point no longer
 wipes out every region

_refine_addmargin_merge_r compared the limb radii strictly with the cluster's
edges, so a cluster holding only the point that defines an edge became empty;
merging the empty interval into the next one discarded all regions and the
magnification came out as 0.
---
 src/microjax/inverse_ray/merge_area.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 89ed27b..2cb8615 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -232,7 +232,9 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     r_limb_expanded = r_limb.reshape(1, N)
     r_mins  = r_ranges[:, 0].reshape(M, 1)
     r_maxs  = r_ranges[:, 1].reshape(M, 1)
-    cond_in = (r_limb_expanded > r_mins) & (r_limb_expanded < r_maxs)  # shape: (M, N)
+    # the outermost samples lie on the bin edges themselves
+    eps = 1e-9
+    cond_in = (r_limb_expanded >= r_mins * (1.0 - eps)) & (r_limb_expanded <= r_maxs * (1.0 + eps)) & (r_limb_expanded > 0.0)  # shape: (M, N)
     valid_mins = jnp.where(cond_in, r_limb_expanded, jnp.inf)
     valid_maxs = jnp.where(cond_in, r_limb_expanded, -jnp.inf)
     r_mins = jnp.where(jnp.any(cond_in, axis=1), jnp.min(valid_mins, axis=1), 0.0)
-- 
2.43.0


From 6eb6cdeac112775e23f0785596a96d4c8d5b4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 20/25] fix: images at the origin of the polar grid no longer
 displace the others

The angular intervals were clustered from all limb images at once and an image
near the origin fills many of them, so the products (r, theta) overflowed the
available regions and images were dropped (magnification far too low), or the
intervals of distant images became as wide as a full turn. Cluster the angles
of each radial interval on their own, and sweep an interval that reaches the
origin by one full turn.
---
 src/microjax/inverse_ray/merge_area.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 2cb8615..67b0867 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -47,18 +47,25 @@ def define_regions(
     r_limb     = jnp.abs(image_limb * mask_limb)
     th_limb    = jnp.mod(jnp.arctan2(image_limb.imag, image_limb.real), 2*jnp.pi) * mask_limb
     r_mins, r_maxs   = cluster_1d(r_limb, bins=bins_r, max_cluster=nimages_init)
-    th_mins, th_maxs = cluster_1d(th_limb, bins=bins_th, mode_r=False, max_cluster=nimages_init)
-
     r_map  = jnp.array([r_mins, r_maxs]).T
-    th_map = jnp.array([th_mins, th_maxs]).T
+    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
+
+    # cluster the angles of each radial interval on their own
+    in_r   = (r_limb > r_map_refine[:, :1]) & (r_limb < r_map_refine[:, 1:])
+    th_map = jnp.stack(
+        vmap(lambda m: cluster_1d(th_limb * m, bins=bins_th, mode_r=False, max_cluster=nimages_init))(in_r), axis=-1
+    )
     th_map = jnp.where(jnp.isclose(th_map, 0.0), 0.0, th_map)
     th_map = jnp.where(jnp.isclose(th_map, 2*jnp.pi), 2*jnp.pi, th_map)
+    in_mask = vmap(lambda r, th: _compute_in_mask(r_limb, th_limb, r[None], th)[0])(r_map_refine, th_map)
+    # An image at the origin passes limb points in every direction, however few of
+    # them are sampled: an interval that reaches r = 0 is swept by one full turn.
+    polar   = (r_map_refine[:, 0] < 2.0 * rho) & (r_map_refine[:, 1] > 0.0)
+    in_mask = jnp.where(polar[:, None], jnp.arange(nimages_init) == 0, in_mask)
+    th_map  = jnp.where(polar[:, None, None], jnp.array([0.0, 2*jnp.pi]), th_map)
 
-    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
-
-    in_mask   = _compute_in_mask(r_limb, th_limb, r_map_refine, th_map)
-    r_masked  = jnp.repeat(r_map_refine, th_map.shape[0], axis=0) * in_mask.ravel()[:, None]
-    th_masked = jnp.tile(th_map, (r_map_refine.shape[0], 1)) * in_mask.ravel()[:, None]
+    r_masked  = jnp.repeat(r_map_refine, nimages_init, axis=0) * in_mask.ravel()[:, None]
+    th_masked = th_map.reshape(-1, 2) * in_mask.ravel()[:, None]
 
     r_excess   = r_masked[jnp.argsort(jnp.isclose(r_masked[:, 1], 0.0))][:nimages_init]
     th_excess  = th_masked[jnp.argsort(jnp.isclose(th_masked[:, 1], 0.0))][:nimages_init]
-- 
2.43.0


From b60114a3ca96abe226198b80322f593830865056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 21/25] fix: accept the multipole only when every false image
 is far from the caustic

The false-image test averaged over the pair of false images, so a source
overlapping a fold was accepted when only one of the two was about to
become real (magnifications wrong by up to 15 %).
---
 src/microjax/inverse_ray/cond_extended.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 213f43c..acaa756 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -99,7 +99,8 @@ def _caustics_proximity_test(
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
+    # every false image must be far from becoming real, not just their average
+    test_false_images = jnp.where(z_mask, jnp.inf, factor).min(axis=0) > c_f * (rho + rho_min)
     test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
                                   jnp.ones_like(test_false_images, dtype=jnp.bool_), 
                                   test_false_images
-- 
2.43.0


From 7c5ee79d3bf57d78c98e36b94ca07bb8f9eb7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 22/25] fix: the contour light curve's false-image test looks
 at every false image too

---
 src/microjax/caustics/lightcurve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 118f9e2..b120933 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -111,7 +111,8 @@ def _caustics_proximity_test(
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
+    # every false image must be far from becoming real, not just their average
+    test_false_images = jnp.where(z_mask, jnp.inf, factor).min(axis=0) > c_f * (rho + rho_min)
     test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
                                   jnp.ones_like(test_false_images, dtype=jnp.bool_), 
                                   test_false_images
-- 
2.43.0


From 29628798c81ce5585c620456382f0e2ec6b807ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 23/25] fix: sign of the limb-darkening normalisation's
 derivative

d/du1 of 3/(pi (3-u1)) is positive; the JVP had it negative, so the gradient
of mag_limb_dark with respect to u1 was wrong by about the magnification
itself (2 I0/(3-u1) per unit of u1) wherever the source was.
---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From a5cfafdd544f8869a5c1c8f01a879715a425c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 24/25] fix: finite gradient of the limb-darkened contour
 integral at the limb

sqrt(where(x > 0, x, 0)) has an infinite derivative at x = 0, and its product
with a zero tangent is NaN. A quadrature node lies exactly on the limb when a
contour point shares a coordinate with the centroid (a source on the lens
axis), which made every gradient NaN there.
---
 src/microjax/caustics/integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/caustics/integrate.py b/src/microjax/caustics/integrate.py
index bb343c3..5874646 100644
--- a/src/microjax/caustics/integrate.py
+++ b/src/microjax/caustics/integrate.py
@@ -37,7 +37,8 @@ def _brightness_profile(z, rho, w0, u1=0.0, nlenses=2, **params):
     r = jnp.abs(w - w0) / rho
 
     def safe_for_grad_sqrt(x):
-        return jnp.sqrt(jnp.where(x > 0.0, x, 0.0))
+        positive = x > 0.0
+        return jnp.where(positive, jnp.sqrt(jnp.where(positive, x, 1.0)), 0.0)
 
     # See Dominik 1998 for details
     B_r = jnp.where(
-- 
2.43.0


From 7bccfba879c4633859f26a5bdebbdd161d2a0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:58 +0000
Subject: [PATCH 25/25] fix: the root solver keeps double precision for weakly
 typed real coefficients

jnp.result_type(x, complex64) demotes a weakly typed float64 array to
complex64, so mag_point_source(0.878, nlenses=2, s=1.5, q=0.00227) with Python
floats lost images and returned 0.22 instead of 18.41.
---
 src/microjax/poly_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index ef10687..b0c7854 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -57,7 +57,8 @@ def _as_complex(x: jax.Array) -> jax.Array:
     if jnp.iscomplexobj(x):
         return x
     # Promote to complex matching float precision
-    dtype = jnp.result_type(x, jnp.complex64)
+    # (by dtype: a weakly typed array would be demoted to single precision)
+    dtype = jnp.result_type(x.dtype, jnp.complex64)
     return x.astype(dtype)
 
 
-- 
2.43.0


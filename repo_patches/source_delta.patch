From 4ad6847181dbc9304081f733b351325ef99c1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 01/26] fix: accept one exposure time per timestamp for any
 number of planets in in_transit

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 src/exoplanet/orbits/simple.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..43febb9 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -763,6 +763,9 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..3eec5b0 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,9 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 87d914be205defb941e278d6bab6a40cbc4f16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 02/26] fix: do not drop the parallax when light_delay is
 requested

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 43febb9..66060e7 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From f95d11744c4d1609122a1dbb313138a85ff8c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 03/26] fix: star accelerations are zero, not NaN, for massless
 planets

---
 src/exoplanet/orbits/keplerian.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 66060e7..59b98dc 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -678,33 +678,29 @@ class KeplerianOrbit:
         v = self.get_star_velocity(t)
         return -conv * v[2]
 
-    def _get_acceleration(self, a, m, t):
+    def _get_acceleration(self, a, t):
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
-        if self.ecc is None:
-            factor = -(K**2) / a
-        else:
-            factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
-            )
+        factor = -(self.n**2) * a
+        if self.ecc is not None:
+            factor = factor * ((1 + self.ecc * cosf) / (1 - self.ecc**2)) ** 2
         return self._rotate_vector(factor * cosf, factor * sinf)
 
     def get_planet_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_planet, -self.m_star, t)
+            for x in self._get_acceleration(self.a_planet, t)
         )
 
     def get_star_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_star, self.m_planet, t)
+            for x in self._get_acceleration(self.a_star, t)
         )
 
     def get_relative_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(-self.a, -self.m_total, t)
+            for x in self._get_acceleration(-self.a, t)
         )
 
     def in_transit(self, t, r=0.0, texp=None, light_delay=False):
-- 
2.43.0


From 637d02f91bd5902aa32d6e6a5fe3c785ea446474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 04/26] fix: m_planet_units and rho_star_units no longer tag
 the caller's tensor

---
 src/exoplanet/orbits/keplerian.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 59b98dc..69b076a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -100,12 +100,12 @@ class KeplerianOrbit:
             deprecation_warning(
                 "'m_planet_units' is deprecated; Use `with_unit` instead"
             )
-            m_planet = with_unit(m_planet, kwargs.pop("m_planet_units"))
+            m_planet = _copy_with_unit(m_planet, kwargs.pop("m_planet_units"))
         if "rho_star_units" in kwargs:
             deprecation_warning(
                 "'rho_star_units' is deprecated; Use `with_unit` instead"
             )
-            rho_star = with_unit(rho_star, kwargs.pop("rho_star_units"))
+            rho_star = _copy_with_unit(rho_star, kwargs.pop("rho_star_units"))
 
         self.jacobians = defaultdict(lambda: defaultdict(None))
 
@@ -805,6 +805,13 @@ class KeplerianOrbit:
         return orbit
 
 
+def _copy_with_unit(obj, unit):
+    """Attach a unit to a copy, so that the caller's object isn't tagged"""
+    if not has_unit(obj):
+        obj = as_tensor_variable(obj).copy()
+    return with_unit(obj, unit)
+
+
 def get_true_anomaly(M, e, **kwargs):
     """Get the true anomaly for a tensor of mean anomalies and eccentricities
 
-- 
2.43.0


From 076e816a5282ec9fb542c73e425bc9c3b787ecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 05/26] fix: honour minimum_period in bls_estimator

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..c6d4fb5 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From 5b5e6433f7331a6e7b8c025d8064cb24e4739c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 06/26] fix: report the index of the peak itself in find_peaks

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index c6d4fb5..9cd6f43 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From 451cabe7ab8698e0cc5ba5b4b73b363eda1c7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 07/26] fix: start unit_disk at the requested initial value

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From 1dbbd0f08a27a123e7687f958aa0f3ce84e2b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 08/26] fix: the edges of the grid are inside the bounds in
 regular_grid_interp

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b72eca0 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (x > grid[-1])
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From ce9a786ec7ec3447a971cc889bacd98101746523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 09/26] fix: threads adding components to one model can't lose
 citations

---
 src/exoplanet/citations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index df8fea7..696a3f3 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -9,10 +9,10 @@ from exoplanet.compat import USING_PYMC3, pm
 def add_citations_to_model(citations, model=None):
     try:
         model = pm.modelcontext(model)
-        if not hasattr(model, "__citations__"):
-            model.__citations__ = dict()
+        # 'setdefault' is atomic, so threads sharing a model can't lose entries
+        registered = vars(model).setdefault("__citations__", dict())
         for k in citations:
-            model.__citations__[k] = CITATIONS[k]
+            registered[k] = CITATIONS[k]
 
     except TypeError:
         pass
@@ -39,7 +39,7 @@ def get_citations_for_model(model=None, width=79):
     if USING_PYMC3:
         cite += list(CITATIONS["pymc3"][0]) + list(CITATIONS["theano"][0])
         bib += [CITATIONS["pymc3"][1], CITATIONS["theano"][1]]
-    for _, v in model.__citations__.items():
+    for v in list(model.__citations__.values()):
         cite += list(v[0])
         bib.append(v[1])
 
-- 
2.43.0


From 49e82aba55a096d984517331b711dc69957b07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 10/26] fix: reading citations no longer configures the root
 logger

---
 src/exoplanet/citations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index 696a3f3..9f06c14 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -1,9 +1,9 @@
 __all__ = ["add_citations_to_model", "CITATIONS"]
 
-import logging
 import textwrap
 
 from exoplanet.compat import USING_PYMC3, pm
+from exoplanet.utils import logger
 
 
 def add_citations_to_model(citations, model=None):
@@ -28,7 +28,7 @@ def get_citations_for_model(model=None, width=79):
     """
     model = pm.modelcontext(model)
     if not hasattr(model, "__citations__"):
-        logging.warning("no citations registered with model")
+        logger.warning("no citations registered with model")
         return "", ""
 
     cite = list(CITATIONS["arviz"][0])
-- 
2.43.0


From da359c383bbde0682ba4f2c42346e5f52bec167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 11/26] fix: space unobserved transits by the mean transit
 period in TTVOrbit

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..91c6ad8 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From 05afbe0322928413dd07d068d86225ac399fde73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 12/26] fix: autocorr_estimator accepts observations in any
 order

---
 src/exoplanet/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 9cd6f43..0a97917 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -280,6 +280,11 @@ def autocorr_estimator(
     if gaussian_filter is None:
         raise ImportError("scipy is required to use the autocorr estimator")
 
+    # The interpolation below requires the observations to be in time order
+    inds = np.argsort(x)
+    x = x[inds]
+    y = y[inds]
+
     if min_period is None:
         min_period = np.min(np.diff(x))
     if max_period is None:
-- 
2.43.0


From fba9cba952d949d0456f6585a71e7d3da0cbe54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 13/26] fix: impact parameter implied by a transit duration on
 an eccentric orbit

---
 src/exoplanet/orbits/keplerian.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 69b076a..98cbe6a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -240,9 +240,16 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
+            # Equations 14 and 16 from Winn (2010)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * incl_factor
+                * pt.sqrt(ome2)
+                / self.period
+            )
             c2 = c * c
-            aor = self.a_planet / self.r_star
+            aor = self.a / self.r_star
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
                 (aor**2 * c2 - 1)
-- 
2.43.0


From cc5ca41fcd3f55b954ea5b5ab7ffa475a348e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 14/26] fix: honour units when a circular orbit is defined by
 its transit duration

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 98cbe6a..38a413a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -124,6 +124,9 @@ class KeplerianOrbit:
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            duration = to_unit(duration, u.day)
+            period = to_unit(period, u.day)
+            r_star = to_unit(r_star, u.R_sun)
             aor, daordtau = get_aor_from_transit_duration(
                 duration, period, b, ror=ror
             )
-- 
2.43.0


From 5d4097b0524554b5191db7ad07069d06cf10025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 15/26] fix: sign and cancellation of the acceleration term in
 the light delay

---
 src/exoplanet/orbits/keplerian.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 38a413a..07a494b 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -460,17 +460,14 @@ class KeplerianOrbit:
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
-        delay = pt.switch(
-            pt.lt(pt.abs(az), 1.0e-10),
-            (z0 - z) / (c_light + vz),
-            (c_light / az)
-            * (
-                (1 + vz / c_light)
-                - pt.sqrt(
-                    (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
-                )
-            ),
+        # Note that 'vz' points away from the observer and 'az' towards them,
+        # and that this form of the root doesn't suffer from cancellation.
+        q = 1 + vz / c_light
+        delay = (
+            2
+            * (z0 - z)
+            / c_light
+            / (q + pt.sqrt(q * q + 2 * az * (z0 - z) / c_light**2))
         )
 
         if _pad:
-- 
2.43.0


From 7081c1c04c08e11c666ec36c7867aaf7f269eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 16/26] fix: retarded star positions are zero, not NaN, for
 massless planets

---
 src/exoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 07a494b..08b5049 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -443,10 +443,12 @@ class KeplerianOrbit:
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
             r = a
+            a_over_r = 1.0
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
-            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            a_over_r = (1 + self.ecc * cosf) / (1.0 - self.ecc**2)
+            r = a / a_over_r
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
             vz = vamp * self.sin_incl * (self.ecc * self.cos_omega + cwf)
@@ -455,7 +457,7 @@ class KeplerianOrbit:
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
         # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        az = -(angvel**2) * a_over_r**3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From 215dac1e6216603ca0293669d901dece69ffd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 17/26] fix: interpolate tables with vector values in
 regular_grid_interp

---
 src/exoplanet/interp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b72eca0..9114289 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -44,15 +44,20 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
 
+    # The trailing dimensions of 'values' are carried along
+    nout = values.ndim - ndim
+
     result = pt.zeros(tuple(coords.shape[:-1]) + tuple(values.shape[ndim:]))
     for edge_indices in itertools.product(*((i, i + 1) for i in indices)):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(weight, nout)
 
     if fill_value is not None:
-        result = pt.switch(out_of_bounds, fill_value, result)
+        result = pt.switch(
+            pt.shape_padright(out_of_bounds, nout), fill_value, result
+        )
 
     return result
 
-- 
2.43.0


From d3bb2be76f64e10a977d86c4c1ded91334a9023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 18/26] fix: light delay of secondary eclipses has the right
 sign

---
 src/exoplanet/orbits/keplerian.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 08b5049..dbe1d9d 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -72,6 +72,9 @@ class KeplerianOrbit:
 
     __citations__ = ("astropy",)
 
+    # The orbit that this one was obtained from by exchanging the two bodies
+    _flipped_from = None
+
     def __init__(
         self,
         period=None,
@@ -545,6 +548,15 @@ class KeplerianOrbit:
             ``R_sun``.
 
         """
+        if light_delay and self._flipped_from is not None:
+            # The delay is the same when the same pair of bodies is seen with
+            # their roles exchanged
+            return tuple(
+                -x
+                for x in self._flipped_from.get_relative_position(
+                    t, parallax, light_delay=True
+                )
+            )
         return tuple(
             pt.squeeze(x)
             for x in self._get_position(
@@ -811,6 +823,7 @@ class KeplerianOrbit:
                 r_star=r_planet,
                 model=model,
             )
+        orbit._flipped_from = self
         return orbit
 
 
-- 
2.43.0


From b760b53f26108493920102d7d8861fb64681d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 19/26] fix: light curves of orbits with partly known shapes

---
 src/exoplanet/light_curves/limb_dark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..3ae9e62 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -213,9 +213,8 @@ class LimbDarkLightCurve:
         # Evalute the coordinates of the transiting body in the plane of the
         # sky
         coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
-        b = pt.sqrt(coords[0] ** 2 + coords[1] ** 2)
-        b = pt.reshape(b, rgrid.shape)
-        los = pt.reshape(coords[2], rgrid.shape)
+        x, y, los = (pt.reshape(coord, rgrid.shape) for coord in coords)
+        b = pt.sqrt(x**2 + y**2)
 
         lc = self._compute_light_curve(
             b / orbit.r_star, rgrid / orbit.r_star, los / orbit.r_star
-- 
2.43.0


From 213de047cd64a4123c0c892737804644b98d575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 20/26] fix: bounded kipping13 prior with a shape starts inside
 the bounds

---
 src/exoplanet/distributions/eccentricity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..8bf317e 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -85,8 +85,10 @@ def kipping13(
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
             if ecc is None:
+                default = 0.5 * (lower + upper)
+                default = default + np.zeros(kwargs.get("shape", ()))
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval", kwargs.pop("testval", default)
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From bffe811a2db9790f36244d74691c51058fa6d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 21/26] fix: two threads can't both attach a unit to the same
 tensor

---
 src/exoplanet/units.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/units.py b/src/exoplanet/units.py
index 358109f..5818ba8 100644
--- a/src/exoplanet/units.py
+++ b/src/exoplanet/units.py
@@ -1,8 +1,11 @@
 __all__ = ["with_unit", "has_unit", "to_unit"]
 
+import threading
+
 from exoplanet.utils import as_tensor_variable
 
 UNIT_ATTR_NAME = "__exoplanet_unit__"
+_UNIT_LOCK = threading.Lock()
 
 
 def with_unit(obj, unit):
@@ -16,10 +19,12 @@ def with_unit(obj, unit):
         TypeError: If the tensor already has units
 
     """
-    if hasattr(obj, UNIT_ATTR_NAME):
-        raise TypeError("{0} already has units".format(repr(obj)))
-    obj = as_tensor_variable(obj)
-    setattr(obj, UNIT_ATTR_NAME, unit)
+    # Another thread must not attach its unit between the check and the update
+    with _UNIT_LOCK:
+        if hasattr(obj, UNIT_ATTR_NAME):
+            raise TypeError("{0} already has units".format(repr(obj)))
+        obj = as_tensor_variable(obj)
+        setattr(obj, UNIT_ATTR_NAME, unit)
     return obj
 
 
-- 
2.43.0


From 250b6a6cca0ed986639523bf07f174465af25e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 22/26] fix: quad_limb_dark with a shape has a default starting
 value

---
 src/exoplanet/distributions/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..386f56b 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,10 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    zero = np.zeros(kwargs.get("shape", ()))
+    u = kwargs.pop(
+        "initval", kwargs.pop("testval", [np.sqrt(0.5) + zero, zero])
+    )
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From 82e1bd638a37920f482aa98dcebc5e4e01565ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 23/26] fix: semi-amplitudes of velocities with units and no
 uncertainties

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 0a97917..c6f437a 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From 4b48e061bcf0d62a6a65789a8ba70c803879897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 24/26] fix: in_transit never returned for planets of infinite
 radius or zero orbit

The solver for the contact points of eccentric orbits searches forever when
the separation at contact is infinitely larger than the orbit, so a single
corrupted radius or period hung every light curve of the system.
---
 src/exoplanet/orbits/keplerian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index dbe1d9d..72657c8 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -760,14 +760,18 @@ class KeplerianOrbit:
             flag = z
 
         else:
+            # The solver never returns if the separation at contact is
+            # infinitely larger than the orbit
+            L = R + r
+            a = pt.switch(pt.isinf(L / self.a), np.nan, self.a)
             M_contact = ops.contact_points(
-                self.a,
+                a,
                 self.ecc,
                 self.cos_omega,
                 self.sin_omega,
                 self.cos_incl + z,
                 self.sin_incl + z,
-                R + r,
+                L,
             )
             flag = M_contact[2]
 
-- 
2.43.0


From aea53daa0f164d901f24e99ebc9945cc22d3b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 25/26] fix: Jacobians of a_star and a_planet by the duration
 for massive planets

For a given period and planet mass the total mass changes with the semimajor
axis, so d(a_star)/d(duration) had the wrong sign and both the wrong size.
---
 src/exoplanet/orbits/keplerian.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 72657c8..5ac5839 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -157,12 +157,10 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
-            self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
-            )
-            self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
-            )
+            # For a fixed period and planet mass, m_total goes like a**3
+            mr = self.m_planet / self.m_total
+            self.jacobians["duration"]["a_star"] = -2 * dadtau * mr
+            self.jacobians["duration"]["a_planet"] = -dadtau * (1 + 2 * mr)
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
             # -> drho / d(a/R) = 9 * pi * (a/R)**2 / (G * P**2)
-- 
2.43.0


From 89dec338ecf9a10104f9b9296415cf62eb3e5b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 26/26] fix: keep a corrupted value in its own entries of an
 interpolated light curve

A timestamp, period or epoch that isn't finite made the whole light curve of
InterpolatedLightCurve fail, because it can't be converted to a cell of the
grid or to the size of the grid.
---
 src/exoplanet/light_curves/interpolated.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..92631d3 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -5,21 +5,21 @@ import numpy as np
 from exoplanet.compat import tensor as pt
 
 
-def interp(n, x, xmin, xmax, dx, func):
+def interp(n, x, xmin, num, dx, func):
     """One-dimensional regularly spaced cubic interpolation
 
     Args:
         n (int): The axis of the output that should be interpolated
         x (tensor): The x coordinates where the model should be evaluated
         xmin (scalar): The first coordinate in the grid
-        xmax (scalar): The last coordinate in the grid
+        num (int): The number of grid cells
         dx (scalar): The grid spacing
         func (callable): The function that should be interpolated
 
     Returns:
         y: The function ``func`` interpolated to the coordinates ``x``
     """
-    xp = pt.arange(xmin - dx, xmax + 2.5 * dx, dx)
+    xp = xmin + dx * pt.arange(-1, num + 3)
     yp = func(xp)
 
     y0 = yp[:-3, n]
@@ -32,7 +32,9 @@ def interp(n, x, xmin, xmax, dx, func):
     a2 = 0.5 * (y0 + y2) - y1
     a3 = 0.5 * ((y1 - y2) + (y3 - y0) / 3.0)
 
-    inds = pt.cast(pt.floor((x - xmin) / dx), "int64")
+    # A coordinate that isn't finite has no cell; its value will be NaN
+    inds = pt.floor((x - xmin) / dx)
+    inds = pt.cast(pt.clip(pt.switch(pt.isnan(inds), 0, inds), 0, num), "int64")
     x0 = (x - xp[inds + 1]) / dx
     return a0[inds] + a1[inds] * x0 + a2[inds] * x0**2 + a3[inds] * x0**3
 
@@ -92,7 +94,7 @@ class InterpolatedLightCurve:
                 0,
                 pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
                 mn,
-                mx,
+                self.num_phase + 1,
                 (mx - mn) / (self.num_phase + 1),
                 func,
             )[:, None]
@@ -116,7 +118,7 @@ class InterpolatedLightCurve:
                     n,
                     pt.mod(t - orbit.t0[n], orbit.period[n]) + orbit.t0[n],
                     mn,
-                    mx,
+                    self.num_phase + 1,
                     (mx - mn) / (self.num_phase + 1),
                     func,
                 )
-- 
2.43.0


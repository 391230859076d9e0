From 7e0ddc9b0eac880c52adb27a089eba4f895ba00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 01/40] fix: advance depth and stress past layers equal to the
 last layer

---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..8405736 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2135,7 +2135,9 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            # Identity is required here because an interior layer may have the
+            # same properties as the final layer
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From 789805e19eb7353cc65b416ee343793d67e4d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 02/40] fix: Profile.index finds the layer itself, not the
 first equal layer

---
 src/pystrata/site.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 8405736..aec91c1 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2106,6 +2106,11 @@ class Profile(collections.abc.Container):
         return Profile([layer.copy() for layer in self], self.wt_depth)
 
     def index(self, layer):
+        # Layers with the same properties are considered equal, so look for
+        # this specific layer first
+        for i, other in enumerate(self.layers):
+            if other is layer:
+                return i
         return self.layers.index(layer)
 
     def append(self, layer):
-- 
2.43.0


From a2ae575a081c6a503b630b27dba4adaf49791d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 03/40] fix: Profile.iter_soil_types yields each soil type once

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index aec91c1..4490699 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2151,10 +2151,10 @@ class Profile(collections.abc.Container):
     def iter_soil_types(self):
         yielded = set()
         for layer in self:
-            if layer.soil_type in yielded:
+            if id(layer.soil_type) in yielded:
                 continue
             else:
-                yielded.add(layer)
+                yielded.add(id(layer.soil_type))
                 yield layer.soil_type
 
     def auto_discretize(
-- 
2.43.0


From 6b75d9cfe80dbd020157219253cb63eb22e62948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 04/40] fix: copies of layers start from the initial velocity,
 not the strain-compatible one

---
 src/pystrata/site.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 4490699..284f891 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
@@ -2184,7 +2186,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2192,7 +2194,7 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
-- 
2.43.0


From 470d470e2d895d1c1704a771be4f60a0c140f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 05/40] fix: auto_discretize does not share layers with the
 source profile

---
 src/pystrata/site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 284f891..0410138 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2199,9 +2199,9 @@ class Profile(collections.abc.Container):
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From 80650bd8bc4d7ff11c4c4b0be92e42ba8ed792ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 06/40] fix: varied profiles do not share the half-space with
 the seed profile

---
 src/pystrata/variation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..633b1f2 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -292,7 +292,7 @@ class HalfSpaceDepthVariation:
 
         # Find the layer
         index, depth_within = profile.lookup_depth(varied_depth)
-        half_space = profile[-1]
+        half_space = profile[-1].copy()
 
         if index < (len(profile) - 1):
             # Variation is within the layers
@@ -928,7 +928,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From fb45d84a9b55522e000579a6f6a85ed9518f20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 07/40] fix: varied layering keeps the damping of the
 half-space

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 633b1f2..9a31176 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From 99e2d614eb38f9ea5ac0b9af26b048a4dae88e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 08/40] fix: relative error counts increases of modulus or
 damping as well

---
 src/pystrata/propagation.py | 5 +++--
 src/pystrata/site.py        | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..d719aeb 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -799,8 +799,9 @@ class EquivalentLinearCalculator(LinearElasticCalculator):
                     strain = np.minimum(strain, self._strain_limit)
                 layer.strain = strain
 
-            # Maximum error (damping and shear modulus) over all layers
-            max_error = max(profile.max_error)
+            # Maximum error (damping and shear modulus) over all layers. The
+            # half-space is not iterated.
+            max_error = max((layer.max_error for layer in profile[:-1]), default=0)
             if max_error < self.tolerance:
                 break
 
diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 0410138..ae91bf1 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs((self.previous - self.value) / self.value))
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From ff134cf440b90809ad9d388b7a1d50583df187ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 09/40] fix: random-vibration motions provide pga and pgv

---
 src/pystrata/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..55280e5 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
@@ -167,18 +179,6 @@ class TimeSeriesMotion(Motion):
             ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
         return ts
 
-    def calc_pgv(self, tf=None):
-        tf = 1 if tf is None else np.asarray(tf)
-        # Compute transfer function from acceleration to velocity
-        # only over non-zero frequencies
-        mask = ~np.isclose(self.angular_freqs, 0)
-        tf_av = np.zeros_like(mask, dtype=complex)
-        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
-        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
-
-    def calc_pga(self, tf=None):
-        return self.calc_peak(tf)
-
     def calc_peak(self, tf=None, **kwargs):
         ts = self.calc_time_series(tf)
         return np.abs(ts).max()
-- 
2.43.0


From 68857ddf3a957fa30102f9b64bd8e56f3e6244db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 10/40] fix: time-series motions with an odd Fourier length

---
 src/pystrata/motion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index 55280e5..d744ca9 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -174,9 +174,9 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step, self._fa_length)
         return ts
 
     def calc_peak(self, tf=None, **kwargs):
@@ -237,10 +237,11 @@ class TimeSeriesMotion(Motion):
         else:
             n = fa_length
 
+        self._fa_length = n
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
         freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = freq_step * np.arange(1 + n // 2)
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From c80c62f20eb57c1f09ea53961cc43b899b337d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 11/40] fix: import the propagation module without numba

---
 src/pystrata/propagation.py | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index d719aeb..65d2fcc 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,25 +73,6 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
-def _my_trapz_impl(thickness, prop, depth_max):
-    total = 0
-    depth = 0
-
-    for t, p in zip(thickness, prop):
-        depth += t
-        if depth_max < depth:
-            # Partial layer
-            total += (t - (depth - depth_max)) * p
-            break
-        total += t * p
-    else:
-        # Final infinite layer
-        total += (depth_max - depth) * p
-
-    return total / depth_max
-
-
 def _my_trapz_python(thickness, prop, depth_max):
     total = 0
     depth = 0
@@ -110,7 +91,7 @@ def _my_trapz_python(thickness, prop, depth_max):
     return total / depth_max
 
 
-my_trapz = _my_trapz_impl if HAS_NUMBA else _my_trapz_python
+my_trapz = numba.njit(_my_trapz_python) if HAS_NUMBA else _my_trapz_python
 
 
 def _calc_waves_python(angular_freqs, comp_shear_vels, comp_shear_mods, thicknesses):
-- 
2.43.0


From 68355cd2baf3c97117e9ed9d3712c1928db7ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 12/40] fix: adjust_damping_values uses the thickness of the
 selected layers

---
 src/pystrata/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..d5bfc12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,7 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From e7631ac69f424df4431b0949733778c2fa814b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 13/40] fix: statistics and tables of outputs with a single
 result

---
 src/pystrata/output.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..f763aed 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -235,7 +235,7 @@ class Output:
             self._values = append_arrays(self._values, values)
 
     def calc_stats(self, as_dataframe=False):
-        ln_values = np.log(self.values)
+        ln_values = np.log(self.values.reshape(len(self.values), -1))
         median = np.exp(np.nanmean(ln_values, axis=1))
         ln_std = np.nanstd(ln_values, axis=1)
 
@@ -652,7 +652,7 @@ class ProfileBasedOutput(Output):
         if ref is None:
             ref = np.linspace(0, np.nanmax(self.refs) * 1.05, num=512)
 
-        n = self.values.shape[1]
+        n = len(self.names)
         with np.errstate(divide="ignore", invalid="ignore"):
             # Ignore zeros in the data
             ln_values = np.array([self._ln_interp(i, ref) for i in range(n)]).T
@@ -678,11 +678,13 @@ class ProfileBasedOutput(Output):
     def _ln_interp(self, i, ref):
         """Interpolate the values in log-y space."""
 
-        _ref = self.refs[:, i]
+        # A single result is one dimensional
+        _ref = self.refs.reshape(len(self.refs), -1)[:, i]
+        _values = self.values.reshape(len(self.values), -1)[:, i]
         # Only select points with valid entries
         mask = np.isfinite(_ref)
         _ref = _ref[mask]
-        _ln_values = np.log(self.values[mask, i])
+        _ln_values = np.log(_values[mask])
 
         if np.any(mask):
             f = interp1d(
@@ -713,7 +715,7 @@ class ProfileBasedOutput(Output):
             columns = self.names
 
         # Ignore zeros in the data
-        n = self.values.shape[1]
+        n = len(self.names)
         values = np.exp(np.array([self._ln_interp(i, ref) for i in range(n)])).T
 
         df = pd.DataFrame(values, index=ref, columns=columns)
-- 
2.43.0


From 5d6c82bd6366cee4d33769a5c8d2334a6ee51d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 14/40] fix: Wang damping curves convert the parameters to
 decimal only once

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index ae91bf1..7042cd3 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1294,7 +1294,8 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # The keywords are already in decimal
+            damping_min = cls.calc_damping_min.__wrapped__(cls, soil_group, **kwds)
 
         gamma_ratio = (100 * strains / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
-- 
2.43.0


From 695cf0c7a3e99b771677a9f41a00e33af64c3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 15/40] fix: kea16_profile accepts the documented region names

---
 src/pystrata/generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..350acbd 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -52,6 +52,8 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     database." Bulletin of the Seismological Society of America, 106(4),
     1710-1723.
     """
+    region = region.lower()
+
     # Coefficients from Table 2 [cite: 184, 185]
     if region == "california":
         b1 = 0.25
-- 
2.43.0


From 868dcc88f08551f9631f035148a37d1f99e838ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 16/40] fix: quarter-wavelength fit keeps the damping of the
 layers

---
 src/pystrata/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 65d2fcc..366f107 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -524,7 +524,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
 
         profile = Profile(
             [
-                Layer(layer.soil_type, thick, 1 / slow)
+                Layer(layer.soil_type, thick, 1 / slow, layer.damping_min)
                 for layer, thick, slow in zip(self.profile, thickness, slowness)
             ],
             self.profile.wt_depth,
-- 
2.43.0


From 4a8bc8c696f35d1724e037d8e05797fc8aa8f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 17/40] fix: quarter-wavelength fit of thicknesses over a
 half-space without thickness

---
 src/pystrata/propagation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 366f107..ef77f47 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -481,10 +481,10 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         if not adjust_source_vel:
             bounds[-1] = (initial[-1], initial[-1])
 
-        # Thickness bounds
+        # Thickness bounds. The half-space is infinite and not adjusted.
         if adjust_thickness:
-            bounds = np.r_[bounds, [[t / 2, 2 * t] for t in thickness]]
-            initial = np.r_[initial, thickness]
+            bounds = np.r_[bounds, [[t / 2, 2 * t] for t in thickness[:-1]]]
+            initial = np.r_[initial, thickness[:-1]]
 
         # Site attenuation bounds
         if adjust_site_atten:
@@ -497,7 +497,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         def err(x):
             _slowness = x[0:nl]
             if adjust_thickness:
-                _thickness = x[nl : (2 * nl)]
+                _thickness = np.r_[x[nl : (2 * nl - 1)], thickness[-1]]
             else:
                 _thickness = thickness
             if adjust_site_atten:
@@ -511,7 +511,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
             # Prefer the original values so add the difference to the error
             err += calc_rmse(slowness, _slowness)
             if adjust_thickness:
-                err += calc_rmse(thickness, _thickness)
+                err += calc_rmse(thickness[:-1], _thickness[:-1])
             if adjust_site_atten:
                 err += calc_rmse(self._site_atten, site_atten)
             return err
@@ -520,7 +520,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
 
         slowness = res.x[0:nl]
         if adjust_thickness:
-            thickness = res.x[nl : (2 * nl)]
+            thickness = np.r_[res.x[nl : (2 * nl - 1)], thickness[-1]]
 
         profile = Profile(
             [
-- 
2.43.0


From d0dabd5c56ce0a387480549a046d6a715f51d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 18/40] fix: quarter-wavelength fit keeps the fitted site
 attenuation

---
 src/pystrata/propagation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index ef77f47..4559f9f 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -521,6 +521,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
         slowness = res.x[0:nl]
         if adjust_thickness:
             thickness = np.r_[res.x[nl : (2 * nl - 1)], thickness[-1]]
+        if adjust_site_atten:
+            self._site_atten = res.x[-1]
 
         profile = Profile(
             [
-- 
2.43.0


From 172e84f9764dc9cb353835b85a397cc64e8e56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 19/40] fix: Arias intensity output starts from zero at time
 zero

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index f763aed..b247118 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From 3463b5f5f5ed77b62ecd8f6b0f367e822b75a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 20/40] fix: smoothed spectra at whole-numbered frequencies

---
 src/pystrata/output.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index b247118..4e82231 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -495,7 +495,7 @@ class FourierAmplitudeSpectrumOutput(LocationBasedOutput):
             fas = np.interp(self.freqs, calc.motion.freqs, fas)
         else:
             fas = pykooh.smooth(
-                self.freqs,
+                self.freqs.astype(float),
                 calc.motion.freqs,
                 fas,
                 self.ko_bandwidth,
@@ -588,7 +588,9 @@ class AccelTransferFunctionOutput(RatioBasedOutput):
         if self._ko_bandwidth is None:
             tf = np.interp(self.freqs, calc.motion.freqs, tf)
         else:
-            tf = pykooh.smooth(self.freqs, calc.motion.freqs, tf, self._ko_bandwidth)
+            tf = pykooh.smooth(
+                self.freqs.astype(float), calc.motion.freqs, tf, self._ko_bandwidth
+            )
 
         self._add_values(tf)
 
-- 
2.43.0


From 98aa4208d3ce7d5965cf17856040861ad99fe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 21/40] fix: logic-tree conditions on numbers allow
 alternatives named by text

---
 src/pystrata/logic_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index af0edf9..4edb8ed 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -60,7 +60,7 @@ class Realization:
             if isinstance(ref, list):
                 ret = check in ref
             elif isinstance(ref, float):
-                ret = np.isclose(ref, check)
+                ret = not isinstance(check, (str, tuple)) and np.isclose(ref, check)
             else:
                 ret = ref == check
             return ret
@@ -124,7 +124,7 @@ class Alternative:
             if isinstance(ref, list):
                 ret = check in ref
             elif isinstance(ref, float):
-                ret = np.isclose(ref, check)
+                ret = not isinstance(check, (str, tuple)) and np.isclose(ref, check)
             else:
                 ret = ref == check
             return ret
-- 
2.43.0


From 57f1fb6ef7c9bffa7047b24611b3fce29f9a9c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 22/40] fix: logic trees read from JSON may have tuples as
 values

---
 src/pystrata/logic_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index 4edb8ed..b7d4004 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -105,6 +105,11 @@ class Alternative:
     excludes: dict[str, Any] = field(default_factory=dict)
     params: dict[str, Any] = field(default_factory=dict)
 
+    def __post_init__(self):
+        # JSON provides tuples as lists
+        if isinstance(self.value, list):
+            self.value = tuple(self.value)
+
     def is_valid(self, branch):
         """
         Check if this alternative is valid given a branch.
-- 
2.43.0


From 4b6a3a1624740fde25c03d255de30b261315290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 23/40] fix: Profile.insert at negative positions updates the
 layers below

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 7042cd3..55a2d57 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2123,7 +2123,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # As for lists, the index may be negative or exceed the number of layers
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From afb4e8193c0a88b70227bf1268c361ea92e01868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 24/40] fix: outputs pad columns of whole numbers with NaN

---
 src/pystrata/output.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 4e82231..e92dfcd 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -160,6 +160,11 @@ def append_arrays(many, single):
 
     # Check if the values need to be padded to for equal length
     diff = single.shape[0] - many.shape[0]
+    if diff != 0:
+        # Padding with NaN is not possible for integers
+        many = np.asarray(many, dtype=np.result_type(many, float))
+        single = np.asarray(single, dtype=np.result_type(single, float))
+
     if diff < 0:
         single = np.pad(single, (0, -diff), "constant", constant_values=np.nan)
     elif diff > 0:
-- 
2.43.0


From 0cf47ebec7ae0ef5f528a224c6e460fc24c48360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 25/40] fix: velocities of simulated layers follow the Toro
 correlation

---
 src/pystrata/variation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 9a31176..087763a 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -26,7 +26,6 @@ from collections.abc import Generator
 import numpy as np
 import numpy.typing as npt
 from scipy import stats
-from scipy.sparse import diags
 
 from . import site
 
@@ -388,13 +387,15 @@ class VelocityVariation:
         # Modify the standard deviation by the truncated norm scale
         std *= randnorm.scale
 
-        var = std**2
-        covar = corr * std[:-1] * std[1:]
+        # The layers form a first-order autoregressive process, for which the
+        # correlation between layers is the product of the adjacent-layer
+        # correlations. Neglecting the correlation of non-adjacent layers would
+        # not provide a valid covariance matrix.
+        mat = np.eye(len(std))
+        for i in range(len(std) - 1):
+            mat[i, i + 1 :] = mat[i + 1 :, i] = np.cumprod(corr[i:])
 
-        # Main diagonal is the variance
-        mat = diags([covar, var, covar], [-1, 0, 1]).toarray()
-
-        return mat
+        return mat * np.outer(std, std)
 
     @abstractmethod
     def _calc_corr(self, profile):
-- 
2.43.0


From 8e7201745726fead3370a8d04758c0c4f374dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 26/40] fix: nrattle control files are read in free format

---
 src/pystrata/tools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index d5bfc12..8764129 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -59,7 +59,7 @@ def parse_fixed_width(types, lines):
     return values
 
 
-def split_line(line, parsers, sep=" "):
+def split_line(line, parsers, sep=None):
     """Split a line into pieces and parse the strings."""
     parts = [part for part in line.split(sep) if part]
     values = [parser(part) for parser, part in zip(parsers, parts)]
@@ -270,11 +270,9 @@ def read_nrattle_ctl(fpath):
     )
 
     profile = []
-    while line := lines.pop(0):
-        try:
-            profile.append(split_line(line, [int, float, float, float, float]))
-        except ValueError:
-            break
+    # The layers are followed by the half-space, which has fewer values
+    while len((line := lines.pop(0)).split()) >= 5:
+        profile.append(split_line(line, [int, float, float, float, float]))
 
     d["profile"] = np.rec.fromrecords(
         profile, names="layer,thickness,vel_shear,density,inv_qual"
-- 
2.43.0


From 76b6159c3fe4eb4ef8a5c11f3cccef0a310c8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 27/40] fix: Vs30 of profiles shallower than 30 m includes the
 half-space

---
 src/pystrata/site.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 55a2d57..6acf076 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2321,6 +2321,9 @@ class Profile(collections.abc.Container):
         """Compute the Vs30 of the profile."""
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
         time = np.interp(30, self.depth, tot_time)
+        if self[-1].depth < 30:
+            # The half-space continues below the profile
+            time += (30 - self[-1].depth) / self[-1].initial_shear_vel
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From 8a833929a20eec08c120262039cef65ab60eb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 28/40] fix: kea16_profile accepts a single depth

---
 src/pystrata/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 350acbd..029efa2 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -99,7 +99,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
 
     df = pd.DataFrame(
         {"vs_median": vs_median, "std_vs_ln_units": std_vs_ln_units},
-        index=pd.Index(depth, name="depth"),
+        index=pd.Index(np.atleast_1d(depth), name="depth"),
     )
 
     return df
-- 
2.43.0


From 9da87c041fdc4dbcc8b7be038461c6778edd1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 29/40] fix: adjust_damping_values refuses when only the
 half-space is selected

---
 src/pystrata/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 8764129..a79bcdd 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -437,7 +437,8 @@ def adjust_damping_values(
     # but the damping isn't adjusted
     site_atten_exc = sum(layer.incr_site_atten for layer in layers_exc)
 
-    if not layers:
+    # The half-space has no thickness and cannot attain the target by itself
+    if not any(layer.thickness > 0 for layer in layers):
         raise RuntimeError("No layers selected")
 
     # Adjust the target by the scattering and excluded layer attenuation
-- 
2.43.0


From 739844c0dd852997fc7d0a576608beceae3c560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 30/40] fix: nonlinear curves given from large to small strains
 used the wrong end value outside the table

---
 src/pystrata/site.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 6acf076..eaa8a80 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -205,11 +205,13 @@ class NonlinearCurve(ABC):
 
         x = np.log(self.strains)
         y = self.values
+        # The strains may be provided in any order
+        first, last = np.argmin(x), np.argmax(x)
 
         if self.strains.shape == self.values.shape:
             # 1D interpolate
             self._interpolater = interp1d(
-                x, y, "linear", bounds_error=False, fill_value=(y[0], y[-1])
+                x, y, "linear", bounds_error=False, fill_value=(y[first], y[last])
             )
         elif self.values.ndim == 2 and self.strains.shape[0] == self.values.shape[0]:
             self._interpolater = [
@@ -218,7 +220,7 @@ class NonlinearCurve(ABC):
                     y[:, i],
                     "linear",
                     bounds_error=False,
-                    fill_value=(y[0, i], y[-1, i]),
+                    fill_value=(y[first, i], y[last, i]),
                 )
                 for i in range(y.shape[1])
             ]
-- 
2.43.0


From 248f8a110e0cde8a783879ecbbfbff4aa3131b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 31/40] fix: Node.by_value finds a number among text
 alternatives

---
 src/pystrata/logic_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index b7d4004..dfa6f5b 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -192,7 +192,9 @@ class Node:
         """
         for a in self.alts:
             if (
-                isinstance(value, float) and np.isclose(a.value, value)
+                isinstance(value, float)
+                and not isinstance(a.value, (str, tuple))
+                and np.isclose(a.value, value)
             ) or a.value == value:
                 return a
 
-- 
2.43.0


From 1594afbeaba0a24bcc922e0c155a33bae05a20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 32/40] fix: plotting a second profile in the same axes turned
 the depth axis upwards

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index e92dfcd..b73e89c 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -681,7 +681,9 @@ class ProfileBasedOutput(Output):
 
     def plot(self, ax=None, style="stats"):
         ax = Output.plot(self, ax, style)
-        ax.invert_yaxis()
+        # Inverting is a toggle, and the axis may hold other profiles
+        if not ax.yaxis_inverted():
+            ax.invert_yaxis()
         return ax
 
     def _ln_interp(self, i, ref):
-- 
2.43.0


From 0005510891deb915c68bed837aabb8a039896606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 33/40] fix: plot_amplification_evolv with osc_damping raised
 AttributeError

---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index b73e89c..c0c3335 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -59,7 +59,7 @@ def plot_amplification_evolv(
     if freqs is None:
         freqs = np.logspace(-1, 2, num=301)
 
-    osc_damping = 0.05 if "osc_damping" not in kwds else kwds["osc_damping"]
+    osc_damping = kwds.pop("osc_damping", 0.05)
 
     ln_freqs = np.log(freqs)
     ln_freqs_mot = np.log(calc.motion.freqs)
-- 
2.43.0


From f6e4749819824f4480a3433837a9121680e107d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 34/40] fix: plot_amplification_evolv showed no depth range

---
 src/pystrata/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c0c3335..569a28a 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -106,7 +106,7 @@ def plot_amplification_evolv(
         xscale="log",
         ylabel="Depth (m)",
         yscale="linear",
-        ylim=(depths[0], 0),
+        ylim=(np.max(depths), 0),
     )
 
     return ax
-- 
2.43.0


From 84544dac786b12bcb05ed41aa306d53cea8c4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 35/40] fix: plotting a CyclicStressRatioProfile raised
 AttributeError

---
 src/pystrata/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 569a28a..cf09c6c 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -814,6 +814,8 @@ class CyclicStressRatioProfile(ProfileBasedOutput):
     # and has been in use ever since.
     _stress_level = 0.65
 
+    xlabel = "Cyclic Stress Ratio"
+
     def __init__(self):
         super().__init__()
 
-- 
2.43.0


From 6688b120a405b3ca35be4c6204c3ed3f1cd5baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:11 +0000
Subject: [PATCH 36/40] fix: frequency-dependent strains of the ka02 method
 were NaN where both terms of the fit overflow

---
 src/pystrata/propagation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 4559f9f..bde3a6a 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -961,11 +961,10 @@ class FrequencyDependentEqlCalculator(EquivalentLinearCalculator):
             a, b = np.linalg.lstsq(A, np.log(strain_fas[~mask]), rcond=None)[0]
             # This is a modification of the published method that ensures a
             # smooth transition in the strain. Make sure the frequencies are zero.
-            shape = np.minimum(
-                1,
-                np.exp(-a * freqs)
-                / np.maximum(np.finfo(float).eps, np.power(freqs, b)),
-            )
+            # Evaluated with logarithms, as both terms may overflow.
+            ln_freqs = np.log(np.maximum(np.finfo(float).tiny, freqs))
+            ln_power = np.maximum(np.log(np.finfo(float).eps), b * ln_freqs)
+            shape = np.exp(np.minimum(0, -a * freqs - ln_power))
             strains = strain_eff * shape
         elif self._method.startswith("ko:"):
             if self._smoother is None or not self._smoother.freqs_match(motion.freqs):
-- 
2.43.0


From 9048b6ba402eebc5f5369126c58b8ee32aef5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 37/40] fix: hash of a soil type or layer changed between
 calls, so that sets and dictionaries lost them

---
 src/pystrata/site.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index eaa8a80..74c5c22 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -366,7 +366,8 @@ class SoilType:
         return type(self) is type(other) and self.__dict__ == other.__dict__
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        # Equal soil types have the same type and name
+        return hash((type(self), self.name))
 
 
 class ModifiedHyperbolicSoilType(SoilType, ABC):
@@ -1771,7 +1772,8 @@ class Layer:
         )
 
     def __hash__(self):
-        return hash(self.__dict__.values())
+        # Equal layers have equal soil types
+        return hash(self._soil_type)
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-- 
2.43.0


From 948627a1ddf2e3aa12badfd3872e78f67d49e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:57 +0000
Subject: [PATCH 38/40] fix: Toro velocity correlation uses the distance
 between the middles of the two layers

---
 src/pystrata/variation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 087763a..ae2bbc4 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -562,10 +562,11 @@ class ToroVelocityVariation(VelocityVariation):
         depths_mid = np.array(profile.depth_mid)
         depth = np.mean(np.c_[depths_mid[:-1], depths_mid[1:]], axis=1)
 
-        # t variable from Toro; defined as the difference of the midpoint depths
+        # t variable from Toro; defined as the difference of the midpoint depths of
+        # layers i and i-1. The half-space is treated separately below.
         # Here the thickness is limited to 100 m to prevent underflow on the
         # exponent. For this thickness, the correlation will be minor
-        thick = np.minimum(np.diff(depth), 100)
+        thick = np.minimum(np.diff(depths_mid)[:-1], 100)
 
         # Remove the depth associated with the final layer. We will set that it is
         # perfectly correlated later.
-- 
2.43.0


From e29be04ec001dfbd379c2d5636e2145d5b8657e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:54 +0000
Subject: [PATCH 39/40] fix: small-strain damping of a curve is the one at its
 smallest strain

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 74c5c22..cc669e5 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -340,7 +340,8 @@ class SoilType:
     def damping_min(self) -> float:
         """Return the small-strain damping."""
         try:
-            value = self.damping.values[0]
+            # The strains may be provided in any order
+            value = self.damping.values[np.argmin(self.damping.strains)]
         except AttributeError:
             value = self.damping
 
-- 
2.43.0


From 453a061fbffac1ebab4c657f58ef9ed5a716cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:54 +0000
Subject: [PATCH 40/40] fix: hyperbolic damping curves for strains in any order

---
 src/pystrata/site.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index cc669e5..4e9c9a2 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -424,8 +424,11 @@ class ModifiedHyperbolicSoilType(SoilType, ABC):
         # Compute the damping correction in percent
         d_correction = self.masing_scaling * damping_masing * mod_reduc**0.1
 
-        # Prevent the damping from reducing as it can at large strains
-        damping = np.maximum.accumulate(d_correction / 100.0)
+        # Prevent the damping from reducing as it can at large strains. The strains
+        # may be provided in any order.
+        order = np.argsort(strains)
+        damping = np.empty_like(d_correction)
+        damping[order] = np.maximum.accumulate(d_correction[order] / 100.0)
 
         # Add the minimum damping component
         if isinstance(damping_min, np.ndarray):
-- 
2.43.0


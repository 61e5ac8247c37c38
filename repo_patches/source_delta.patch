From 016bd7b25966a5fbaaada3c65ebccfb197a4af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 01/24] fix: don't overwrite the user's timesteps in evol_ecc

With a 2D `timesteps` array the timesteps close to the merger were replaced in place, so the
array that the caller passed in was silently changed.
---
 src/legwork/evol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..1c7ee8a 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -383,7 +383,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
-            # set them all equal to the previous timestep before passing limit
+            # set them all equal to the previous timestep before passing limit (without changing user input)
+            timesteps = timesteps.copy()
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
             timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]
-- 
2.43.0


From 554569c1550f996bf8aa531af950b3ccfb4cbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/24] fix: keep sensitivity curve in sync for `|=` and
 `setdefault` on sc_params

`dict.__ior__` and `dict.setdefault` bypassed the overridden methods, so `|=` changed the
parameters without re-interpolating the curve and both could add unknown keys.
---
 src/legwork/source.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..b3a5f0a 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1577,6 +1577,16 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, other):
+        """Change several parameters with ``|=``, this is the same as using ``update``"""
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Every parameter always has a value so just return it (as long as it exists)"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 9c376a83a69846f5119f46c017347bb42c11a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 03/24] fix: allow deepcopy of a Source

copy.deepcopy rebuilt sc_params item by item, which re-interpolated the curve of a half-built
Source and raised an AttributeError.
---
 src/legwork/source.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index b3a5f0a..2115408 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -6,7 +6,7 @@ import numpy as np
 from importlib import resources
 from scipy.interpolate import interp1d, RectBivariateSpline
 import os
-from copy import copy
+from copy import copy, deepcopy
 
 from . import utils, strain, psd, evol
 from . import snr as sn
@@ -1591,6 +1591,14 @@ class SensitivityCurveParams(dict):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
 
+    def __deepcopy__(self, memo):
+        """Deepcopy the parameters without triggering any re-interpolation"""
+        new_params = SensitivityCurveParams()
+        memo[id(self)] = new_params
+        dict.update(new_params, {key: deepcopy(value, memo) for key, value in self.items()})
+        new_params._source = deepcopy(self._source, memo)
+        return new_params
+
     def _cant_remove(self, *args, **kwargs):
         raise TypeError("Sensitivity curve parameters can't be removed, only changed")
 
-- 
2.43.0


From a2b1d1a0ec7b5f847ac1b296edd72f44441dddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 04/24] fix: evolve_sources(create_new_class=True) keeps
 weights and interpolate_sc

The new class lost the statistical weights and always claimed to interpolate the sensitivity
curve, even though it had no curve when the original sources didn't interpolate it.
---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 2115408..366eefb 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1291,12 +1291,12 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 555fbaa89ac86ae3da8c3dae084f5f6cb479f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 05/24] fix: warn about eccentric (not circular) evolving
 sources in plot_sources_on_sc

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 366eefb..a56f953 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1506,7 +1506,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0


From 75dffaa77f16e3d79d2d0b58f608abaf50779603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 06/24] fix: allow a single (scalar) source with a position but
 no inclination or polarisation

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index a56f953..6f0d957 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From 9d92a3d4eb1d28b1039985f3f2f8dec40a4664f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 07/24] fix: check the length of weights and sky parameters in
 Source

Arrays of weights, polarisations and inclinations with the wrong length were accepted and only
failed later, although the class promises a ValueError for mismatched lengths.
---
 src/legwork/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 6f0d957..f3bffd9 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -189,6 +189,7 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None]
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From eae670b3da2a0c183cc42b408ae7da106d1d5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 08/24] fix: convert custom confusion noise to inverse Hertz
 for LISA and DECIGO

The unit was stripped without a conversion, so e.g. 1 / kHz was treated as 1 / Hz.
---
 src/legwork/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..42a8058 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -131,7 +131,7 @@ def lisa_psd(f, t_obs=4 * u.yr, L=2.5e9 * u.m, approximate_R=False, confusion_no
     if isinstance(confusion_noise, str) or confusion_noise is None:
         cn = get_confusion_noise(f=f * u.Hz, t_obs=t_obs, model=confusion_noise).value
     else:
-        cn = confusion_noise(f, t_obs).value
+        cn = confusion_noise(f, t_obs).to(u.Hz**(-1)).value
 
     L = L.to(u.m).value
 
@@ -261,7 +261,7 @@ def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="k
     if isinstance(confusion_noise, str) or confusion_noise is None:
         cn = get_confusion_noise(f=f * u.Hz, t_obs=t_obs, model=confusion_noise).value
     else:
-        cn = confusion_noise(f, t_obs).value
+        cn = confusion_noise(f, t_obs).to(u.Hz**(-1)).value
 
 
     # calculate sensitivity curve
-- 
2.43.0


From bfbf147a331ab8a51a81f7f6f5960a24175f7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 09/24] fix: respect the units of a custom PSD when
 interpolating the sensitivity curve

---
 src/legwork/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index f3bffd9..106feb2 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -651,7 +651,8 @@ class Source():
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
 
             # interpolate
-            interp_sc = interp1d(frequency_range, sc, bounds_error=False, fill_value=1e30)
+            interp_sc = interp1d(frequency_range.value, u.Quantity(sc, u.Hz**(-1)).value,
+                                 bounds_error=False, fill_value=1e30)
 
             # add units back
             self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz
-- 
2.43.0


From 9bd384eaa3880b31034d19e46cc28dbbdfed2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 10/24] fix: accept numpy integers for the harmonic in
 Source.get_h_0_n and get_h_c_n

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 106feb2..37cffaf 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -755,7 +755,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_0_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiraling sources (exclude merged)
@@ -804,7 +804,7 @@ class Source():
             which_sources = np.repeat(True, self.n_sources)
 
         # by default set all strains to zero
-        n_harmonics = len(harmonics) if not isinstance(harmonics, int) else 1
+        n_harmonics = np.size(harmonics)
         h_c_n = np.zeros((self.n_sources, n_harmonics))
 
         # find a mask for the inspiralling sources (exclude merged)
-- 
2.43.0


From b4c498e65a22e2357b70a116f80f2737f59a48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 11/24] fix: load sources with a custom instrument when
 interpolating the sensitivity curve

A custom PSD isn't saved, and users are told to set it after loading, but from_file (and setting
`instrument` to custom before `custom_psd`) already tried to call it and raised a TypeError.
---
 src/legwork/source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 37cffaf..949907d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -645,7 +645,10 @@ class Source():
         If user wants to interpolate then perform interpolation of LISA sensitivity curve using
         ``sc_params``. Otherwise just leave the function as None.
         """
-        if self.interpolate_sc:
+        # a custom instrument has no curve until its PSD is supplied (e.g. it can't be loaded from a file)
+        missing_psd = self.sc_params["instrument"] == "custom" and self.sc_params["custom_psd"] is None
+
+        if self.interpolate_sc and not missing_psd:
             # get values
             frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
-- 
2.43.0


From a1c21fe3091deb3ac57f326301bd948cc34dd292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 12/24] fix: interpolate the DECIGO sensitivity curve over its
 whole band

The interpolated curve stopped at 2 Hz, so sources between 2 Hz and 100 Hz had an SNR of 0 by
default, unlike with `interpolate_sc=False`.
---
 src/legwork/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 949907d..5467ca3 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -650,7 +650,8 @@ class Source():
 
         if self.interpolate_sc and not missing_psd:
             # get values
-            frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
+            f_max = 1e2 if self.sc_params["instrument"] == "DECIGO" else 2
+            frequency_range = np.logspace(-7, np.log10(f_max), 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
 
             # interpolate
-- 
2.43.0


From 959772944e0899c98071ae432b0275a933c0156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 13/24] fix: accept any scalar quantity for t_evol in
 evolve_sources

Scalars that aren't Python floats (e.g. float32) were treated as arrays and raised a TypeError.
---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 5467ca3..ee409e5 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1260,7 +1260,7 @@ class Source():
         e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))
 
         # split up the evolution times if need be
-        if isinstance(t_evol.value, (int, float)):
+        if np.ndim(t_evol) == 0:
             t_evol_circ = t_evol
             t_evol_ecc = t_evol
         else:
-- 
2.43.0


From dcec61e148c57a1808b3c000c8813d79fef01936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 14/24] fix: accept a list of eccentricities in get_t_merge_ecc

Lists were sent to the array branch but then compared with floats, which raised a TypeError.
---
 src/legwork/evol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 1c7ee8a..42ea046 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -552,6 +552,9 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
     """
     beta, a_i = check_mass_freq_input(beta=beta, m_1=m_1, m_2=m_2, a_i=a_i, f_orb_i=f_orb_i)
 
+    # convert lists so that they can be compared and masked
+    ecc_i = np.asarray(ecc_i) if isinstance(ecc_i, list) else ecc_i
+
     # shortcut if all binaries are circular
     if np.all(ecc_i == 0.0):
         return get_t_merge_circ(beta=beta, a_i=a_i)
-- 
2.43.0


From 2ea9b5fedb34c420089751ea931d5c6467849fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 15/24] fix: plot the sensitivity curve in Hertz whatever the
 units of the frequencies

---
 src/legwork/visualisation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index 9b52cc4..e2a1e01 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -359,11 +359,14 @@ def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=
     if frequency_range is None:
         frequency_range = np.logspace(-5, 0, 1000) * u.Hz
 
+    # everything is plotted in Hertz (this is what the axis labels assume)
+    frequency_range = frequency_range.to(u.Hz)
+
     if fig is None or ax is None:
         fig, ax = plt.subplots(figsize=figsize)
 
     # work out what the noise amplitude should be
-    PSD = psd.power_spectral_density(f=frequency_range, **kwargs)
+    PSD = u.Quantity(psd.power_spectral_density(f=frequency_range, **kwargs), u.Hz**(-1))
     if y_quantity == "ASD":
         noise_amplitude = np.sqrt(PSD)
     elif y_quantity == "h_c":
-- 
2.43.0


From 8a86dca5f49973e052c720499ddfea7dd60b66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 16/24] fix: choose histogram bins when weights are supplied in
 plot_1D_dist

---
 src/legwork/visualisation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/visualisation.py b/src/legwork/visualisation.py
index e2a1e01..20b16a0 100644
--- a/src/legwork/visualisation.py
+++ b/src/legwork/visualisation.py
@@ -141,6 +141,11 @@ def plot_1D_dist(x, weights=None, disttype="hist", log_scale=False, fig=None, ax
 
                 # apply log to variable
                 x = np.log10(x)
+
+            # numpy can't choose the bins for weighted data so choose them without the weights
+            if weights is not None and isinstance(plot_args["bins"], str):
+                plot_args["bins"] = np.histogram_bin_edges(x, bins=plot_args["bins"],
+                                                           range=plot_args.get("range", None))
             ax.hist(x, weights=weights, color=color, **plot_args)
         elif disttype == "kde":
             sns.kdeplot(x=x, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)
-- 
2.43.0


From a014a15b7ae7ff0a641034aab6af0c8bc829a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 17/24] fix: keep the LISA response positive beyond the
 tabulated range (long arms, high frequency)

---
 src/legwork/psd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 42a8058..e2e2f3b 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -47,6 +47,9 @@ def load_response_function(f, fstar=19.09e-3):
 
     # use interpolated curve to get R values for supplied f values
     R = splev(f, R_data, der=0)
+
+    # the spline can't be extrapolated past the end of the file (R may become negative), so approximate there
+    R = np.where(f > f_R[-1] * fstar, approximate_response_function(f, fstar), R)
     return R
 
 
-- 
2.43.0


From 4d1eb668407694b7346753497c939e0094f5f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 18/24] fix: circular binaries got a merger time of 0 when
 small_e_tol is 0 (C07)

---
 src/legwork/evol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 42ea046..a718489 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -570,7 +570,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
         circular = ecc_i == 0.0
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
-        other_e = np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol)
+        other_e = np.logical_not(circular | small_e | large_e)
 
         # calculate c0 from Peters Eq. 5.11 (avoid circular binaries)
         c0 = np.zeros_like(a_i)
-- 
2.43.0


From 43e402a462e5da0d7dfaadfe365b1d630b98e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 19/24] fix: use the same default mission length for DECIGO in
 the SNR, masks and noise (C16)

---
 src/legwork/source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index ee409e5..6d15fe3 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -727,7 +727,7 @@ class Source():
         elif stationary is True or stationary is False:
             t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
             if t_obs == "auto":
-                t_obs = 4 * u.yr if self.sc_params["instrument"] == "LISA" else 5 * u.yr
+                t_obs = 4 * u.yr if self.sc_params["instrument"] in ["LISA", "DECIGO"] else 5 * u.yr
             stat_mask = evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,
                                                     ecc_i=self.ecc, stat_tol=self.stat_tol)
             if stationary is False:
@@ -988,7 +988,7 @@ class Source():
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1118,7 +1118,7 @@ class Source():
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
-- 
2.43.0


From c688bb1fb98a680b942f99bbb98d487563b03eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 20/24] fix: keep "auto" mission length after an SNR
 calculation so that other instruments use their own (C16)

---
 src/legwork/source.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 6d15fe3..34757a3 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -987,8 +987,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -999,6 +997,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # use the default mission length of the instrument (only once "auto" itself has been recorded)
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
@@ -1117,8 +1119,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1129,6 +1129,10 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
 
+        # use the default mission length of the instrument (only once "auto" itself has been recorded)
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
+
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
         c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)
-- 
2.43.0


From a7cc6ad85387d6a25ff4910a86a7ea8accaf822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 21/24] fix: avoid overflow of small integer harmonics in
 peters_g and fn_dot

---
 src/legwork/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/legwork/utils.py b/src/legwork/utils.py
index cd4dac9..5d3c4af 100644
--- a/src/legwork/utils.py
+++ b/src/legwork/utils.py
@@ -53,6 +53,8 @@ def peters_g(n, e):
     g : `array`
         g(n, e) from Peters and Mathews (1963) Eq. 20
     """
+    # small integer types would overflow in n**4
+    n = np.asarray(n, dtype=float)
 
     bracket_1 = jv(n-2, n*e) - 2*e*jv(n-1, n*e) + 2/n*jv(n, n*e) + 2*e*jv(n+1, n*e) - jv(n+2, n*e)
     bracket_2 = jv(n-2, n*e) - 2*jv(n, n*e) + jv(n+2, n*e)
@@ -256,6 +258,9 @@ def fn_dot(m_c, f_orb, e, n):
     if np.any(n < 1):
         raise ValueError("All harmonics must be greater than or equal to 1")
 
+    # small integer types would overflow
+    n = np.asarray(n, dtype=float)
+
     fn_dot = (48 * n) / (5 * np.pi) * (c.G * m_c)**(5/3) / c.c**5 * (2 * np.pi * f_orb)**(11/3) * peters_f(e)
 
     # simplify units if present
-- 
2.43.0


From 4e98a94c75649cb70676ed253d2ca5dca76eedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 22/24] fix: report missing units of the semi-major axis (or of
 masses given with it) as for every other argument

---
 src/legwork/source.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 34757a3..5e55e67 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -172,17 +172,17 @@ class Source():
                                                                 polarisation, inclination)
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
-        # calculate the orbital frequency if it wasn't supplied
-        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
-
         # define which arguments must have units
-        unit_args = [m_1, m_2, dist, f_orb]
-        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb']
+        unit_args = [m_1, m_2, dist, a if f_orb is None else f_orb]
+        unit_args_str = ['m_1', 'm_2', 'dist', 'a' if f_orb is None else 'f_orb']
 
         for i in range(len(unit_args)):
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
                 "`{}` must have units".format(unit_args_str[i])
 
+        # calculate the orbital frequency if it wasn't supplied
+        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
+
         # make sure the inputs are arrays
         fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)
         m_1, m_2, dist, f_orb, ecc, weights = fixed_args
-- 
2.43.0


From 17869e7c0af72e363d22ef4896e8214e9bf046e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 23/24] fix: fall back to the approximate LISA response when
 the response file is missing

---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index e2e2f3b..f14825c 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From 4e718d2cca77042e5c9cc6e805f61fcea93e2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 24/24] fix: circular binaries within a second of merging get
 an SNR of 0 rather than NaN

---
 src/legwork/snr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/snr.py b/src/legwork/snr.py
index 8a8924e..9c37bb6 100644
--- a/src/legwork/snr.py
+++ b/src/legwork/snr.py
@@ -209,6 +209,9 @@ def snr_circ_evolving(m_1, m_2, f_orb_i, dist, t_obs, n_step, t_merge=None,
         t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
     t_evol = np.minimum(t_merge - (1 * u.s), t_obs)
 
+    # binaries that are even closer to their merger can't be evolved any further (but never backwards)
+    t_evol = np.maximum(t_evol, 0 * u.s)
+
     # get f_orb evolution
     f_orb_evol = evol.evol_circ(t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)
 
-- 
2.43.0


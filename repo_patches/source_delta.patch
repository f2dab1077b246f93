From 6fc22ef02d6e98bac5d2ed71ab5b76ca9a800860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 01/27] fix: default Sensor.w_y keeps the fill factor of x
 instead of inverting it

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 3b97114b2c2adaa2ac25a6a592a80ee89f685c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 02/27] fix: reflectance_to_photoelectrons honours target_temp

---
 src/pybsm/radiance/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..c0b564f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -584,7 +584,7 @@ def reflectance_to_photoelectrons(
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
         # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 1c7981c433568bcadd2fbe735b001a024a8edd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 03/27] fix: emissive NIIRS evaluations set the background
 temperature to 280 K

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From 95d34186e6233663127225be9f8d8f21cec0695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 04/27] fix: niirs5 leaves the caller's sharpening kernel alone

---
 src/pybsm/metrics/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..e5ccfdb 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -551,9 +552,11 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    # ensures that sharpening is turned off.  Not valid for GIQE5
+    unsharpened_sensor = copy.copy(sensor)
+    unsharpened_sensor.filter_kernel = np.array([1])
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened_sensor,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From c97424c40f7d152d87d232489e3a109cfcf2f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 05/27] fix: plot_common_MTFs annotates the Nyquist frequency
 with valid matplotlib arguments

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index e5ccfdb..965aa83 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -746,8 +746,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From f46867dd531e231b680daf3d237ca98147cee800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 06/27] fix: interpolate low altitudes with the 32.5 m database
 record

---
 src/pybsm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..a5f5eea 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 8d7a0b9bccefbbce6060244e4ae00943e595ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 07/27] fix: otf_to_psf keeps the whole kernel when it is
 smaller than the crop size

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..8eda8a7 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -949,7 +949,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
-- 
2.43.0


From c19c7952bab9e93900256f6e6b23b725f2912318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 08/27] fix: otf_to_psf moves zero frequency to the first
 sample for odd-sized transfer functions

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 8eda8a7..1ba35fc 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -931,7 +931,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From 618573e5f873503ffb6f9610373fa50eed69a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 09/27] fix: otf_to_psf returns the whole kernel when no crop
 size can be tried

---
 src/pybsm/otf/functional.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1ba35fc..9f9edac 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -958,6 +958,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
+    psf_out = psf
     for ii in np.arange(10, np.min(otf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
-- 
2.43.0


From acf50d605050d9e307238723d3a64466c1c956a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 10/27] fix: slice_otf follows angles outside the first
 quadrant

---
 src/pybsm/otf/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 9f9edac..9752f83 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1177,7 +1177,8 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
     f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
+    # evaluate point by point: given arrays, f would sort them and return a grid
+    o_slice = np.array([f(r_i * np.cos(ang), r_i * np.sin(ang))[0] for r_i in r])
     # the interpolator, f, calculates a bunch of points that we don't really
     # need since everything but the diagonal is thrown away.  It works but
     # it's inefficient.
-- 
2.43.0


From eab2b03e59464136837985b0660df50aa334b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 11/27] fix: noise_gain accepts kernels that sum to 1 up to
 rounding

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From 152ff4d8f0610869ff8dea7ade0ec4a4d094447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 12/27] fix: nadir_angle is defined when looking straight down
 or up

---
 src/pybsm/geospatial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 82399cb..15fd2a7 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,12 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    nadir = np.arccos(-1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b))
+    cos_nadir = -1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b)
+    # looking straight down or up, rounding may put the cosine slightly beyond +-1
+    cos_nadir = np.where(
+        np.abs(cos_nadir) <= 1.0 + 1.0e-6, np.clip(cos_nadir, -1.0, 1.0), cos_nadir
+    )
+    nadir = np.arccos(cos_nadir)
 
     return nadir
 
-- 
2.43.0


From 7542f65f5a7b1eb920f69168196e7c1823385745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:50 +0000
Subject: [PATCH 13/27] fix: defocused aperture OTF follows Hopkins' series

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 9752f83..917b8fc 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -234,16 +234,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From a845c0c1111a5b34265ef34d207150f5d3b0a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 14/27] fix: common_OTFs applies single-row filter kernels

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 917b8fc..39f94bf 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1401,7 +1401,7 @@ def common_OTFs(  # noqa: N802
     otf.wav_OTF = weighted_by_wavelength(mtf_wavelengths, mtf_weights, wav_function)
 
     # filter OTF (e.g. a sharpening filter but it could be anything)
-    if sensor.filter_kernel.shape[0] > 1:
+    if sensor.filter_kernel.size > 1:
         # note that we're assuming equal ifovs in the x and y directions
         otf.filter_OTF = filter_OTF(uu, vv, sensor.filter_kernel, sensor.p_x / sensor.f)
     else:
-- 
2.43.0


From 1e3ba71004aec77c5f9cb73a3bf0a844f158f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 15/27] fix: label the bars of the noise plot at any figure
 size

---
 src/pybsm/metrics/functional.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 965aa83..5508c4a 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -784,9 +784,9 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
     ind = np.arange(noise_terms.shape[0])
     ax.bar(ind, noise_terms, color="b")
     ax.set_ylabel("RMS Photoelectrons")
+    ax.set_xticks(ind)
     ax.set_xticklabels(
         (
-            " ",
             "Total",
             "Scene",
             "Path",
@@ -797,8 +797,6 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
         ),
         rotation=45,
     )
-    # NOTE: I'm not sure why the first label is ingnored in the previous line
-    # of code seems to be a new issue when I transitions to Python 3.6
     plt.title(
         "total photoelectrons per pixel: "
         + str(int(metrics.snr.tgt_n))
-- 
2.43.0


From 3c109f0e02d15e4ecc32a5ed2abe4939827e893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:00 +0000
Subject: [PATCH 16/27] fix: simulate images whose sharpened pixels are
 negative

---
 src/pybsm/simulation/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..77a0a37 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -252,7 +252,8 @@ def simulate_image(
     )
 
     # add photon noise (all sources) and dark current noise
-    poisson_noisy_img = np.random.poisson(lam=blur_img)
+    # sharpening can push dark pixels next to bright ones below zero; they have no photon noise
+    poisson_noisy_img = np.random.poisson(lam=np.maximum(blur_img, 0.0)) + np.minimum(blur_img, 0.0)
     # add any noise from Gaussian sources, e.g. read_noise, quantizaiton
     noisy_img = np.random.normal(poisson_noisy_img, g_noise)
 
-- 
2.43.0


From 5000ede7f6569ade7d01fd900257373cfb5695b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 17/27] fix: obscured aperture transfer function was wrong by
 up to 2 eta^2/(1-eta^2) where rho = (1-eta)/2 cutoff and rounding left arccos
 undefined

---
 src/pybsm/otf/functional.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 39f94bf..4f3898e 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -160,8 +160,11 @@ def circular_aperture_OTF(  # noqa: N802
     # region where (rho < ((1.0-eta)*r0/2.0)):
     c_1 = -2.0 * eta**2.0 * (rho < (1.0 - eta) * r0 / 2.0)  # noqa: N806
 
-    # region where (rho <= ((1.0+eta)*r0/2.0)):
-    phi = np.arccos((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta)
+    # region where ((1.0-eta)*r0/2.0 <= rho <= (1.0+eta)*r0/2.0), the argument of
+    # arccos may leave [-1, 1] by rounding at its ends:
+    phi = np.arccos(
+        np.clip((1.0 + eta**2.0 - (2.0 * rho / r0) ** 2) / 2.0 / eta, -1.0, 1.0)
+    )
     c_2 = (  # noqa: N806
         2.0 * eta * np.sin(phi) / np.pi
         + (1.0 + eta**2.0) * phi / np.pi
@@ -171,7 +174,9 @@ def circular_aperture_OTF(  # noqa: N802
         (1.0 + eta) * np.tan(phi / 2.0) / (1.0 - eta)
     )
     c_2 = np.nan_to_num(c_2)  # noqa: N806
-    c_2 = c_2 * (rho <= ((1.0 + eta) * r0 / 2.0))  # noqa: N806
+    c_2 = c_2 * (  # noqa: N806
+        (rho >= (1.0 - eta) * r0 / 2.0) & (rho <= ((1.0 + eta) * r0 / 2.0))
+    )
 
     # note that c_1+c_2 = C from the IBSM documentation
 
-- 
2.43.0


From d2e3ad33d035904d12da00132e92f39779fcb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 18/27] fix: slant range above the curved earth was NaN or lost
 in rounding when target and sensor are less than a few centimetres apart

---
 src/pybsm/geospatial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 15fd2a7..58c14dc 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -155,6 +155,9 @@ def curved_earth_slant_range(
     a = r_earth + h_sensor
     c = r_earth + h_target
     theta = ground_range / r_earth  # exact arc length angle (easy to derive)
-    slant_range = np.sqrt(c**2.0 + a**2.0 - 2.0 * a * c * np.cos(theta))
+    # law of cosines, arranged so that short ranges do not drown in the rounding of c**2 + a**2
+    slant_range = np.sqrt(
+        (h_sensor - h_target) ** 2.0 + 4.0 * a * c * np.sin(theta / 2.0) ** 2.0
+    )
 
     return slant_range
-- 
2.43.0


From ab8fc7b7b18f1b73786dba1e68a0bd48f76572a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:31 +0000
Subject: [PATCH 19/27] fix: nadir angle was NaN where target and sensor are
 less than a few centimetres apart

---
 src/pybsm/geospatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index 58c14dc..b8fef36 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -126,7 +126,8 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     a = r_earth + h_sensor
     b = slant_range
     c = r_earth + h_target
-    cos_nadir = -1.0 * (c**2.0 - a**2.0 - b**2.0) / (2.0 * a * b)
+    # a**2 - c**2 as a product: the squares are too large to tell close heights apart
+    cos_nadir = ((h_sensor - h_target) * (a + c) + b**2.0) / (2.0 * a * b)
     # looking straight down or up, rounding may put the cosine slightly beyond +-1
     cos_nadir = np.where(
         np.abs(cos_nadir) <= 1.0 + 1.0e-6, np.clip(cos_nadir, -1.0, 1.0), cos_nadir
-- 
2.43.0


From cb3c498883f5a8e377a83ea6f63f584e671c0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 20/27] fix: Gaussian transfer function raised
 ZeroDivisionError instead of being 1 without blur

---
 src/pybsm/otf/functional.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 4f3898e..e6f43a2 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -582,10 +582,10 @@ def gaussian_OTF(  # noqa: N802
         therefore:
         psf(x,y) = (fxX*fcY)*exp(-pi((fxX*x)^2+(fcY*y)^2))
     """
-    fcX = 1 / blur_size_x  # x-direction cutoff frequency    # noqa: N806
-    fcY = 1 / blur_size_y  # y-direction cutoff frequency    # noqa: N806
-
-    H = np.exp(-np.pi * ((u / fcX) ** 2 + (v / fcY) ** 2))  # noqa: N806
+    # the cutoff frequencies fcX and fcY are the inverse blur sizes (infinite for no blur)
+    H = np.exp(  # noqa: N806
+        -np.pi * ((u * blur_size_x) ** 2 + (v * blur_size_y) ** 2)
+    )
 
     return H
 
-- 
2.43.0


From c6b0405c9633861ebee49291b9b8917b453c0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 21/27] fix: diffusion transfer function raised
 ZeroDivisionError instead of being 1 without diffusion

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index e6f43a2..3bf421a 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -463,7 +463,7 @@ def diffusion_OTF(  # noqa: N802
 
     rho = np.sqrt(u**2 + v**2)
 
-    al_rho = np.sqrt((1.0 / al0**2 + (2.0 * np.pi * rho / f) ** 2) ** (-1))
+    al_rho = al0 / np.sqrt(1.0 + (2.0 * np.pi * rho * al0 / f) ** 2)
 
     H = diffusion_OTF_params(al_rho, alpha, ald) / diffusion_OTF_params(  # noqa: N806
         al0, alpha, ald
-- 
2.43.0


From e8c732f9d7ff390a4c1dc4fd64d48d14bf0de6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 22/27] fix: noise gain of 8-bit integer kernels overflowed

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1cabcf2..bc61c3e 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -56,7 +56,7 @@ def noise_gain(kernel: np.ndarray) -> float:
     if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
-    ng = np.sqrt(np.sum(np.sum(kernel**2)))
+    ng = np.sqrt(np.sum(np.sum(kernel**2.0)))
     return ng
 
 
-- 
2.43.0


From 3b751f719600a7e0c02f32cf23fae92a2602257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 23/27] fix: additional noise terms held in narrow integer
 arrays overflowed

---
 src/pybsm/radiance/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index c0b564f..43f8ad7 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -523,7 +523,7 @@ def photon_detector_SNR(  # noqa: N802
         snr.signal_noise**2
         + snr.quantization_noise**2
         + sensor.read_noise**2
-        + np.sum(sensor.other_noise**2)
+        + np.sum(sensor.other_noise**2.0)
     )
 
     # calculate signal-to-noise ratio
-- 
2.43.0


From 610a30ce53952ca9c800e33c6c6230f4506598fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:39 +0000
Subject: [PATCH 24/27] fix: slant range and nadir angle of heights given as
 unsigned integers

---
 src/pybsm/geospatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pybsm/geospatial.py b/src/pybsm/geospatial.py
index b8fef36..7f58e1d 100755
--- a/src/pybsm/geospatial.py
+++ b/src/pybsm/geospatial.py
@@ -127,7 +127,8 @@ def nadir_angle(h_target: float, h_sensor: float, slant_range: float) -> float:
     b = slant_range
     c = r_earth + h_target
     # a**2 - c**2 as a product: the squares are too large to tell close heights apart
-    cos_nadir = ((h_sensor - h_target) * (a + c) + b**2.0) / (2.0 * a * b)
+    dh = 1.0 * h_sensor - 1.0 * h_target
+    cos_nadir = (dh * (a + c) + b**2.0) / (2.0 * a * b)
     # looking straight down or up, rounding may put the cosine slightly beyond +-1
     cos_nadir = np.where(
         np.abs(cos_nadir) <= 1.0 + 1.0e-6, np.clip(cos_nadir, -1.0, 1.0), cos_nadir
@@ -157,8 +158,7 @@ def curved_earth_slant_range(
     c = r_earth + h_target
     theta = ground_range / r_earth  # exact arc length angle (easy to derive)
     # law of cosines, arranged so that short ranges do not drown in the rounding of c**2 + a**2
-    slant_range = np.sqrt(
-        (h_sensor - h_target) ** 2.0 + 4.0 * a * c * np.sin(theta / 2.0) ** 2.0
-    )
+    dh = 1.0 * h_sensor - 1.0 * h_target
+    slant_range = np.sqrt(dh**2.0 + 4.0 * a * c * np.sin(theta / 2.0) ** 2.0)
 
     return slant_range
-- 
2.43.0


From a276a7c2c5b294d3366f4ec3987f3ba30c7637af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:48 +0000
Subject: [PATCH 25/27] fix: filter_OTF transforms the whole of a kernel larger
 than 100 pixels

---
 src/pybsm/otf/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 3bf421a..3c73d4b 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -521,7 +521,8 @@ def filter_OTF(  # noqa: N802
     # most filter kernels are only a few pixels wide so we'll use zero-padding
     # to make the OTF larger.  The exact size doesn't matter too much
     # because the result is interpolated
-    n = 100  # array size for the transform
+    # (a kernel larger than this would otherwise be cut off)
+    n = max(100, *np.shape(kernel))  # array size for the transform
 
     # transform of the kernel
     xfer_fcn = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
-- 
2.43.0


From d0812b314b1149595349c3829f0a82eca99779a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:22 +0000
Subject: [PATCH 26/27] fix: otf_to_psf samples the columns of a rectangular
 transfer function by their own spacing

---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 3c73d4b..fd85df8 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -940,11 +940,12 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
-    dx_in = 1 / (otf.shape[0] * df)
+    dx_in = 1 / (otf.shape[1] * df)
+    dy_in = 1 / (otf.shape[0] * df)
 
     # resample to the desired sample size
     new_x = max([1, int(psf.shape[1] * dx_in / dx_out)])
-    new_y = max([1, int(psf.shape[0] * dx_in / dx_out)])
+    new_y = max([1, int(psf.shape[0] * dy_in / dx_out)])
     psf = cv2.resize(psf, (new_x, new_y)).astype(np.float64)
 
     # ensure that the psf sums to 1
-- 
2.43.0


From 77b591d6ed194287d8227bc109f5c27bc6675a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:17 +0000
Subject: [PATCH 27/27] fix: diffusion_OTF of frequencies held in 32-bit
 integers

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index fd85df8..e9e3581 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -461,7 +461,7 @@ def diffusion_OTF(  # noqa: N802
     ) -> float:
         return 1.0 - np.exp(-alpha * ald) / (1.0 + alpha * al)
 
-    rho = np.sqrt(u**2 + v**2)
+    rho = np.sqrt(u**2.0 + v**2.0)
 
     al_rho = al0 / np.sqrt(1.0 + (2.0 * np.pi * rho * al0 / f) ** 2)
 
-- 
2.43.0


From 8cf0678a5b5ddae21b895fdab52f5f8048d017fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 01/18] fix: simulate a phase hologram with the sign it was
 calculated with

calculate_hologram (gs and mraf) optimises exp(+1j * slm_state), but the
simulation applied exp(-1j * slm_state): the simulated image appeared point
reflected through the origin.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..9ad99fd 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -482,7 +482,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From 3de307f41f55fdcc442f9b1c6c1fbbbb17d3ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 02/18] fix: take the input phase into account in the gs and
 mraf holograms

The phase found in the Fourier plane is the total phase of the field, but it
was returned (and fed back) as the phase added by the SLM, so the phase of an
aberrated or sign-changing input profile was counted twice.
---
 pySLM2/_lib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..731ada8 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -340,6 +340,9 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
 
+    # The hologram is the phase added to the phase the input profile already has.
+    input_phase = tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex)
+
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
 
@@ -350,7 +353,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.exp(-1j * input_phase))
 
     return phase_profile
 
@@ -380,6 +383,9 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
 
+    # The hologram is the phase added to the phase the input profile already has.
+    input_phase = tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex)
+
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
     
@@ -399,6 +405,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.exp(-1j * input_phase))
 
     return phase_profile
-- 
2.43.0


From 78fcbef75c872c7223a21465b0a13ccadfd59789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 03/18] fix: give constant profiles the dimension of the grid
 in profile_to_tensor

Scalars and ConstantProfile are accepted wherever a profile is, but were
turned into a rank 0 tensor: simulating them or computing a gs, mraf or ifta
hologram from them failed.
---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 9ad99fd..dca2e93 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,8 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From bd1954a072784aef126b92e2d3e097639a49f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 04/18] fix: reject Zernike indices with m < -n

They were accepted and gave a profile that is zero everywhere, while the
mirrored index (n, |m|) is rejected.
---
 pySLM2/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..3c97312 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,7 +379,7 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
+        if not n >= abs(m):
             raise ValueError("Zernike index m must be >= index n")
 
         if (n - m) % 2 != 0:
-- 
2.43.0


From 03e672ea122a052452ca2ec178868bf519eab898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 05/18] fix: make the Zernike n and m properties readable

They raised AttributeError: an eager constant has no value() method.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 3c97312..96cb375 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From 2573337d0ba6efcc0ec584be1d0fd0be5b05cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 06/18] fix: keep the DMD hologram finite where the input
 profile is dark

amp_out / amp_in is infinite where the input profile is exactly zero (or
underflows): normalising by that maximum gave an efficiency of 0 and a
hologram of zeros and NaN.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index dca2e93..dc0fa70 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -313,7 +313,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From df512240c6d96bbc412044189c8f7338de80400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 07/18] fix: keep the grey levels of an ideal circular patch

Assigning the grey scale grating into the bool state switched every mirror of
the patch on.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index dc0fa70..ed64983 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -267,7 +267,7 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
 
     @staticmethod
     @tf.function
-- 
2.43.0


From 2436ac5378991b73b1ce0b25fe0ad9424577b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 08/18] fix: do not mix two propagations in the simulation when
 one fails

A propagation that failed half way left the new input (and output) field next
to the image plane field of the previous one.
---
 pySLM2/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 91d377f..9bc0ce8 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -131,17 +131,19 @@ class SLMSimulation(object):
         """
         input_profile = self._slm.profile_to_tensor(input_profile, complex=True)
 
-        self._input_field = tf.pad(input_profile,
-                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
+        input_field = tf.pad(input_profile,
+                             [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
         output_profile = input_profile * self._slm._state_tensor()
 
-        self._output_field = tf.pad(output_profile,
-                                   [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
+        output_field = tf.pad(output_profile,
+                              [[self._padding_y, self._padding_y], [self._padding_x, self._padding_x]])
 
         _image_plane_field_unormalized = tf.signal.fftshift(
-            _lib._inverse_fourier_transform(tf.signal.ifftshift(self._output_field)))
+            _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))
 
+        self._input_field = input_field
+        self._output_field = output_field
         # TODO proper explanation
         self._image_plane_field = _image_plane_field_unormalized * (self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)
 
-- 
2.43.0


From 0e68c93ae9beab82e9d939257d332971a51d7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 09/18] fix: display a single image at once after load_multiple
 on the ALP

load_multiple puts the device in slave mode and load_single did not undo it, so
the image was only displayed on the next external trigger.
---
 pySLM2/util/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..452ccc8 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -138,7 +138,10 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
-        
+
+        # Set to master mode, load_multiple leaves the device in slave mode
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From 14e02893ae5ae9e6686acd138c7b3910ad5b1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 10/18] fix: free the previous image sequence when loading the
 next on the ALP

Every load allocated a new sequence in the onboard memory and none was freed
before close, so a long running session exhausted the device.
---
 pySLM2/util/controller.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 452ccc8..f9995fe 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -111,9 +111,13 @@ class ALPController(DMDControllerBase):
 
     def close(self):
         self.alp.Halt()
+        self._free_last_seq()
+        self.alp.Free()
+
+    def _free_last_seq(self):
         if self.alp._lastDDRseq is not None:
             self.alp.FreeSeq()
-        self.alp.Free()
+            self.alp._lastDDRseq = None
 
     @property
     @_check_initialization
@@ -139,6 +143,9 @@ class ALPController(DMDControllerBase):
         # Prepare the dmd in available state
         self.alp.Halt()
 
+        # Release the onboard memory of the previous image sequence
+        self._free_last_seq()
+
         # Set to master mode, load_multiple leaves the device in slave mode
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
 
@@ -170,6 +177,9 @@ class ALPController(DMDControllerBase):
         # Prepare the dmd in available state
         self.alp.Halt()
 
+        # Release the onboard memory of the previous image sequence
+        self._free_last_seq()
+
         # Set to slave mode
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)
 
-- 
2.43.0


From b0eda9d4413aa263fe37d13f6f3627614d8bd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 11/18] fix: an ALP controller is not initialized any more once
 closed

Loading an image after close addressed the released device instead of raising
that the controller is not initialized.
---
 pySLM2/util/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index f9995fe..fda9689 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -113,6 +113,7 @@ class ALPController(DMDControllerBase):
         self.alp.Halt()
         self._free_last_seq()
         self.alp.Free()
+        self._initialized = False
 
     def _free_last_seq(self):
         if self.alp._lastDDRseq is not None:
-- 
2.43.0


From a2e56d2796fec7c89640734ec46213054c70101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:48 +0000
Subject: [PATCH 12/18] fix: honour a precision that is given as a numpy type
 or by name

---
 pySLM2/_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/_backend.py b/pySLM2/_backend.py
index ecab800..77e84fc 100644
--- a/pySLM2/_backend.py
+++ b/pySLM2/_backend.py
@@ -32,7 +32,7 @@ class _BackEnd(object):
         if not (value == tf.float32 or value == tf.float64):
             raise ValueError()
         else:
-            self._dtype = value
+            self._dtype = tf.as_dtype(value)
 
     @property
     def dtype_complex(self):
-- 
2.43.0


From a37182607fd68294b95bef71de2fb3769fbc7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 13/18] fix: refuse fields that do not fit the device

---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ed64983..12cb76a 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,7 +162,7 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
-        if tensor.shape.rank == 0:
+        if tensor.shape != (self.Ny, self.Nx):
             tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
-- 
2.43.0


From fc5b8126086fa27cbe52ee2841830ba8a24694c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:05 +0000
Subject: [PATCH 14/18] fix: report all fields of a propagation or none, also
 when the normalisation fails

---
 pySLM2/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySLM2/simulation.py b/pySLM2/simulation.py
index 9bc0ce8..0b50005 100644
--- a/pySLM2/simulation.py
+++ b/pySLM2/simulation.py
@@ -142,10 +142,12 @@ class SLMSimulation(object):
         _image_plane_field_unormalized = tf.signal.fftshift(
             _lib._inverse_fourier_transform(tf.signal.ifftshift(output_field)))
 
+        # TODO proper explanation
+        image_plane_field = _image_plane_field_unormalized * (self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)
+
         self._input_field = input_field
         self._output_field = output_field
-        # TODO proper explanation
-        self._image_plane_field = _image_plane_field_unormalized * (self.Nx * self.Ny * self.fourier_plane_pixel_area / self.scaling_factor)
+        self._image_plane_field = image_plane_field
 
     @tf.function
     def _field_to_intensity(self, field_tensor):
-- 
2.43.0


From 551fc8e3c777a27615b1b6a222e1bc985d70ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 15/18] fix: do not tie compiled hologram functions to the
 variables of one device

---
 pySLM2/slm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 12cb76a..223787a 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -218,7 +218,7 @@ class DMD(SLM):
         phase_out = self.profile_to_tensor(phase_out)
 
         x, y = self._fourier_plane_grid()
-        self.dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
+        self.dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p.value(), self._theta.value(),
                                                              method=method, negative_order=self.negative_order,
                                                              **kwargs))
 
@@ -264,7 +264,7 @@ class DMD(SLM):
         x, y = self._fourier_plane_grid()
 
         # TODO mask the array before passing them into the function
-        dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
+        dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p.value(), self._theta.value(),
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
         self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
@@ -370,7 +370,7 @@ class DMD(SLM):
                                                              complex=True)
 
         self.dmd_state = np.array(
-            _lib.calculate_dmd_grating(amp_scaled, phase_in, phase_out, x, y, self._p, self._theta,
+            _lib.calculate_dmd_grating(amp_scaled, phase_in, phase_out, x, y, self._p.value(), self._theta.value(),
                                        method=method, negative_order=self.negative_order,
                                        **kwargs))
 
-- 
2.43.0


From 91d555970ba1ac381e8f611954abff6a3d844dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 16/18] fix: keep beam profiles finite far outside the beam

The polynomial of a Hermite- or Laguerre-Gaussian profile overflows where
its Gaussian has already underflowed to zero, and their product was NaN.
---
 pySLM2/profile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 96cb375..4ca751c 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -229,7 +229,10 @@ class HermiteGaussian(FunctionProfile):
         y_norm = (y - self._y0) / self._w
         h_n = tf.math.polyval(coeffs=self._hermite_n_coef, x=math.sqrt(2) * x_norm)
         h_m = tf.math.polyval(coeffs=self._hermite_m_coef, x=math.sqrt(2) * y_norm)
-        return self._a * h_n * h_m * tf.exp(-(x_norm ** 2 + y_norm ** 2))
+        # Far outside the beam the polynomials overflow where the Gaussian is already zero.
+        u_n = tf.math.multiply_no_nan(h_n, tf.exp(-x_norm ** 2))
+        u_m = tf.math.multiply_no_nan(h_m, tf.exp(-y_norm ** 2))
+        return self._a * u_n * u_m
 
     @property
     def x0(self):
@@ -291,8 +294,10 @@ class LaguerreGaussian(FunctionProfile):
         phi = tf.math.atan2(y-self._y0, x-self._x0)
         Lpl = tf.math.polyval(coeffs=self._genlaguerre_coef, x=2.0 * r2 / self._w ** 2)
 
-        amplitude = self._a * (math.sqrt(2) * r / self._w) ** (abs(self._l)) * tf.exp(
-            -r2 / self._w ** 2) * Lpl
+        # Far outside the beam the powers of r overflow where the Gaussian is already zero.
+        gaussian_sqrt = tf.exp(-0.5 * r2 / self._w ** 2)
+        rho_l = (math.sqrt(2) * r / self._w) ** (abs(self._l))
+        amplitude = self._a * tf.math.multiply_no_nan(rho_l, gaussian_sqrt) * tf.math.multiply_no_nan(Lpl, gaussian_sqrt)
 
         phase = tf.exp(-1j * self._l * tf.cast(phi, dtype=BACKEND.dtype_complex))
 
-- 
2.43.0


From b808a0b81edb155275d8c763a13526e533e7c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:23 +0000
Subject: [PATCH 17/18] fix: keep DMD amplitudes finite where the input beam
 fades out

The ratio of target to input amplitude overflowed in the faint tails of a
narrow input beam; normalised by its maximum, infinity over infinity gave
NaN for those mirrors (and zero for all others).
---
 pySLM2/slm.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 223787a..a31268d 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -312,14 +312,21 @@ class DMD(SLM):
             tf.math.angle(target_profile_fp)
         )
 
+        # Relative to their maxima, so that the ratio cannot overflow in the faint tails of the input.
+        max_in = tf.math.reduce_max(amp_in)
+        max_out = tf.math.reduce_max(amp_out)
+        amp_in = tf.math.divide_no_nan(amp_in, max_in)
+        amp_out = tf.math.divide_no_nan(amp_out, max_out)
+
         amp_scaled = tf.where(
-            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
+            tf.logical_or(amp_out == 0.0, amp_in < np.finfo(BACKEND.dtype.as_numpy_dtype).tiny),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
 
-        one_over_eta_fft = tf.math.reduce_max(amp_scaled)
-        amp_scaled = amp_scaled / one_over_eta_fft
+        max_scaled = tf.math.reduce_max(amp_scaled)
+        amp_scaled = amp_scaled / max_scaled
+        one_over_eta_fft = max_scaled * tf.math.divide_no_nan(max_out, max_in)
 
         return amp_scaled, phase_in, phase_out, one_over_eta_fft
 
-- 
2.43.0


From 327fef6b0ab5a71db3c1f2df5e72505691a6e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 18/18] fix: do not compile the mask of a circular patch again
 for every centre

Centre and diameter were Python numbers in the signature of a compiled
function: every patch with another position or size compiled one more
function, which was kept for good. Numpy integers and floats, which
failed, are accepted as well.
---
 pySLM2/slm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index a31268d..0924e77 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -258,6 +258,9 @@ class DMD(SLM):
         phase_in = self.profile_to_tensor(phase_in)
         phase_out = self.profile_to_tensor(phase_out)
 
+        # As tensors, so that the mask function is not compiled again (and kept) for every centre and diameter.
+        i, j, d = (tf.convert_to_tensor(value, dtype=BACKEND.dtype) for value in (i, j, d))
+
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
         mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
 
-- 
2.43.0


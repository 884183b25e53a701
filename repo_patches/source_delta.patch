From 5dce50983d8ce0ab1ef73d6ca3bef89f9113fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 1/8] fix: reject Zernike index pairs with |m| > n for negative
 m

---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..b8a849e 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,8 +379,8 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
-            raise ValueError("Zernike index m must be >= index n")
+        if not n >= abs(m):
+            raise ValueError("Zernike index n must be >= |m|")
 
         if (n - m) % 2 != 0:
             raise ValueError("Radial polynomial is zero for these inputs: m={}, n={} " +
-- 
2.43.0


From 35251239d66eccb998c927d9244eb977186b3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 2/8] fix: profile_to_tensor returns a full (Ny, Nx) tensor for
 numbers and constant profiles

---
 pySLM2/slm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..5e10684 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,9 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            # Numbers and constant profiles have the same value at every pixel.
+            tensor = tf.broadcast_to(tensor, (self.Ny, self.Nx))
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From 12de1aa8eee7ffdf02a4be2f1446258ec1b93407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 3/8] fix: pixels without input light do not spoil the hologram
 amplitude and efficiency

---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 5e10684..c5c0404 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -314,7 +314,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From 0241323cfb137cc0baa339d7b57fe22f884c036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 4/8] fix: circular_patch keeps grayscale values when the
 previous state is boolean

---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index c5c0404..3c1d86b 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -268,7 +268,7 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
-        self.dmd_state[mask] = dmd_state[mask]
+        self.dmd_state = np.where(mask, dmd_state, self.dmd_state)
 
     @staticmethod
     @tf.function
-- 
2.43.0


From 0563d087c9acad82dec9d86ddd16c874f63d834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 5/8] fix: LCOS panel applies the phase sign its holograms are
 computed for

---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 3c1d86b..14df81f 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -485,7 +485,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j * tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From 6d4586842035841827753e7d4a546175ed709b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 6/8] fix: GS and MRAF phases are relative to the phase of the
 input field

---
 pySLM2/_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..13baa35 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -350,7 +350,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.math.conj(input_profile))
 
     return phase_profile
 
@@ -399,6 +399,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * tf.math.conj(input_profile))
 
     return phase_profile
-- 
2.43.0


From 3ed5bc165986d9f7227e9f36c0e359f656697c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 7/8] fix: ALP load_single leaves the externally triggered mode
 of load_multiple

---
 pySLM2/util/controller.py | 605 +++++++++++++++++++-------------------
 1 file changed, 304 insertions(+), 301 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..2eeda60 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -1,301 +1,304 @@
-try:
-    import ALP4
-except:
-    ALP4 = None
-
-try:
-    import Luxbeam
-except:
-    Luxbeam = None
-
-import inspect
-from .sample import number_image
-import numpy as np
-
-from typing import List
-
-__all__ = ["DMDControllerBase", "ALPController", "LuxbeamController"]
-
-
-def _check_initialization(function):
-    def wrapper(*args, **kwargs):
-        controller = args[0]
-        assert isinstance(controller, DMDControllerBase)
-        if not controller.is_initialized():
-            raise Exception("Controller not initialized.")
-        return function(*args, **kwargs)
-    wrapper.__signature__ = inspect.signature(function)
-    return wrapper
-
-
-class DMDControllerBase(object):
-    """Base class for the DMD controller."""
-    def __init__(self, invert=False):
-        self._initialized = False
-        self.invert = invert
-        super(DMDControllerBase, self).__init__()
-
-    def initialize(self):
-        self._initialized = True
-
-    def is_initialized(self):
-        return self._initialized
-
-    def close(self):
-        pass
-
-    @_check_initialization
-    def load_single(self, dmd_state):
-        """
-
-        Parameters
-        ----------
-        dmd_state: numpy.ndarray
-        """
-        raise NotImplementedError
-
-    @_check_initialization
-    def load_multiple(self, dmd_states: List[np.ndarray]):
-        raise NotImplementedError
-
-    @_check_initialization
-    def load_sequence(self, images):
-        raise NotImplementedError
-
-    @property
-    @_check_initialization
-    def Nx(self) -> int:
-        raise NotImplementedError
-
-    @property
-    @_check_initialization
-    def Ny(self) -> int:
-        raise NotImplementedError
-
-    def fire_software_trigger(self):
-        raise NotImplementedError
-
-    @_check_initialization
-    def number_image(self, i):
-        return number_image(i, self.Nx, self.Ny)
-
-
-class ALPController(DMDControllerBase):
-    MAX_UINT8 = 2**8 - 1 
-    """This class implements the control function for interacting the controller from Vialux.
-
-    Parameters
-    ----------
-    invert: bool
-        If true, invert the on/off mirrors in the hologram.
-    version: str
-        Version of the ALP library fom Vialux.
-
-    See Also
-    --------
-    ALP4.ALP4
-
-    """
-    def __init__(self, invert=False, version='4.3'):
-        if ALP4 is None:
-            raise ModuleNotFoundError("ALP4lib module is unavailable.")
-
-        self.alp = ALP4.ALP4(version=version)
-        super(ALPController, self).__init__(invert=invert)
-
-    def initialize(self):
-        self.alp.Initialize()
-        if self.invert:
-            self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
-        super(ALPController, self).initialize()
-
-    def close(self):
-        self.alp.Halt()
-        if self.alp._lastDDRseq is not None:
-            self.alp.FreeSeq()
-        self.alp.Free()
-
-    @property
-    @_check_initialization
-    def Nx(self) -> int:
-        """Number of pixels in x direction (width)."""
-        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_WIDTH)
-
-    @property
-    @_check_initialization
-    def Ny(self) -> int:
-        """Number of pixels in y direction (height)."""
-        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_HEIGHT)
-
-    @_check_initialization
-    def load_single(self, dmd_state):
-        """load and display a single binary image on the DMD until program is closed, after which the DMD gets reset.
-
-        Parameters
-        ----------
-        dmd_state: numpy.ndarray
-            The dtype must be bool and have the same dimension as the DMD.
-        """
-        # Prepare the dmd in available state
-        self.alp.Halt()
-        
-        # Allocate the onboard memory for the image sequence
-        self.alp.SeqAlloc(nbImg=1, bitDepth=1)
-
-        # Remove the reset time between frames.
-        self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
-
-        # Send the image sequence as a 1D list/array/numpy array
-        self.alp.SeqPut(imgData=dmd_state * self.MAX_UINT8)
-
-        self.alp.SetTiming()
-
-        self.alp.Run()
-
-
-    @_check_initialization
-    def load_multiple(self, dmd_states: List[np.ndarray]):
-        """load and display a list of binary images on the DMD on the rising edge of the trigger signal.
-        All pictures are displayed once for the MIN_PICTURE_TIME.
-        
-
-        Parameters
-        ----------
-        dmd_states: List[numpy.ndarray]
-            The dtype must be bool and have the same dimension as the DMD.
-        """
-        # Prepare the dmd in available state
-        self.alp.Halt()
-
-        # Set to slave mode
-        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)
-
-        # Set the trigger edge to be rising
-        self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
-
-        # Allocate the onboard memory for the image sequence
-        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
-
-        # Remove the reset time between frames.
-        self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
-
-        # Send the image sequence as a 1D list/array/numpy array
-        self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)
-        
-        # Set the timing
-        self.alp.SetTiming(pictureTime=self.alp.SeqInquire(ALP4.ALP_MIN_PICTURE_TIME))
-
-        self.alp.Run()
-
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        self.close()
-
-
-class LuxbeamController(DMDControllerBase):
-    """This class implements the control function for interacting the controller from Visitech.
-
-    Parameters
-    ----------
-    ip: str
-        IP address of the controller.
-    invert: bool
-        If true, invert the on/off mirrors in the hologram.
-    timeout: None or float
-        Timeout of the network socket.
-
-    See Also
-    --------
-    Luxbeam.Luxbeam
-
-    """
-    def __init__(self, ip, invert=False, timeout=None):
-        if Luxbeam is None:
-            raise ModuleNotFoundError("Luxbeam module is unavailable.")
-
-        self.luxbeam = Luxbeam.Luxbeam(ip, inverse=invert, timeout=timeout)
-
-        super(LuxbeamController, self).__init__(invert=invert)
-
-    def initialize(self): 
-        seq = Luxbeam.LuxbeamSequencer()
-        # ======= Sequencer ============
-        reg0 = seq.assign_var_reg(regno=0) # reg0 is the total number of images
-        for _ in seq.jump_loop_iter():
-            seq.load_global(0, 400) # Load the first image to the DMD memory
-            for _, inum in seq.range_loop_iter(0, reg0):
-                seq.reset_global(40) # Set the DMD mirror with the image in the memory
-                seq.load_global(inum + 1, 400) # Load the next image to the DMD memory
-                seq.trig(Luxbeam.TRIG_MODE_POSITIVE_EDGE,
-                         Luxbeam.TRIG_SOURCE_SOFTWARE +
-                         Luxbeam.TRIG_SOURCE_ELECTRICAL +
-                         Luxbeam.TRIG_SOURCE_OPTICAL,
-                         0) # Wait for the trigger
-        # ======= Sequencer ============
-
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
-        self.luxbeam.load_sequence(seq.dumps())
-        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=1)
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
-
-        super(LuxbeamController, self).initialize()
-
-    def close(self):
-        pass
-
-    @_check_initialization
-    def load_single(self, dmd_state):
-        """load and display a single binary image on the DMD.
-
-        Parameters
-        ----------
-        dmd_state: numpy.ndarray
-            The dtype must be bool and have the same dimension as the DMD.
-        """
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
-
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
-        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=1)
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
-
-        self.luxbeam.load_image(0, dmd_state)
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)
-
-    @_check_initialization
-    def load_multiple(self, dmd_states: List[np.ndarray]):
-        """load and display a list of binary images on the DMD.
-
-        Parameters
-        ----------
-        dmd_states: List[numpy.ndarray]
-            The dtype must be bool and have the same dimension as the DMD.
-        """
-        
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
-
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
-        N = len(dmd_states)
-        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
-
-        for i, dmd_state in enumerate(dmd_states):
-            self.luxbeam.load_image(i, dmd_state)
-
-        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)
-
-
-    @property
-    @_check_initialization
-    def Nx(self) -> int:
-        return self.luxbeam.cols
-
-    @property
-    @_check_initialization
-    def Ny(self) -> int:
-        return self.luxbeam.rows
-
-    @_check_initialization
-    def fire_software_trigger(self):
-        self.luxbeam.set_software_sync(1)
-        self.luxbeam.set_software_sync(0)
+try:
+    import ALP4
+except:
+    ALP4 = None
+
+try:
+    import Luxbeam
+except:
+    Luxbeam = None
+
+import inspect
+from .sample import number_image
+import numpy as np
+
+from typing import List
+
+__all__ = ["DMDControllerBase", "ALPController", "LuxbeamController"]
+
+
+def _check_initialization(function):
+    def wrapper(*args, **kwargs):
+        controller = args[0]
+        assert isinstance(controller, DMDControllerBase)
+        if not controller.is_initialized():
+            raise Exception("Controller not initialized.")
+        return function(*args, **kwargs)
+    wrapper.__signature__ = inspect.signature(function)
+    return wrapper
+
+
+class DMDControllerBase(object):
+    """Base class for the DMD controller."""
+    def __init__(self, invert=False):
+        self._initialized = False
+        self.invert = invert
+        super(DMDControllerBase, self).__init__()
+
+    def initialize(self):
+        self._initialized = True
+
+    def is_initialized(self):
+        return self._initialized
+
+    def close(self):
+        pass
+
+    @_check_initialization
+    def load_single(self, dmd_state):
+        """
+
+        Parameters
+        ----------
+        dmd_state: numpy.ndarray
+        """
+        raise NotImplementedError
+
+    @_check_initialization
+    def load_multiple(self, dmd_states: List[np.ndarray]):
+        raise NotImplementedError
+
+    @_check_initialization
+    def load_sequence(self, images):
+        raise NotImplementedError
+
+    @property
+    @_check_initialization
+    def Nx(self) -> int:
+        raise NotImplementedError
+
+    @property
+    @_check_initialization
+    def Ny(self) -> int:
+        raise NotImplementedError
+
+    def fire_software_trigger(self):
+        raise NotImplementedError
+
+    @_check_initialization
+    def number_image(self, i):
+        return number_image(i, self.Nx, self.Ny)
+
+
+class ALPController(DMDControllerBase):
+    MAX_UINT8 = 2**8 - 1 
+    """This class implements the control function for interacting the controller from Vialux.
+
+    Parameters
+    ----------
+    invert: bool
+        If true, invert the on/off mirrors in the hologram.
+    version: str
+        Version of the ALP library fom Vialux.
+
+    See Also
+    --------
+    ALP4.ALP4
+
+    """
+    def __init__(self, invert=False, version='4.3'):
+        if ALP4 is None:
+            raise ModuleNotFoundError("ALP4lib module is unavailable.")
+
+        self.alp = ALP4.ALP4(version=version)
+        super(ALPController, self).__init__(invert=invert)
+
+    def initialize(self):
+        self.alp.Initialize()
+        if self.invert:
+            self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
+        super(ALPController, self).initialize()
+
+    def close(self):
+        self.alp.Halt()
+        if self.alp._lastDDRseq is not None:
+            self.alp.FreeSeq()
+        self.alp.Free()
+
+    @property
+    @_check_initialization
+    def Nx(self) -> int:
+        """Number of pixels in x direction (width)."""
+        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_WIDTH)
+
+    @property
+    @_check_initialization
+    def Ny(self) -> int:
+        """Number of pixels in y direction (height)."""
+        return self.alp.DevInquire(ALP4.ALP_DEV_DISPLAY_HEIGHT)
+
+    @_check_initialization
+    def load_single(self, dmd_state):
+        """load and display a single binary image on the DMD until program is closed, after which the DMD gets reset.
+
+        Parameters
+        ----------
+        dmd_state: numpy.ndarray
+            The dtype must be bool and have the same dimension as the DMD.
+        """
+        # Prepare the dmd in available state
+        self.alp.Halt()
+
+        # Display without waiting for a trigger, also after load_multiple
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
+        # Allocate the onboard memory for the image sequence
+        self.alp.SeqAlloc(nbImg=1, bitDepth=1)
+
+        # Remove the reset time between frames.
+        self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
+
+        # Send the image sequence as a 1D list/array/numpy array
+        self.alp.SeqPut(imgData=dmd_state * self.MAX_UINT8)
+
+        self.alp.SetTiming()
+
+        self.alp.Run()
+
+
+    @_check_initialization
+    def load_multiple(self, dmd_states: List[np.ndarray]):
+        """load and display a list of binary images on the DMD on the rising edge of the trigger signal.
+        All pictures are displayed once for the MIN_PICTURE_TIME.
+        
+
+        Parameters
+        ----------
+        dmd_states: List[numpy.ndarray]
+            The dtype must be bool and have the same dimension as the DMD.
+        """
+        # Prepare the dmd in available state
+        self.alp.Halt()
+
+        # Set to slave mode
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_SLAVE)
+
+        # Set the trigger edge to be rising
+        self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
+
+        # Allocate the onboard memory for the image sequence
+        self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
+
+        # Remove the reset time between frames.
+        self.alp.SeqControl(ALP4.ALP_BIN_MODE, ALP4.ALP_BIN_UNINTERRUPTED)
+
+        # Send the image sequence as a 1D list/array/numpy array
+        self.alp.SeqPut(imgData=np.concatenate(dmd_states)*self.MAX_UINT8)
+        
+        # Set the timing
+        self.alp.SetTiming(pictureTime=self.alp.SeqInquire(ALP4.ALP_MIN_PICTURE_TIME))
+
+        self.alp.Run()
+
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        self.close()
+
+
+class LuxbeamController(DMDControllerBase):
+    """This class implements the control function for interacting the controller from Visitech.
+
+    Parameters
+    ----------
+    ip: str
+        IP address of the controller.
+    invert: bool
+        If true, invert the on/off mirrors in the hologram.
+    timeout: None or float
+        Timeout of the network socket.
+
+    See Also
+    --------
+    Luxbeam.Luxbeam
+
+    """
+    def __init__(self, ip, invert=False, timeout=None):
+        if Luxbeam is None:
+            raise ModuleNotFoundError("Luxbeam module is unavailable.")
+
+        self.luxbeam = Luxbeam.Luxbeam(ip, inverse=invert, timeout=timeout)
+
+        super(LuxbeamController, self).__init__(invert=invert)
+
+    def initialize(self): 
+        seq = Luxbeam.LuxbeamSequencer()
+        # ======= Sequencer ============
+        reg0 = seq.assign_var_reg(regno=0) # reg0 is the total number of images
+        for _ in seq.jump_loop_iter():
+            seq.load_global(0, 400) # Load the first image to the DMD memory
+            for _, inum in seq.range_loop_iter(0, reg0):
+                seq.reset_global(40) # Set the DMD mirror with the image in the memory
+                seq.load_global(inum + 1, 400) # Load the next image to the DMD memory
+                seq.trig(Luxbeam.TRIG_MODE_POSITIVE_EDGE,
+                         Luxbeam.TRIG_SOURCE_SOFTWARE +
+                         Luxbeam.TRIG_SOURCE_ELECTRICAL +
+                         Luxbeam.TRIG_SOURCE_OPTICAL,
+                         0) # Wait for the trigger
+        # ======= Sequencer ============
+
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
+        self.luxbeam.load_sequence(seq.dumps())
+        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=1)
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
+
+        super(LuxbeamController, self).initialize()
+
+    def close(self):
+        pass
+
+    @_check_initialization
+    def load_single(self, dmd_state):
+        """load and display a single binary image on the DMD.
+
+        Parameters
+        ----------
+        dmd_state: numpy.ndarray
+            The dtype must be bool and have the same dimension as the DMD.
+        """
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
+
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
+        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=1)
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
+
+        self.luxbeam.load_image(0, dmd_state)
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)
+
+    @_check_initialization
+    def load_multiple(self, dmd_states: List[np.ndarray]):
+        """load and display a list of binary images on the DMD.
+
+        Parameters
+        ----------
+        dmd_states: List[numpy.ndarray]
+            The dtype must be bool and have the same dimension as the DMD.
+        """
+        
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.DISABLE)
+
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.ENABLE)
+        N = len(dmd_states)
+        self.luxbeam.set_sequencer_reg(reg_no=0, reg_val=N)
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RESET, Luxbeam.DISABLE)
+
+        for i, dmd_state in enumerate(dmd_states):
+            self.luxbeam.load_image(i, dmd_state)
+
+        self.luxbeam.set_sequencer_state(Luxbeam.SEQ_CMD_RUN, Luxbeam.ENABLE)
+
+
+    @property
+    @_check_initialization
+    def Nx(self) -> int:
+        return self.luxbeam.cols
+
+    @property
+    @_check_initialization
+    def Ny(self) -> int:
+        return self.luxbeam.rows
+
+    @_check_initialization
+    def fire_software_trigger(self):
+        self.luxbeam.set_software_sync(1)
+        self.luxbeam.set_software_sync(0)
-- 
2.43.0


From 0145660754d2f0c81c305bcfe7ea740493271993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 8/8] fix: Zernike.n and Zernike.m return the indices instead
 of raising AttributeError

---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index b8a849e..769e7a0 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From 995f9918c42c24f3bfb79a5fc1d007a4bf77510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:20 +0000
Subject: [PATCH 1/8] fix: store cached Coulomb elements atomically and recover
 from damaged cache files

A request that was killed, lost power or failed while storing left a torn
file behind, which later requests either failed on or returned as (partly
zero) elements. Processes sharing the directory could load a half-written
file.
---
 .../quantum_dots/two_dim/two_dim_helper.py    | 22 ++++++----
 quantum_systems/system_helper.py              | 43 +++++++++++++++++++
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..0272b4a 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -10,6 +10,7 @@ import math
 import pandas as pd
 
 from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
+from quantum_systems.system_helper import save_atomically
 
 
 def spf_state(r, theta, p, mass, omega, get_indices_nm):
@@ -222,16 +223,21 @@ def get_coulomb_elements(num_orbitals, verbose=False):
     # Load and return elements if they exist
     if os.path.exists(filename):
         t_0 = time.time()
-        coulomb_elements = np.load(filename)
+        try:
+            coulomb_elements = np.load(filename)
+        except (OSError, ValueError, EOFError):
+            # Damaged, or removed in the meantime: create the elements anew
+            coulomb_elements = None
         t_1 = time.time()
 
-        if verbose:
-            print(
-                f"Time spent loading Coulomb elements from {filename}: "
-                + f"{t_1 - t_0} sec"
-            )
+        if coulomb_elements is not None:
+            if verbose:
+                print(
+                    f"Time spent loading Coulomb elements from {filename}: "
+                    + f"{t_1 - t_0} sec"
+                )
 
-        return coulomb_elements
+            return coulomb_elements
 
     t_0 = time.time()
     # Create new Coulomb elements
@@ -243,7 +249,7 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Caching Coulomb elements to {filename}")
 
     # Store elements
-    np.save(filename, coulomb_elements)
+    save_atomically(lambda f: np.save(f, coulomb_elements), filename)
 
     # Return newly created Coulomb elements
     return coulomb_elements
diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..6caf30a 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -1,3 +1,6 @@
+import os
+import uuid
+
 import numba
 
 
@@ -25,3 +28,43 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
             rho += phi_tilde_p * rho_qp[q, p] * phi_q
 
     return rho
+
+
+def save_atomically(save, filename):
+    """Function writing a file such that ``filename`` at any point in time,
+    also after a crash, either holds its previous content or the complete new
+    content. The data is written to a temporary file in the same directory, and
+    is then moved to its final location.
+
+    Parameters
+    ----------
+    save : callable
+        Function writing all data to the open (binary) file it is given.
+    filename : str
+        Name of the file.
+    """
+    filename = os.path.realpath(filename)
+    path = os.path.dirname(filename)
+    tmp = os.path.join(path, f".tmp-{uuid.uuid4().hex}")
+
+    try:
+        with open(tmp, "xb") as f:
+            save(f)
+            f.flush()
+            os.fsync(f.fileno())
+
+        os.replace(tmp, filename)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+
+        raise
+
+    # Make sure that the new file name survives a crash as well
+    fd = os.open(path, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
-- 
2.43.0


From 5eef404148f7d2bb00051d50362a761eaa6a2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:43 +0000
Subject: [PATCH 2/8] fix: dump samples atomically

A dump that was killed, lost power or failed while writing destroyed the
previous dump and left a torn file.
---
 quantum_systems/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/sampler.py b/quantum_systems/sampler.py
index 09dddc6..ad9d9b5 100644
--- a/quantum_systems/sampler.py
+++ b/quantum_systems/sampler.py
@@ -1,6 +1,8 @@
 import os
 import abc
 
+from quantum_systems.system_helper import save_atomically
+
 
 class SampleCollector:
     """Base class defining common methods for all sampler classes. The purpose
@@ -74,7 +76,10 @@ class SampleCollector:
         os.makedirs(path, exist_ok=exist_ok)
 
         filename = os.path.join(path, filename)
-        self.np.save(filename, self.samples)
+        if not filename.endswith(".npy"):
+            # Same naming as np.save
+            filename = filename + ".npy"
+        save_atomically(lambda f: self.np.save(f, self.samples), filename)
 
         return self.samples
 
-- 
2.43.0


From 6d27df7115d955d8a6a4c321f504af703be3519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 3/8] fix: evaluate laser field and custom operator without
 rewriting themselves

With a constant pulse and a constant polarisation both closures shared one
variable, so the pulse strength was silently replaced by the polarisation
vector. Concurrent evaluation could also see a half-rewritten operator.
---
 .../time_evolution_operators/operator.py      | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..c42c89d 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -88,21 +88,20 @@ class LaserField(TimeEvolutionOperator):
     def h_t(self, current_time):
         np = self._system.np
 
-        if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+        laser_pulse = self._laser_pulse
+        if callable(laser_pulse):
+            laser_pulse = laser_pulse(current_time)
 
-        if self._polarization is None:
+        polarization = self._polarization
+        if polarization is None:
             # Set default polarization along x-axis
-            self._polarization = np.zeros(self._system.dipole_moment.shape[0])
-            self._polarization[0] = 1
+            polarization = np.zeros(self._system.dipole_moment.shape[0])
+            polarization[0] = 1
+        elif callable(polarization):
+            polarization = polarization(current_time)
 
-        if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
-
-        return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+        return self._system.h + laser_pulse * np.tensordot(
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
@@ -137,8 +136,8 @@ class CustomOneBodyOperator(TimeEvolutionOperator):
     def h_t(self, current_time):
         np = self._system.np
 
-        if not callable(self._weight):
-            tmp = self._weight
-            self._weight = lambda t: tmp
+        weight = self._weight
+        if callable(weight):
+            weight = weight(current_time)
 
-        return self._system.h + self._weight(current_time) * self._operator
+        return self._system.h + weight * self._operator
-- 
2.43.0


From f719dfb519542d3d2b7ea7521edb689ed3036f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 4/8] fix: copy basis sets and systems without taking them
 apart

The array module was removed from the source while copying: a copy that
failed (always with GaussianPotential, which refers to a module) or was
interrupted left the source without its module, and other threads saw it
missing.
---
 quantum_systems/basis_set.py     | 22 ++++++----------------
 quantum_systems/system.py        | 21 ++++-----------------
 quantum_systems/system_helper.py | 26 ++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..18ae616 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -1,7 +1,9 @@
 import warnings
-import copy
 
-from quantum_systems.system_helper import compute_particle_density
+from quantum_systems.system_helper import (
+    compute_particle_density,
+    deepcopy_sharing_modules,
+)
 
 
 class BasisSet:
@@ -737,9 +739,7 @@ class BasisSet:
         return [length == axis for axis in arr.shape]
 
     def copy_basis(self):
-        """Function creating a deep copy of the current basis. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current basis.
 
         Returns
         -------
@@ -747,14 +747,4 @@ class BasisSet:
             A deep copy of the current basis.
         """
 
-        np = self.np
-        self.np = None
-
-        new_basis = copy.deepcopy(self)
-
-        new_basis.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-
-        return new_basis
+        return deepcopy_sharing_modules(self, self.np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..563c340 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -1,5 +1,6 @@
 import abc
-import copy
+
+from quantum_systems.system_helper import deepcopy_sharing_modules
 
 
 class QuantumSystem(metaclass=abc.ABCMeta):
@@ -161,9 +162,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         )
 
     def copy_system(self):
-        """Function creating a deep copy of the current system. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current system.
 
         Returns
         -------
@@ -171,16 +170,4 @@ class QuantumSystem(metaclass=abc.ABCMeta):
             A deep copy of the current system.
         """
 
-        np = self.np
-        self.np = None
-        self._basis_set.np = None
-
-        new_system = copy.deepcopy(self)
-
-        new_system.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-        assert self._basis_set.np is np
-
-        return new_system
+        return deepcopy_sharing_modules(self, self.np)
diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 6caf30a..e2d3aa1 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -1,4 +1,6 @@
+import copy
 import os
+import sys
 import uuid
 
 import numba
@@ -30,6 +32,30 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     return rho
 
 
+def deepcopy_sharing_modules(obj, np, memo={}):
+    """Function creating a deep copy of an object that refers to (array)
+    modules. The latter can not be copied and are shared with the copy.
+
+    Parameters
+    ----------
+    obj : object
+        Object to copy.
+    np : module
+        Array module of the object.
+    memo : dict
+        Additional entries, from ``id`` to object, to use in the copy instead
+        of copying.
+
+    Returns
+    -------
+    object
+        A deep copy of ``obj``.
+    """
+    modules = {id(module): module for module in [*sys.modules.values(), np]}
+
+    return copy.deepcopy(obj, {**modules, **memo})
+
+
 def save_atomically(save, filename):
     """Function writing a file such that ``filename`` at any point in time,
     also after a crash, either holds its previous content or the complete new
-- 
2.43.0


From 546f78625afee8a7e5160ef5c17fb46984f8d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 5/8] fix: derive a general-orbital system from a system with
 an operator

Copying the operator copied the system it acts on, which fails as systems
refer to their array module.
---
 quantum_systems/spatial_orbital_system.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..d2bbfca 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -1,4 +1,5 @@
 from quantum_systems import QuantumSystem, GeneralOrbitalSystem
+from quantum_systems.system_helper import deepcopy_sharing_modules
 
 
 class SpatialOrbitalSystem(QuantumSystem):
@@ -94,11 +95,14 @@ class SpatialOrbitalSystem(QuantumSystem):
             anti_symmetrize=anti_symmetrize,
         )
 
-        import copy
-
         if not self._time_evolution_operator is None:
+            # The copied operator acts on the new system
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                deepcopy_sharing_modules(
+                    self._time_evolution_operator,
+                    self.np,
+                    memo={id(self): gos},
+                )
             )
 
         return gos
-- 
2.43.0


From b40730cbcdced5bf24bd128d8e364a80492b32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 6/8] fix: keep the transformed spin matrices when changing
 basis

---
 quantum_systems/basis_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 18ae616..4d70641 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -345,11 +345,13 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
             if spin is not None:
                 spin = self.transform_one_body_elements(
                     spin, C, C_tilde=C_tilde, np=self.np
                 )
+                setattr(self, name, spin)
 
     def _change_basis_two_body_elements(self, C, C_tilde):
         self.u = self.transform_two_body_elements(
-- 
2.43.0


From 31d6d4fade1bc6b97eef35f2ccf7684a137af205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:45 +0000
Subject: [PATCH 7/8] fix: leave basis sets and systems unchanged when a
 conversion fails

Changing basis, array module or to general orbitals, anti-symmetrising and
casting to complex numbers updated the elements one by one. An invalid
coefficient matrix or spin basis, a failing allocation or an interrupt left
a mix of converted and unconverted elements behind.
---
 quantum_systems/basis_set.py     |  6 ++++++
 quantum_systems/system.py        |  7 +++++-
 quantum_systems/system_helper.py | 37 ++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 4d70641..a8998f3 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -1,6 +1,7 @@
 import warnings
 
 from quantum_systems.system_helper import (
+    all_or_nothing,
     compute_particle_density,
     deepcopy_sharing_modules,
 )
@@ -251,6 +252,7 @@ class BasisSet:
     def change_arr_module(arr, np):
         return np.asarray(arr) if arr is not None else None
 
+    @all_or_nothing
     def change_module(self, np):
         """Function converting all matrix elements to a new module.
 
@@ -276,6 +278,7 @@ class BasisSet:
         ]:
             setattr(self, name, self.change_arr_module(arr, self.np))
 
+    @all_or_nothing
     def cast_to_complex(self):
         """Function converting all matrix elements to ``np.complex128``, where
         ``np`` is the member array module.
@@ -380,6 +383,7 @@ class BasisSet:
 
         self.spf = self.transform_spf(self.spf, C, self.np)
 
+    @all_or_nothing
     def change_basis(self, C, C_tilde=None):
         r"""Function using coefficient matrices to change basis of the matrix
         elements and the single-particle functions. This function also supports
@@ -475,6 +479,7 @@ class BasisSet:
 
         return compute_particle_density(rho_qp, ket_spf, bra_spf, self.np)
 
+    @all_or_nothing
     def anti_symmetrize_two_body_elements(self):
         r"""Function making the two-body matrix elements anti-symmetric. This
         corresponds to
@@ -494,6 +499,7 @@ class BasisSet:
 
             self._anti_symmetrized_u = True
 
+    @all_or_nothing
     def change_to_general_orbital_basis(
         self, a=[1, 0], b=[0, 1], anti_symmetrize=True
     ):
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 563c340..3092049 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -1,6 +1,9 @@
 import abc
 
-from quantum_systems.system_helper import deepcopy_sharing_modules
+from quantum_systems.system_helper import (
+    all_or_nothing,
+    deepcopy_sharing_modules,
+)
 
 
 class QuantumSystem(metaclass=abc.ABCMeta):
@@ -52,6 +55,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
     def construct_fock_matrix(self, h, u, f=None):
         pass
 
+    @all_or_nothing
     def change_module(self, np):
         """Function converting between modules.
 
@@ -64,6 +68,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self.np = np
         self._basis_set.change_module(self.np)
 
+    @all_or_nothing
     def change_basis(self, C, C_tilde=None):
         self._basis_set.change_basis(C, C_tilde)
         self.set_system_size(self.n, self._basis_set.l)
diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index e2d3aa1..ccd354f 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -1,4 +1,5 @@
 import copy
+import functools
 import os
 import sys
 import uuid
@@ -56,6 +57,42 @@ def deepcopy_sharing_modules(obj, np, memo={}):
     return copy.deepcopy(obj, {**modules, **memo})
 
 
+def all_or_nothing(method):
+    """Decorator for methods converting a basis set or a system in place. If the
+    method fails, or is interrupted, the object is left as it was prior to the
+    call. Note that the method must replace arrays, and not write to them.
+
+    Parameters
+    ----------
+    method : callable
+        Method of a basis set or a system.
+
+    Returns
+    -------
+    callable
+        The decorated method.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        # A system owns a basis set, which is a part of its state
+        states = [
+            (obj, obj.__dict__.copy())
+            for obj in [self, getattr(self, "_basis_set", None)]
+            if obj is not None
+        ]
+
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            for obj, state in states:
+                obj.__dict__ = state
+
+            raise
+
+    return wrapper
+
+
 def save_atomically(save, filename):
     """Function writing a file such that ``filename`` at any point in time,
     also after a crash, either holds its previous content or the complete new
-- 
2.43.0


From da8f75af788334476c75c0ead8a995a09d18684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 8/8] fix: convert the two-body elements of a sinc-DVR basis

set_u_repr computed the new representation and threw it away. With that a
2d representation could not be anti-symmetrised, it was only flagged as such,
and a spin basis could not be given when changing to general orbitals, hence
no GeneralOrbitalSystem could be made from a sinc-DVR basis.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..771f016 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -7,6 +7,7 @@ import scipy.special as spec
 import warnings
 
 from quantum_systems import BasisSet
+from quantum_systems.system_helper import all_or_nothing
 
 from quantum_systems.quantum_dots.one_dim.one_dim_qd import _shielded_coulomb
 from quantum_systems.quantum_dots.one_dim.one_dim_potentials import (
@@ -130,6 +131,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -143,6 +145,8 @@ class ODSincDVR(BasisSet):
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
@@ -176,7 +180,19 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    @all_or_nothing
+    def anti_symmetrize_two_body_elements(self):
+        # There are no anti-symmetric two-body elements in the 2d
+        # representation
+        if not self._anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
+    @all_or_nothing
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -185,7 +201,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


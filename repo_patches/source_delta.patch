From 7af42bda0efe17519401ae3d7681d1070d0f7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 01/68] fix: key the cached Pardiso factorization on the whole
 matrix, not on its truncated str()

---
 simphox/mkl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..ceea027 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -72,6 +72,11 @@ PARDISO_FACTORIZE = 12
 PARDISO_FULLSOLVE = 13
 
 
+def _hash_mat(mat: sp.csr_matrix) -> int:
+    """Hash of all of the content of a sparse matrix (:code:`str(mat)` leaves out most entries of a large matrix)."""
+    return hash((mat.shape, mat.dtype.str, mat.indptr.tobytes(), mat.indices.tobytes(), mat.data.tobytes()))
+
+
 # a cleaner version of pyMKL with some additional factorization optimizations
 class Pardiso:
     def __init__(self, mtype: int = 13):
@@ -142,13 +147,13 @@ class Pardiso:
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
+        mat_hash = _hash_mat(mat)
         self._set_mat(mat)
         self._mat_hash = mat_hash
         self.pardiso()
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
+        mat_hash = _hash_mat(mat)
         if mat_hash != self._mat_hash:
             self._set_mat(mat)
             self._mat_hash = mat_hash
-- 
2.43.0


From d48fd0e81e95af9aefddfd7f085dbd0dc279cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/68] fix: forget the Pardiso factorization after a failed
 call or free()

---
 simphox/mkl.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index ceea027..ec7f768 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -105,7 +105,8 @@ class Pardiso:
         self.iparm[34] = 1  # Zero-indexing
 
         self.phase = PARDISO_FULLSOLVE
-        self._mat_hash = 0  # no matrix has been factorized yet, and this is an unlikely hash for it to be assigned
+        self.mat: Optional[sp.csr_matrix] = None
+        self._mat_hash = None  # hash of the matrix whose factorization is currently held by pardiso, if any
 
     @property
     def is_complex(self) -> bool:
@@ -128,7 +129,7 @@ class Pardiso:
         if not mat.has_sorted_indices:
             mat.sort_indices()
 
-        self.mat: sp.csr_matrix = mat
+        self.mat = mat
 
         self.a = self.mat.data
         self.a_ = self.a.ctypes.data_as(self.ctypes_dtype)
@@ -143,27 +144,28 @@ class Pardiso:
 
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
+        self._mat_hash = None
         self.pardiso()
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
         mat_hash = _hash_mat(mat)
+        self._mat_hash = None  # only trust the factorization once it succeeds
         self._set_mat(mat)
-        self._mat_hash = mat_hash
         self.pardiso()
+        self._mat_hash = mat_hash
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
         mat_hash = _hash_mat(mat)
-        if mat_hash != self._mat_hash:
-            self._set_mat(mat)
-            self._mat_hash = mat_hash
-            self.phase = PARDISO_FULLSOLVE
-        else:
-            self.phase = PARDISO_SOLVE
-        return self.pardiso(rhs)
+        self.phase = PARDISO_SOLVE if mat_hash == self._mat_hash else PARDISO_FULLSOLVE
+        self._mat_hash = None  # only trust the factorization once the call succeeds
+        self._set_mat(mat)
+        x = self.pardiso(rhs)
+        self._mat_hash = mat_hash
+        return x
 
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
-        if self._mat_hash == 0:
+        if self.mat is None:
             raise RuntimeError('Mat information not stored in Pardiso.')
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
-- 
2.43.0


From 86b68ceed6c83b3f4f8ef522adbd54802277ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 03/68] fix: return multi-rhs Pardiso solutions in the shape of
 rhs

---
 simphox/mkl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index ec7f768..2efb535 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -170,6 +170,7 @@ class Pardiso:
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
+        shape = None if rhs is None else rhs.shape
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
         x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
@@ -205,7 +206,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From 535f381b93327980c097273bc7d84b19b3bbb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 04/68] fix: pass contiguous matrix entries to Pardiso (e.g.
 for A.real)

---
 simphox/mkl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2efb535..9937bf6 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -131,7 +131,7 @@ class Pardiso:
 
         self.mat = mat
 
-        self.a = self.mat.data
+        self.a = np.ascontiguousarray(self.mat.data)
         self.a_ = self.a.ctypes.data_as(self.ctypes_dtype)
 
         self.ia = self.mat.indptr
-- 
2.43.0


From 4fb40aa27510707678ee102245287e658d0f777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/68] fix: serialize the calls into a shared Pardiso instance

---
 simphox/mkl.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 9937bf6..9509591 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -1,5 +1,6 @@
 from .typing import Optional
 import sys
+from threading import RLock
 from ctypes import CDLL, byref, c_char, c_int, c_int64, POINTER, c_float, c_double
 
 import numpy as np
@@ -106,6 +107,7 @@ class Pardiso:
 
         self.phase = PARDISO_FULLSOLVE
         self.mat: Optional[sp.csr_matrix] = None
+        self._lock = RLock()  # ctypes releases the GIL and callbacks from jax solve from other threads
         self._mat_hash = None  # hash of the matrix whose factorization is currently held by pardiso, if any
 
     @property
@@ -143,26 +145,29 @@ class Pardiso:
         self.n = mat.shape[0]
 
     def free(self, complete: bool = True):
-        self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
-        self._mat_hash = None
-        self.pardiso()
+        with self._lock:
+            self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
+            self._mat_hash = None
+            self.pardiso()
 
     def factor(self, mat: sp.csr_matrix):
-        self.phase = PARDISO_FACTORIZE
-        mat_hash = _hash_mat(mat)
-        self._mat_hash = None  # only trust the factorization once it succeeds
-        self._set_mat(mat)
-        self.pardiso()
-        self._mat_hash = mat_hash
+        with self._lock:
+            self.phase = PARDISO_FACTORIZE
+            mat_hash = _hash_mat(mat)
+            self._mat_hash = None  # only trust the factorization once it succeeds
+            self._set_mat(mat)
+            self.pardiso()
+            self._mat_hash = mat_hash
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = _hash_mat(mat)
-        self.phase = PARDISO_SOLVE if mat_hash == self._mat_hash else PARDISO_FULLSOLVE
-        self._mat_hash = None  # only trust the factorization once the call succeeds
-        self._set_mat(mat)
-        x = self.pardiso(rhs)
-        self._mat_hash = mat_hash
-        return x
+        with self._lock:
+            mat_hash = _hash_mat(mat)
+            self.phase = PARDISO_SOLVE if mat_hash == self._mat_hash else PARDISO_FULLSOLVE
+            self._mat_hash = None  # only trust the factorization once the call succeeds
+            self._set_mat(mat)
+            x = self.pardiso(rhs)
+            self._mat_hash = mat_hash
+            return x
 
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
         if self.mat is None:
-- 
2.43.0


From dc4f70efdff21c784c4b2a8f19708038ff7965b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 06/68] fix: use int in place of np.int, which numpy removed
 (grids with PML)

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..5d97f47 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -340,7 +340,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From 831c90e74398e094b328aee61617834b3ace53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 07/68] fix: use float in place of np.float, which numpy
 removed (multi-box masks)

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..3895baf 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From cfb0f0d8260d39269a8d717bf85538ea42eee964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 08/68] fix: use float in place of np.float, which numpy
 removed (gradients of 2D TM solves)

---
 simphox/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..b648410 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), float))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
-- 
2.43.0


From 896069f359da9bfca0b7251361939d443d5650b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 09/68] fix: do not cache eps_t, which went stale when eps was
 edited

---
 simphox/fdtd.py | 2 --
 simphox/grid.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..cfa646a 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -348,7 +347,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
diff --git a/simphox/grid.py b/simphox/grid.py
index 5d97f47..f6235e0 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -462,7 +461,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From a579847a7a2ff812d10a4d9ab69cc98aa64e8fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 10/68] fix: look up cached port modes by permittivity so that
 they follow edits of eps

---
 simphox/sim.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..29b4395 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -1,4 +1,4 @@
-from functools import lru_cache
+import copy
 
 import jax
 import numpy as np
@@ -102,11 +102,11 @@ class SimGrid(YeeGrid):
         """
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
+        self._mode_cache: Dict[Tuple, ModeLibrary] = {}
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
-        it only computes the modes if the input parameters are provided.
+        it only computes the modes if the input parameters (including the permittivity of the cross section) changed.
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
@@ -119,11 +119,16 @@ class SimGrid(YeeGrid):
         """
         mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
         mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
-        modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
-            max_num_modes=num_modes
-        )
-        return SimCrossSection(modes, center, size, wavelength)
+        key = (mode_eps.tobytes(), mode_eps.dtype.str, mode_eps.shape, wavelength, num_modes)
+        if key not in self._mode_cache:
+            if len(self._mode_cache) >= 128:  # forget the oldest entry
+                self._mode_cache.pop(next(iter(self._mode_cache)))
+            self._mode_cache[key] = ModeLibrary(
+                ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+                max_num_modes=num_modes
+            )
+        # the caller gets its own library, which may be modified (e.g. by update_wavelength)
+        return SimCrossSection(copy.deepcopy(self._mode_cache[key]), center, size, wavelength)
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
                    profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
-- 
2.43.0


From 5876dfa776722b3a4299a10db803aa9cb50bcdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 11/68] fix: do not share the permittivity array with the
 caller, other grids and mask functions

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index f6235e0..4e15ab8 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -72,7 +72,7 @@ class Grid:
         self.field_shape = (3, *self.shape3)
 
         self.n = np.prod(self.shape)
-        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps
+        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps * 1.0  # a copy
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
@@ -271,7 +271,7 @@ class Grid:
             The mask function
 
         """
-        rho_init = self.eps
+        rho_init = self.eps.copy()
         center = self.center if center is None else center
         mask = self.mask(center, size)
         return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From e934c2c63918fc951f0406ced96bd10f6153d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/68] fix: give FDFD.from_simgrid the PML size (not its pixel
 count) and its own port map

---
 simphox/fdfd.py | 4 ++--
 simphox/sim.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..6017478 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -115,10 +115,10 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            pml=simgrid.pml,
             name=simgrid.name
         )
-        fdfd.port = simgrid.port
+        fdfd.port = dict(simgrid.port)
         return fdfd
 
     @property
diff --git a/simphox/sim.py b/simphox/sim.py
index 29b4395..1e7d170 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -419,10 +419,10 @@ class SimGrid(YeeGrid):
             size=np.asarray(eps_effective.shape) * self.spacing,
             spacing=self.spacing[:2],
             eps=eps_effective.real,
-            pml=self.pml_shape[:2],
+            pml=None if self.pml is None else self.pml[:2],
             name=self.name
         )
-        sim.port = self.port
+        sim.port = dict(self.port)
         return sim
 
     def decorate(self, sparams: np.ndarray, fields: np.ndarray) -> Tuple[xr.DataArray, xr.DataArray, xr.DataArray]:
-- 
2.43.0


From 050b831eaf3a01921c8ceafb7a53c7af52ce9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 13/68] fix: measure every requested port and mode with the
 orientation of its own port

---
 simphox/sim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 1e7d170..f7c8a54 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -146,7 +146,7 @@ class SimGrid(YeeGrid):
         """
 
         excitation = self.parse_excitation(excitation)
-        port_names = {e[0] for e in excitation}
+        port_names = list(dict.fromkeys(e[0] for e in excitation))  # a set would not keep the order
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
                      for name in port_names}
         return {name: self.modes(center=self.pml_safe_placement(self.port[name].xyz),
@@ -215,9 +215,8 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
-        port_nums = np.arange(len(ports))
-        angles = [self.port[port].a for port in ports]
+        port_nums = np.arange(len(measure_port))
+        angles = [self.port[port].a for port, _ in measure_port]
         # We measure polarity, which is the orientation of the measurement interface
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
-- 
2.43.0


From 365a148d87ed702d306f981bf41906d1af258036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 14/68] fix: accept {port: weight} sources and higher order
 modes in port_source

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index f7c8a54..bfce88f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -6,7 +6,7 @@ import jax.numpy as jnp
 
 from .grid import YeeGrid
 from .mode import ModeSolver, ModeLibrary
-from .parse import parse_excitation
+from .parse import parse_excitation, parse_source_port
 from .typing import Excitation, Spacing, Shape, Union, Size, Optional, List, Tuple, Size2, Dict, Size3, \
     Callable, \
     MeasureInfo, Op, PortLabel
@@ -178,7 +178,8 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = parse_source_port(source)
+        source_library = self.port_modes(list(source) or None, profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
-- 
2.43.0


From 8fe7adaac03022f1a5b8a2456a0d2412a98211d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 15/68] fix: use the wavelength of the simulation for its port
 sources and measurements

---
 simphox/sim.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index bfce88f..cd847a2 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -131,13 +131,14 @@ class SimGrid(YeeGrid):
         return SimCrossSection(copy.deepcopy(self._mode_cache[key]), center, size, wavelength)
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
-                   profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
+                   profile_size_factor: float = 3,
+                   wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
         """Profile for all the ports in the grid (always assumed to be along x or y axes!).
 
         Args:
             excitation: Dictionary mapping port to mode index for excitations
             profile_size_factor: Factor to rescale the mode view slice compared to the port
-            wavelength: Wavelength for the modes
+            wavelength: Wavelength for the modes (default is the wavelength of the simulation if any, otherwise 1.55)
 
         Returns:
             A dictionary from mode to SimCrossSection containing the mode, and its center and size in this grid
@@ -145,6 +146,7 @@ class SimGrid(YeeGrid):
 
         """
 
+        wavelength = getattr(self, 'wavelength', 1.55) if wavelength is None else wavelength
         excitation = self.parse_excitation(excitation)
         port_names = list(dict.fromkeys(e[0] for e in excitation))  # a set would not keep the order
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
@@ -157,7 +159,7 @@ class SimGrid(YeeGrid):
 
     def port_source(self, source: Optional[Union[Dict[Tuple[str, int], float], Dict[str, float]]] = None,
                     profile_size_factor: float = 3, unidirectional: bool = True,
-                    wavelength: float = 1.55) -> np.ndarray:
+                    wavelength: Optional[float] = None) -> np.ndarray:
         """Return a non-sparse source array based on the ports defined in the simulation grid.
 
         Args:
@@ -168,7 +170,7 @@ class SimGrid(YeeGrid):
             profile_size_factor: Factor to rescale the mode view slice compared to the port
             unidirectional: In FDFD, this specifies whether to send the mode in unidirectionally, determined
                 using the port angle.
-            wavelength: Wavelength for the source
+            wavelength: Wavelength for the source (default is the wavelength of the simulation if any, otherwise 1.55)
 
         Returns:
             The non-sparse source array that can be used as a source profile for either FDFD or FDTD
@@ -198,13 +200,14 @@ class SimGrid(YeeGrid):
     def parse_excitation(self, excitation: Optional[Excitation] = None):
         return [(port, 0) for port in self.port] if excitation is None else parse_excitation(excitation)
 
-    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: float = 1.55,
+    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: Optional[float] = None,
                        profile_size_factor: float = 3, use_jax: bool = False, tm_2d: bool = True) -> Op:
         """Measure function: measure the fields using the Modes object provided for each port.
 
         Args:
             measure_port: List of port name and mode index at that port.
-            wavelength: The wavelength for the measurement.
+            wavelength: The wavelength for the measurement
+                (default is the wavelength of the simulation if any, otherwise 1.55).
             profile_size_factor: Factor to rescale the mode view slice compared to the port.
             use_jax: Whether to use jax in the measure function (relevant for simulations).
             tm_2d: Whether to use TM polarization (applies to the 2D case only).
-- 
2.43.0


From bf03d637086e448e66e08e1c219690b32d623629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 16/68] fix: measure the ports given by measure_info in
 get_sim_sparams_fn

---
 simphox/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index cd847a2..b1cfb4d 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -315,7 +315,8 @@ class SimGrid(YeeGrid):
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, profile_size_factor=profile_size_factor,
+                                         use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From 1fe400a6bbf456dff7d460941af305118a8c9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 17/68] fix: measure at the wavelength of the source in
 run_cw_port

---
 simphox/fdtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index cfa646a..5dd6aca 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -262,7 +262,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
-- 
2.43.0


From 7dcacd0453c851f94772b0e61f7d031c9dfd31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 18/68] fix: add the FDTD sources to the fields for the jax
 backend too, instead of overwriting the fields

---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 5dd6aca..66767e0 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -134,7 +134,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / self.eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
 
@@ -161,7 +161,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From a596fb56601c67ac4590892e8fa047bf82f663b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 19/68] fix: leave the given state untouched in FDTD.step,
 which is documented as stateless

---
 simphox/fdtd.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 66767e0..966bb15 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -116,40 +116,43 @@ class FDTD(SimGrid):
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
         # update pml in pml regions if specified
+        psi_e = None if psi_e is None else list(psi_e)  # do not modify the given state
         phi_e = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_e[pml_idx], p = self._curl_h_pml[pml_idx](h, psi_e[pml_idx], self.cpml_b[pml_idx][1])
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        eps_t = self.eps_t
+        e = e + self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-                e = e.at[pml_region].add(phi_e[pml_idx] / self.eps_t[pml_region] * self.dt)
+                e = e.at[pml_region].add(phi_e[pml_idx] / eps_t[pml_region] * self.dt)
             else:
-                e[pml_region] += phi_e[pml_idx] / self.eps_t[pml_region] * self.dt
+                e[pml_region] += phi_e[pml_idx] / eps_t[pml_region] * self.dt
 
         # add source
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].add(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
+                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
         # update h field in pml regions if specified
+        psi_h = None if psi_h is None else list(psi_h)  # do not modify the given state
         phi_h = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_h[pml_idx], p = self._curl_e_pml[pml_idx](e, psi_h[pml_idx], self.cpml_b[pml_idx][0])
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From 52818a9a74799db5a7400f8e76c9cd4cf75eaf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 20/68] fix: accumulate psi over time in the FDTD PML as
 documented

---
 simphox/utils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..7a305fe 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -180,15 +180,14 @@ def curl_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False,
 def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False):
     xp = jnp if use_jax else np
 
-    def _curl(f: np.ndarray, prev_df: np.ndarray, b_pml: np.ndarray):
-        next_df = xp.stack(
-            [df(f[2], 1), df(f[1], 2),
-             df(f[0], 2), df(f[2], 0),
-             df(f[1], 0), df(f[0], 1)]
+    def _curl(f: np.ndarray, psi: np.ndarray, b_pml: np.ndarray):
+        # psi accumulates over time for each of the derivatives
+        psi = xp.stack(
+            [df(f[2], 1) + psi[0] * b_pml[1], df(f[1], 2) + psi[1] * b_pml[2],
+             df(f[0], 2) + psi[2] * b_pml[2], df(f[2], 0) + psi[3] * b_pml[0],
+             df(f[1], 0) + psi[4] * b_pml[0], df(f[0], 1) + psi[5] * b_pml[1]]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        return psi, xp.stack([psi[0] - psi[1], psi[2] - psi[3], psi[4] - psi[5]])
     return _curl
 
 
-- 
2.43.0


From 1ed686fca51b872252ea1b0b299995339e9353fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 21/68] fix: build the FDTD PML regions of the axes that exist,
 so that 2D grids can have PML

---
 simphox/fdtd.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 966bb15..419d9da 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -309,15 +309,14 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr)
+                      for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+        self.pml_regions = tuple(
+            tuple(s if i == ax + 1 else slice(None) for i in range(4))
+            for ax in range(self.ndim) for s in (slice(None, self.pml_shape[ax]), slice(-self.pml_shape[ax], None))
+        )
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From 7f0d6ba768432d0c366df0db98fea798bf54d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 22/68] fix: return the propagation constants of the modes that
 are returned when evanescent modes were dropped

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b42b02f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From 231814f2e7375b412fe6c4257999aeed770a1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 23/68] fix: solve for the modes at each of the wavelengths in
 dispersion_sweep

---
 simphox/mode.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b42b02f..a52c74d 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,13 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        initial_wavelength = self.wavelength
+        try:
+            for wavelength in wavelengths if pbar is None else pbar(wavelengths):
+                self.wavelength = wavelength
+                solutions.append(self.solve(m))
+        finally:
+            self.wavelength = initial_wavelength
         return solutions
 
 
-- 
2.43.0


From 98db832223b4a6283b85cc4af686ddae52f4c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 24/68] fix: run opt_run without a progress bar, as its default
 says

---
 simphox/opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..8a327aa 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -223,7 +223,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if hasattr(iterator, 'set_description'):
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
-- 
2.43.0


From 8b2042979b2f4b155ece6aa6dd36749e19a4e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 25/68] fix: match simulation results to their problems in
 opt_run when other problems have no simulation

---
 simphox/opt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 8a327aa..b73f93a 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -180,6 +180,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
+            if op.sim is None:
+                continue
             op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
 
     step = jax.jit(step_, backend=backend)
@@ -192,7 +194,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        sim_data = [aux for s, aux in zip(solve_fn, data) if s is not None]
+        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
-- 
2.43.0


From a485ea09e72db07b9da75a5d43a3fbca08441540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 26/68] fix: record the eps that the recorded cost and fields
 of an iteration belong to in opt_run

---
 simphox/opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index b73f93a..b6f8869 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -192,8 +192,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     history = defaultdict(list)
 
     for i in iterator:
+        _update_eps(opt_state)  # eps of the simulations evaluated in this step
         v, opt_state, data = step(i, opt_state)
-        _update_eps(opt_state)
         sim_data = [aux for s, aux in zip(solve_fn, data) if s is not None]
         for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
-- 
2.43.0


From b8996860183ba4dbc0d5a3b9f7eda016fcb5d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 27/68] fix: record metrics without a viz panel and label them
 with their iterations in opt_run

---
 simphox/opt.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index b6f8869..6d5f530 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -205,18 +205,18 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                for title in viz.metrics_pipes[sop.sim.name] if viz is not None else ():
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -233,18 +233,22 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    if viz is not None:
+        all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    else:
+        all_metric_names = list(dict.fromkeys(key.rsplit('/', 1)[0] for key in history
+                                              if not key.startswith(('eps/', 'field/'))))
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
                         for metric_name in all_metric_names] for sop in sim_opt_problems]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 else []
+    ) if sim_opt_problems and metric_interval != 0 and all_metric_names else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
                        for sop in sim_opt_problems]),
-- 
2.43.0


From f549ce4c111a1a69757e2316d8212b1975b531e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 28/68] fix: keep the records of optimization problems apart
 when they share a simulation or its name

---
 simphox/opt.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 6d5f530..2df7b4b 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -195,7 +195,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         _update_eps(opt_state)  # eps of the simulations evaluated in this step
         v, opt_state, data = step(i, opt_state)
         sim_data = [aux for s, aux in zip(solve_fn, data) if s is not None]
-        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
+        for idx, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
@@ -208,11 +208,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
-                    history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
+                    history[f'{metric_name}/{idx}'].append(metric_value)
                 for title in viz.metrics_pipes[sop.sim.name] if viz is not None else ():
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
-                            data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
+                            data=np.asarray([history[f'{metric_name}/{idx}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
@@ -223,9 +223,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
+                history[f'eps/{idx}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
-                history[f'field/{sop.sim.name}'].append((i, hz.T))
+                history[f'field/{idx}'].append((i, hz.T))
         if hasattr(iterator, 'set_description'):
             iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
@@ -239,8 +239,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         all_metric_names = list(dict.fromkeys(key.rsplit('/', 1)[0] for key in history
                                               if not key.startswith(('eps/', 'field/'))))
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in sim_opt_problems]),
+        data=np.array([[history[f'{metric_name}/{idx}']
+                        for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
@@ -250,11 +250,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='metrics'
     ) if sim_opt_problems and metric_interval != 0 and all_metric_names else []
     eps = xarray.DataArray(
-        data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
-                       for sop in sim_opt_problems]),
+        data=np.array([[eps for _, eps in history[f'eps/{idx}']] if eps_interval > 0 else []
+                       for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'eps/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['eps/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
@@ -262,11 +262,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='eps'
     ) if sim_opt_problems and eps_interval != 0 else []
     fields = xarray.DataArray(
-        data=np.asarray([[field for _, field in history[f'field/{sop.sim.name}']] if field_interval > 0 else []
-                         for sop in sim_opt_problems]),
+        data=np.asarray([[field for _, field in history[f'field/{idx}']] if field_interval > 0 else []
+                         for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'field/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['field/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
-- 
2.43.0


From 24c6acbc3fb1cae3ad61bb37411847131998fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 29/68] fix: use the identity for transform_fn None in
 OptProblem, as documented

---
 simphox/opt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/opt.py b/simphox/opt.py
index 2df7b4b..9b3fe86 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -61,6 +61,7 @@ class OptProblem:
     metrics_fn: Optional[Callable[[np.ndarray, SimGrid], Dict]] = None
 
     def __post_init__(self):
+        self.transform_fn = self.transform_fn if self.transform_fn is not None else lambda rho: rho
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
             if self.source is not None else self.transform_fn
 
-- 
2.43.0


From 7ad4e94d9d77018050f2da8cbeb66e17c790ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 30/68] fix: evaluate C(T(rho)) for the optimization problems
 without a simulation, as documented

---
 simphox/opt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 9b3fe86..89bf8a5 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -63,7 +63,7 @@ class OptProblem:
     def __post_init__(self):
         self.transform_fn = self.transform_fn if self.transform_fn is not None else lambda rho: rho
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
-            if self.source is not None else self.transform_fn
+            if self.source is not None and self.sim is not None else self.transform_fn
 
 
 @fix_dataclass_init_docs
@@ -166,10 +166,10 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             raise ValueError("Number of viz_pipes must match number of opt problems")
 
     # Define the simulation and objective function acting on parameters rho
-    solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
+    has_sim = [op.source is not None and op.sim is not None for op in opt_problems]
 
     def overall_cost_fn(rho: jnp.ndarray):
-        evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
+        evals = [op.cost_fn(op.fn(rho)) for op in opt_problems]  # fn is transform_fn without sim or source
         return jnp.array([obj for obj, _ in evals]).sum() / n_problems, [aux for _, aux in evals]
 
     # Define a compiled update step
@@ -195,7 +195,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         _update_eps(opt_state)  # eps of the simulations evaluated in this step
         v, opt_state, data = step(i, opt_state)
-        sim_data = [aux for s, aux in zip(solve_fn, data) if s is not None]
+        sim_data = [aux for has_sim_data, aux in zip(has_sim, data) if has_sim_data]
         for idx, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
-- 
2.43.0


From e68bd5ee8aec18f2847f5985d8e27f638a9753d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 31/68] fix: index the fabrication errors of the nodes by
 node_id, like their phases

---
 simphox/circuit/forward.py | 29 ++++++++++++++++++++++++-----
 simphox/circuit/vector.py  |  5 +++--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..3049b57 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -111,6 +111,20 @@ class ForwardMesh:
         self.column_by_node = np.array([node.column for node in self.nodes])
         return self
 
+    def by_node_id(self, values: np.ndarray) -> np.ndarray:
+        """Index the values for the nodes (given in the order of :code:`nodes`) by :code:`node_id`, as for the phases.
+
+        Args:
+            values: Values for the nodes, in the order of :code:`nodes`.
+
+        Returns:
+            The values such that :code:`values[node.node_id]` is the value for :code:`node`.
+
+        """
+        values_by_node_id = np.zeros((np.max(self.node_idxs) + 1, *values.shape[1:]), dtype=values.dtype)
+        values_by_node_id[self.node_idxs] = values
+        return values_by_node_id
+
     def rand_s(self):
         """Randomly initialized split ratios :math:`s`.
 
@@ -200,7 +214,8 @@ class ForwardMesh:
 
         # Define a function that represents an mzi column given inputs and all available thetas and phis
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
-                   bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
+                   bs_errors=xp.array(self.by_node_id(self.all_errors), dtype=np.complex64),
+                   loss_errors=xp.array(self.by_node_id(self.all_losses), dtype=np.complex64)):
 
             inputs += 0j  # cast to complex if not already
             thetas, phis, gammas = params
@@ -290,7 +305,8 @@ class ForwardMesh:
         all_idx = self.idx(back)
 
         def propagate_matrix(params=self.params, inputs=xp.eye(self.n, dtype=np.complex64),
-                             bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
+                             bs_errors=xp.array(self.by_node_id(self.all_errors), dtype=np.complex64),
+                             loss_errors=xp.array(self.by_node_id(self.all_losses), dtype=np.complex64)):
             thetas, phis, gammas = params
             thetas, phis, gammas = xp.array(thetas), xp.array(phis), xp.array(gammas)
             inputs = inputs + 0j  # cast to complex if not already
@@ -362,7 +378,8 @@ class ForwardMesh:
 
         @custom_vjp
         def matrix(params=self.params, inputs=jnp.eye(self.n, dtype=np.complex64),
-                   bs_errors=jnp.array(self.all_errors), loss_errors=jnp.array(self.all_losses)):
+                   bs_errors=jnp.array(self.by_node_id(self.all_errors)),
+                   loss_errors=jnp.array(self.by_node_id(self.all_losses))):
             forward = forward_matrix_fn(params, inputs, bs_errors, loss_errors)
             forward_inputs_abs = jnp.abs(jnp.abs(forward) * (1 + io_amp_error_std * np.random.randn(*forward.shape)))
             forward_inputs_phase = jnp.angle(forward) + io_phase_error_std * np.random.randn(*forward.shape) * np.pi
@@ -465,9 +482,10 @@ class ForwardMesh:
         """
 
         node_columns = self.columns
+        mzi_terms = _mzi_terms(self.by_node_id(self.all_errors))
         for nc, w in zip(node_columns, nullification_basis):
             vector = self.propagate(w.copy(), column_cutoff=nc.column_by_node[0], explicit=False)[-1]
-            theta, phi = nc.parallel_nullify(vector, self.mzi_terms)
+            theta, phi = nc.parallel_nullify(vector, mzi_terms)
             self.thetas[nc.node_idxs] = theta
             self.phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
 
@@ -477,7 +495,8 @@ class ForwardMesh:
 
         Args:
             vector: The vector entering the column.
-            mzi_terms: The MZI terms account for errors in the couplers of the photonic circuit.
+            mzi_terms: The MZI terms account for errors in the couplers of the photonic circuit
+                (indexed by :code:`node_id`).
 
         Returns:
             The programmed phases
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..88a99af 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from .coupling import CouplingNode, PhaseStyle
-from .forward import ForwardMesh
+from .forward import ForwardMesh, _mzi_terms
 from ..typing import Callable, List, Optional, Tuple
 from ..utils import random_vector
 
@@ -125,12 +125,13 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
     phis = np.zeros(v.shape[0] - 1)
     w = v.copy()
     w = w[:, np.newaxis] if w.ndim == 1 else w
+    mzi_terms = _mzi_terms(network.by_node_id(network.all_errors))
     for nc in network.columns:
         # grab the elements for the top and bottom arms of the mzi.
         top = w[nc.top]
         bottom = w[nc.bottom]
 
-        theta, phi = nc.parallel_nullify(w, network.mzi_terms)
+        theta, phi = nc.parallel_nullify(w, mzi_terms)
 
         # Vectorized (efficient!) parallel mzi elements
         t11, t12, t21, t22 = nc.parallel_mzi(theta, phi)
-- 
2.43.0


From 21e64ad76c004fb1fe958661561a0555ad172640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 32/68] fix: propagate through couplers and phase shifters with
 the errors and losses of the mesh matrix

---
 simphox/circuit/forward.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3049b57..3808bb7 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -318,8 +318,11 @@ class ForwardMesh:
                 propagated.append(outputs.copy()[None])
 
             if explicit:
-                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax)
-                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax)
+                left = _parallel_dc(bs_errors, right=False, use_jax=use_jax)
+                right = _parallel_dc(bs_errors, right=True, use_jax=use_jax)
+                # the insertion losses are at the theta and phi phase shifters respectively (as in the MZI matrix elements)
+                theta_loss, phi_loss = np.log(10) * loss_errors.T / 20
+                thetas, phis = thetas - 1j * theta_loss, phis - 1j * phi_loss
             else:
                 mzis = _parallel_mzi(thetas, phis, bs_errors, loss_errors, use_jax=use_jax, back=back, phase_style=self.phase_style)
 
@@ -726,7 +729,7 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
     return xp.array([t11, t12, t21, t22])
 
 
-def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
+def _parallel_dc(bs_errors: np.ndarray, right: bool = False, use_jax: bool = False):
     """This is a helper function for parallel directional couplers
     across all directional couplers in the mesh.
 
@@ -740,12 +743,9 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     """
     xp = jnp if use_jax else np
     right = int(right)
-    insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    t11 = t22 = xp.cos(np.pi / 4 + errors)
+    t12 = t21 = 1j * xp.sin(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From c8dc0638b4dacd6b40642f1a402d7129d3624c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 33/68] fix: make the backward mesh matrix the transpose of the
 forward one for unequal couplers and differential phases

---
 simphox/circuit/forward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3808bb7..6096232 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -701,6 +701,8 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     # stands for cos-cos, cos-sin, sin-cos, sin-sin terms.
     cc, cs, sc, ss = _mzi_terms(bs_errors, use_jax)
+    if back:
+        cs, sc = sc, cs  # backward matrix is the transpose of the forward matrix (the couplers are visited right to left)
     # insertion (assume a fixed loss that is global for each node) expressed in terms of dB
     il, ir = np.log(10) * loss_errors.T / 20
 
@@ -720,10 +722,10 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (-phi - theta) / 2 + ir)
         t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta) / 2 + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
     return xp.array([t11, t12, t21, t22])
-- 
2.43.0


From e26cf68ddd2d034e1228bda7d5e32a808e588729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 34/68] fix: keep the phase style of the nodes when aggregating
 meshes

---
 simphox/circuit/forward.py | 7 ++++---
 simphox/circuit/matrix.py  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6096232..d170d5b 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -144,11 +144,12 @@ class ForwardMesh:
         return transmissivity_to_phase(self.rand_s(), self.mzi_terms)
 
     @classmethod
-    def aggregate(cls, nodes_or_node_lists: List[Union[CouplingNode, "ForwardMesh"]]):
+    def aggregate(cls, nodes_or_node_lists: List[Union[CouplingNode, "ForwardMesh"]], phase_style: str = PhaseStyle.TOP):
         """Aggregate nodes and/or node lists into a single :code:`NodeList`.
 
         Args:
             nodes_or_node_lists: Nodes and/or node lists to aggregate into a single :code:`NodeList`.
+            phase_style: Phase style for the nodes (see the :code:`PhaseStyle` enum).
 
         Returns:
             A :code:`NodeList` that contains all the nodes.
@@ -160,7 +161,7 @@ class ForwardMesh:
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+        return cls(all_nodes, phase_style)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
@@ -572,7 +573,7 @@ class ForwardMesh:
             The column-ordered nodes for this circuit (useful in cases nodes are out of order).
 
         """
-        return ForwardMesh.aggregate(self.columns)
+        return ForwardMesh.aggregate(self.columns, self.phase_style)
 
     def add_error_mean(self, error: Union[float, np.ndarray] = 0, loss_db: Union[float, np.ndarray] = 0,
                        error_right: Optional[Union[float, np.ndarray]] = None):
diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..2335941 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -61,7 +61,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         num_columns += subunits[-1].num_columns
         num_nodes += subunits[-1].num_nodes
     gammas = np.hstack((-np.angle(w[0, 0]), gammas))
-    unit = ForwardMesh.aggregate(subunits)
+    unit = ForwardMesh.aggregate(subunits, phase_style)
     unit.params = thetas, phis, gammas
     return unit
 
-- 
2.43.0


From 5084d6091775d08c59339826232937f6b292a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 35/68] fix: nullify nodes with unequal couplers or
 differential phases

---
 simphox/circuit/forward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index d170d5b..4d8d123 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -517,8 +517,10 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
-        return theta, phi
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # the differential phase is that of the bottom arm with respect to the top arm
+        return theta, np.mod(phi, 2 * np.pi)
 
     @property
     def params(self):
-- 
2.43.0


From 2105d18adee14f3f10144a875057f5cdbfef5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 36/68] fix: accept real inputs in the mesh matrix function

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4d8d123..7a8db18 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -218,7 +218,7 @@ class ForwardMesh:
                    bs_errors=xp.array(self.by_node_id(self.all_errors), dtype=np.complex64),
                    loss_errors=xp.array(self.by_node_id(self.all_losses), dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From 521dc1761e82f4bdb56db4f9066a7c78ca6d1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 37/68] fix: do not share the mesh phases with the caller,
 reprogramming a mesh edits them in place

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7a8db18..a561613 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -528,7 +528,8 @@ class ForwardMesh:
 
     @params.setter
     def params(self, params: Tuple[np.ndarray, np.ndarray, np.ndarray]):
-        self.thetas, self.phis, self.gammas = params
+        thetas, phis, gammas = params
+        self.thetas, self.phis, self.gammas = thetas.copy(), phis.copy(), gammas.copy()
 
     def phases(self, error: np.ndarray = 0, constant: bool = False, gamma_error: bool = False):
         """
-- 
2.43.0


From 3b369dd316b414bd172cb61a6a7c75065e0fa209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 38/68] fix: default to the phis of the mesh in parallel_mzi

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index a561613..4e61dc5 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -565,7 +565,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From d4a2efb840ca0b00a776be5a7bb7357a334c3ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 39/68] fix: index the in situ gradients of the phases by
 node_id and measure them in the arm of the phase style

---
 simphox/circuit/forward.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4e61dc5..2737eb2 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -549,16 +549,20 @@ class ForwardMesh:
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
+        columns = self.columns
+        # the phases are indexed by node_id, and their shifters are in the bottom arm for the bottom phase style
+        order = np.argsort(np.hstack([nc.node_idxs for nc in columns]))
+        arms = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
         if prop_powers.ndim == 3:
             return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
+                xp.vstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)]).sum(axis=-1)[order],
+                xp.vstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)]).sum(axis=-1)[order],
                 prop_powers[-1].sum(axis=-1)
             )
         elif prop_powers.ndim == 2:
             return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
+                xp.hstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)])[order],
+                xp.hstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)])[order],
                 prop_powers[-1]
             )
 
-- 
2.43.0


From 76caf7df19cd934be1acd0ae635e6c706c9d828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 40/68] fix: return the gradient of the inputs from the in situ
 backpropagation at their scale and in their shape

---
 simphox/circuit/forward.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 2737eb2..9e61a29 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -397,15 +397,19 @@ class ForwardMesh:
         def matrix_bwd(res, g):
             params, inputs, bs_errors, loss_errors = res
 
+            inputs_shape, is_complex = inputs.shape, jnp.iscomplexobj(inputs)
+            inputs = inputs[:, None] if inputs.ndim == 1 else inputs
+
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
 
-            inputs /= inorm
-            g /= gnorm
+            # normalize (vanishing fields have vanishing gradients)
+            inputs = inputs / jnp.where(inorm > 0, inorm, 1)
+            g = g / jnp.where(gnorm > 0, gnorm, 1)
 
             if all_analog:
                 # instead of using digital subtraction of backpropagating signals, use only forward prop'd signal
-                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).squeeze()
+                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors)
                 adjoint_inputs_abs = jnp.abs(jnp.abs(adjoint_inputs) * (1 + io_amp_error_std * np.random.randn(*adjoint_inputs.shape)))
                 adjoint_inputs_phase = jnp.angle(adjoint_inputs) + io_phase_error_std * np.random.randn(*adjoint_inputs.shape) * np.pi
                 adjoint_inputs = adjoint_inputs_abs * jnp.exp(1j * adjoint_inputs_phase)
@@ -419,7 +423,7 @@ class ForwardMesh:
             else:
                 forward = forward_prop_fn(params, inputs, bs_errors, loss_errors)
                 adjoint = backward_prop_fn(params, g, bs_errors, loss_errors)[::-1]
-                adjoint_inputs = adjoint[0]
+                adjoint_inputs = adjoint[0].reshape(inputs.shape)
                 sum = forward_prop_fn(params, inputs - 1j * jnp.conj(adjoint_inputs), bs_errors, loss_errors)
                 sum_abs, forward_abs, adjoint_abs = jnp.abs(sum), jnp.abs(forward), jnp.abs(adjoint)
                 sum_meas = sum_abs ** 2 + tap_pd_shot_noise * sum_abs * np.random.randn(*forward.shape)
@@ -427,9 +431,12 @@ class ForwardMesh:
                 adjoint_meas = adjoint_abs ** 2 + tap_pd_shot_noise * adjoint_abs * np.random.randn(*forward.shape)
                 grad_powers = sum_meas - forward_meas - adjoint_meas
 
+            input_grads = (adjoint_inputs * gnorm).reshape(inputs_shape)
+            input_grads = input_grads if is_complex else input_grads.real
+
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), input_grads, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 3dc75520dfcfd0c498ac92883b0cc3aa745fadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 41/68] fix: raise an error when an iterative solver does not
 converge instead of returning its last iterate

---
 simphox/fdfd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 6017478..6400c14 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -212,7 +212,9 @@ class FDFD(SimGrid):
             if iterative > 0 and solver_fn is None and self.ndim == 3:
                 # use iterative solver for 3d sims by default
                 M = sp.linalg.LinearOperator(self.mat.shape, sp.linalg.spilu(self.mat).solve)
-                e, _ = sp.linalg.gmres(self.mat, b, M=M) if iterative == 1 else sp.linalg.bicgstab(self.mat, b, M=M)
+                e, info = sp.linalg.gmres(self.mat, b, M=M) if iterative == 1 else sp.linalg.bicgstab(self.mat, b, M=M)
+                if info != 0:
+                    raise RuntimeError(f'The iterative solver did not converge (info {info}).')
             else:
                 e = solver_fn(self.mat, b) if solver_fn else spsolve_pardiso(self.mat, b)
             e = self.reshape(e)
-- 
2.43.0


From b11d7b15aa0f56ae8205f89bb0d75115c19bc438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 42/68] fix: keep the wavelength of the modes in the mode
 library when an update fails

---
 simphox/mode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index a52c74d..45158d9 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -242,8 +242,13 @@ class ModeLibrary:
 
     def _update_solve(self, wavelength: float):
         self.ndim = self.solver.ndim
+        previous_wavelength = self.solver.wavelength
         self.solver.wavelength = wavelength
-        self.betas, self.modes = self.solver.solve(self.max_num_modes)
+        try:
+            self.betas, self.modes = self.solver.solve(self.max_num_modes)
+        except BaseException:
+            self.solver.wavelength = previous_wavelength  # that of the modes in this library
+            raise
         self.modes = self.modes
         self.eps = self.solver.eps
         self.num_modes = self.m = len(self.betas)
-- 
2.43.0


From 657e9d1541bfc6838550824e2993bbb03e982414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 43/68] fix: label the sparams of Component.from_fdfd with the
 ports they were simulated for

---
 simphox/circuit/component.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/component.py b/simphox/circuit/component.py
index e410607..d2ea1be 100644
--- a/simphox/circuit/component.py
+++ b/simphox/circuit/component.py
@@ -89,14 +89,15 @@ class Component:
                 sparams_wl.append(s)
             sparams.append(sparams_wl)
 
+        ports = list(fdfd.port)
         model = xr.DataArray(
             data=sparams,
             dims=["wavelengths", "in_ports", "out_ports"],
             coords={
                 "wavelengths": wavelengths,
-                "in_ports": in_ports,
-                "out_ports": out_ports
+                "in_ports": ports,
+                "out_ports": ports
             }
-        )
+        ).sel(in_ports=ports if in_ports is None else in_ports, out_ports=ports if out_ports is None else out_ports)
 
         return cls(pattern, model=model, name=name)
-- 
2.43.0


From 4ffeeee04d9796f1f014397c6a43ec95ee8b37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 44/68] fix: accept lists of a single port name as excitation
 or source

---
 simphox/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..b1736bf 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -14,7 +14,7 @@ def parse_excitation(excitation: Excitation):
     if isinstance(excitation, str):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
+        if len(excitation) == 2 and (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int):
             return [excitation]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
@@ -34,7 +34,7 @@ def parse_source_port(source: SourceLabel):
     if isinstance(source, str):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], str) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-- 
2.43.0


From 0812f448161d330505ebc42435522e27ef4dcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 45/68] fix: send the TE mode in run_cw_port when tm_2d is
 False

---
 simphox/fdtd.py | 3 ++-
 simphox/sim.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 419d9da..525becb 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -276,7 +276,8 @@ class FDTD(SimGrid):
             for p, midx in source_excitation:
                 mode = source_modes[p]
                 time_shift = np.exp(1j * step * self.dt * k0)
-                src_e, src_h, src_slice = mode.profile(midx), mode.profile(midx, use_h=True), mode.slice(self)
+                src_e, src_h = mode.profile(midx, tm_2d=tm_2d), mode.profile(midx, use_h=True, tm_2d=tm_2d)
+                src_slice = mode.slice(self)
                 sources.append((src_e * time_shift, src_h * time_shift, src_slice))
             _, h_before, _, _ = state
             state = self.step(state, sources)
diff --git a/simphox/sim.py b/simphox/sim.py
index b1cfb4d..fee3dd0 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -50,12 +50,13 @@ class SimCrossSection:
         # Find
         return np.where(np.array(self.size) == 0)[0][0]
 
-    def profile(self, mode_idx: int, use_h: float = False):
+    def profile(self, mode_idx: int, use_h: float = False, tm_2d: bool = True):
         """Returns the mode profile oriented based on specified xyz size of the profile.
 
         Args:
             mode_idx: The mode index of the profile
             use_h: Return the h field for the profile
+            tm_2d: Whether to use TM polarization (applies to the 2D case only).
 
         Returns:
             The oriented profile.
@@ -77,7 +78,7 @@ class SimCrossSection:
             np.asarray((1, 1, -1), dtype=int)
         ][self.prop_axis]
 
-        mode = self.io.h(mode_idx) if use_h else self.io.e(mode_idx)
+        mode = self.io.h(mode_idx, tm_2d) if use_h else self.io.e(mode_idx, tm_2d)
         mode = np.stack([signs[0] * mode[axes[0]], signs[1] * mode[axes[1]], signs[2] * mode[axes[2]]])
 
         return mode.transpose((0, *tuple(1 + axes)))
-- 
2.43.0


From 663c27df01cfe91c3cd887fa1ef44e46e13a2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 46/68] fix: make the symmetry functions symmetric for even
 sizes without averaging

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 3895baf..08a86e2 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[(x.shape[0] + 1) // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, (x.shape[1] + 1) // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From 6e275b60a7c8a098564b37053f67415d111544e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 47/68] fix: record the metrics of optimizations in which some
 problems have none

---
 simphox/opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 89bf8a5..1585e8a 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -239,8 +239,10 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     else:
         all_metric_names = list(dict.fromkeys(key.rsplit('/', 1)[0] for key in history
                                               if not key.startswith(('eps/', 'field/'))))
+    # the metrics that a problem does not have are not a number
+    no_metric = [np.nan] * len(range(0, num_iters, metric_interval)) if metric_interval > 0 else []
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{idx}']
+        data=np.array([[history[f'{metric_name}/{idx}'] or no_metric
                         for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-- 
2.43.0


From fc72192163d4e3bbf459f22439782cc4bc4c780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 48/68] fix: evaluate transforms with JAX parameters and keep
 the eps of optimized simulations editable in opt_run

---
 simphox/opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 1585e8a..4ac9a51 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -152,7 +152,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     """
 
     opt_init, opt_update, get_params = adam(step_size=step_size)
-    opt_state = opt_init(init_params)
+    opt_state = opt_init(jax.tree_util.tree_map(jnp.asarray, init_params))
 
     # define opt_problems
     opt_problems = [opt_problem] if isinstance(opt_problem, OptProblem) else opt_problem
@@ -183,7 +183,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         for op in opt_problems:
             if op.sim is None:
                 continue
-            op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
+            op.sim.eps = np.array(jax.lax.stop_gradient(op.transform_fn(rho)))  # a copy that can be edited
 
     step = jax.jit(step_, backend=backend)
 
-- 
2.43.0


From 8b2af4aafb767269219d202cf8162836a2be7921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 49/68] fix: keep the initial params of get_mask_fn when the
 given array is edited

---
 simphox/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 08a86e2..1b3d500 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,6 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
+    rho_init = jnp.array(rho_init)  # a copy, the params outside of the box do not follow later edits
     mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
-    return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
+    return lambda rho: rho_init * (1 - mask) + rho * mask
-- 
2.43.0


From be61cbbfd9290f2be66ba852fae5b4a9ae70dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 50/68] fix: place boxes at their pixels despite rounding
 errors of the positions

---
 simphox/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 7a305fe..8a85526 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -90,11 +90,15 @@ class Box:
 
     @property
     def min_i(self):
-        return int(self.min[0] / self.spacing), int(self.min[1] / self.spacing)
+        return self._pixel(self.min[0]), self._pixel(self.min[1])
 
     @property
     def max_i(self):
-        return int(self.max[0] / self.spacing), int(self.max[1] / self.spacing)
+        return self._pixel(self.max[0]), self._pixel(self.max[1])
+
+    def _pixel(self, x: float) -> int:
+        # positions on a pixel edge belong to that pixel despite of rounding errors (0.3 / 0.1 < 3)
+        return int(np.around(x / self.spacing, 6))
 
     @property
     def shape(self):
-- 
2.43.0


From 4a0ea5d0d6e0eeb313375806f8fd6f23e9bd8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 51/68] fix: propagate without explicit couplers with JAX
 (unexpected arguments)

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 9e61a29..d326d15 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -335,7 +335,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From 1861c33c07fd4e82d6704f677363fb0d8b48dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 52/68] fix: give programmed vector units the output phases of
 all their rails (n_rails larger than the vector)

---
 simphox/circuit/matrix.py | 2 +-
 simphox/circuit/vector.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 2335941..d70d678 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -47,7 +47,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # Update the phases.
         thetas = np.hstack((thetas, network.thetas))
         phis = np.hstack((phis, network.phis))
-        gammas = np.hstack((network.gammas[-1], gammas))
+        gammas = np.hstack((network.gammas[i], gammas))
 
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 88a99af..8c27486 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -152,9 +152,9 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         thetas[nc.node_idxs] = theta
         phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
 
-    final_basis_vec = np.zeros(v.shape[0])
-    final_basis_vec[-1] = 1
-    gammas = -np.angle(final_basis_vec * w[-1, -1])
+    # the network has output phases for all of its rails, and the light is in the last rail of the vector unit
+    gammas = np.zeros(network.n)
+    gammas[v.shape[0] - 1] = -np.angle(w[-1, -1])
 
     network.params = thetas, phis, gammas
     # print(network.params)
-- 
2.43.0


From 0756b197e79443681ed7b9eb27c29b134af66d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 53/68] fix: program vector units with the phi they were
 computed with (wrapping 2 pi to 0 flips differential nodes)

---
 simphox/circuit/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 8c27486..adfe76e 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -150,7 +150,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = phi
 
     # the network has output phases for all of its rails, and the light is in the last rail of the vector unit
     gammas = np.zeros(network.n)
-- 
2.43.0


From 2cd1432d4545344369a1920f447f8df82399ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 54/68] fix: cut regions which reach beyond the lower edges of
 the grid instead of losing them

---
 simphox/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 4e15ab8..d53ae26 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -205,9 +205,10 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+        # regions that reach beyond the lower edges are cut there (negative indices count from the upper edges)
+        return (slice(max(c[0] - s0, 0), max(c[0] - s0 + shape[0], 0)) if shape[0] > 0 else c0,
+                slice(max(c[1] - s1, 0), max(c[1] - s1 + shape[1], 0)) if shape[1] > 0 else c1,
+                slice(max(c[2] - s2, 0), max(c[2] - s2 + shape[2], 0)) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From dd4413caf9b53acd0c43e4ef406bd3bca57eae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 55/68] fix: cut boxes which reach beyond the lower edges of an
 array instead of losing them

---
 simphox/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 8a85526..eafdac0 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -110,7 +110,8 @@ class Box:
 
     @property
     def slice(self) -> Tuple[slice, slice]:
-        return slice(self.min_i[0], self.max_i[0]), slice(self.min_i[1], self.max_i[1])
+        # boxes that reach beyond the lower edges are cut there (negative indices count from the upper edges)
+        return tuple(slice(max(lo, 0), max(hi, 0)) for lo, hi in zip(self.min_i, self.max_i))
 
     @property
     def copy(self) -> "Box":
-- 
2.43.0


From b8ecad83d9690fd60d71149d389ff57c09d6b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 56/68] fix: fill all of the pixels below a height that is a
 multiple of the spacing

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index d53ae26..7042aa4 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -97,7 +97,8 @@ class Grid:
 
         """
         if height > 0:
-            self.eps[..., :int(height / self.spacing[-1])] = eps
+            # heights on a pixel edge fill up to that edge despite of rounding errors (0.3 / 0.1 < 3)
+            self.eps[..., :int(np.around(height / self.spacing[-1], 6))] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
-- 
2.43.0


From 6704063968c3e3a4fada844ff373c6fcc4b02648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 57/68] fix: use the vertical spacing for the heights of added
 components

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 7042aa4..3ef5b45 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -124,7 +124,7 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = tuple(int(np.around(z / self.spacing[2], 6)) for z in (zmin, zmin + thickness))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From a3aa6d7c8b8c7fbda1b41eadee39a91fbd28ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 58/68] fix: add components to 2D grids without heights

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 3ef5b45..5a8b308 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -126,7 +126,8 @@ class Grid:
         else:
             zidx = tuple(int(np.around(z / self.spacing[2], 6)) for z in (zmin, zmin + thickness))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
-        self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
+        z, h = (0, 0) if zmin is None or thickness is None else (zmin + thickness / 2, thickness)
+        self.port = {port_name: Port(*port.xya, port.w, z, h)
                      for port_name, port in component.port.items()}
         return self
 
-- 
2.43.0


From 02b3230b3de3b81bbe1473b5bbe3efff8d5f5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:23 +0000
Subject: [PATCH 59/68] fix: keep the shape of grids which are one pixel wide
 when they are painted or masked

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 5a8b308..72efae6 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -146,7 +146,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -164,7 +164,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From ac93f7192d780db3afe431da48ab53d7e24b14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 60/68] fix: skip empty columns of meshes instead of failing on
 them

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index d326d15..3119d48 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -179,7 +179,7 @@ class ForwardMesh:
         for node in self.nodes:
             nodes_by_column[node.column].append(node)
         return [ForwardMesh(nodes_by_column[column], phase_style=self.phase_style)
-                for column in range(self.num_columns)]
+                for column in sorted(nodes_by_column)]
 
     def matrix(self, params: Optional[np.ndarray] = None, back: bool = False):
         return self.matrix_fn(back=back)(self.params if params is None else params)
-- 
2.43.0


From 4bd416bd19024a553ad8051af55794dd009ace20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 61/68] fix: shift the number of columns and the columns by
 node with the columns of the nodes

---
 simphox/circuit/forward.py | 2 ++
 simphox/circuit/matrix.py  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3119d48..a0ab1ea 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -94,6 +94,8 @@ class ForwardMesh:
         """
         for node in self.nodes:
             node.column += offset
+        self.column_by_node = self.column_by_node + offset
+        self.num_columns += offset
         return self
 
     def invert_columns(self):
diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index d70d678..0efd282 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -52,13 +52,14 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
         # architecture.
+        unit_columns = network.num_columns
         network.offset(num_nodes).offset_column(num_columns if balanced else 2 * (n_rails - 1 - i))
 
         # Add the nodes list to the subunits
         subunits.append(network)
 
         # The number of columns and nodes in the architecture are incremented by the subunit size (log_2(i))
-        num_columns += subunits[-1].num_columns
+        num_columns += unit_columns
         num_nodes += subunits[-1].num_nodes
     gammas = np.hstack((-np.angle(w[0, 0]), gammas))
     unit = ForwardMesh.aggregate(subunits, phase_style)
-- 
2.43.0


From 1f67e3432de3505a6c17bf23d7499bd1de3740ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 62/68] fix: put the mixed theta and phi terms of the Hessian
 at their rows and columns

---
 simphox/circuit/vector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index adfe76e..05a59df 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -258,7 +258,9 @@ def hessian_vector_unit(v: np.ndarray, balanced: bool = True):
         theta_phi[..., nid][(mesh.nodes[i].top_descendants,)] = mesh.pn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].top_descendants,)] = mesh.pnsn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].bot_descendants,)] = mesh.pnsn[(mesh.nodes[i].bot_descendants,)]
-    h = np.block([[theta_theta, (theta_phi + phi_theta).T], [(theta_phi + phi_theta), phi_phi]])
+    # the rows of the mixed terms are those of the theta and the columns those of the phi phase shifters
+    theta_phi = theta_phi + phi_theta
+    h = np.block([[theta_theta, theta_phi], [theta_phi.T, phi_phi]])
     return h
 
 
@@ -309,9 +311,9 @@ def hessian_fd(v: np.ndarray, error=0.0001, balanced=False):
             theta_phi_nn = (mesh.thetas - e[i], mesh.phis - e[j], mesh.gammas)
             h[i, j] = np.real(err(theta_pp) + err(theta_nn) - err(theta_pn) - err(theta_np)) / (4 * error ** 2)
             h[i + n - 1, j + n - 1] = np.real(err(phi_pp) + err(phi_nn) - err(phi_pn) - err(phi_np)) / (4 * error ** 2)
-            h[i + n - 1, j] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
+            h[i, j + n - 1] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
                 4 * error ** 2)
-            h[j, i + n - 1] = h[i + n - 1, j]
+            h[j + n - 1, i] = h[i, j + n - 1]
     return h
 
 
-- 
2.43.0


From 723c364198849ae25fd7f6ac88f1c88d41a45e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 63/68] fix: tunable coupler nodes are couplers and can be
 evaluated

---
 simphox/circuit/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..34f6145 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
@@ -174,7 +174,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From 013bf0b074c801510095e0fac117223456dff962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:36 +0000
Subject: [PATCH 64/68] fix: cosine-sine decompositions of permutations and
 block matrices

---
 simphox/circuit/matrix.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 0efd282..5f8217c 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -9,7 +9,7 @@ from .vector import vector_unit
 from scipy.stats import unitary_group
 import numpy as np
 
-from scipy.linalg import svd, qr, block_diag
+from scipy.linalg import svd, cossin, block_diag
 from .coupling import CouplingNode
 from .forward import ForwardMesh
 
@@ -143,21 +143,12 @@ def cs(mat: np.ndarray):
     """
     n = mat.shape[0]
     m = n // 2
-    q00 = mat[:m, :m]
-    q10 = mat[m:, :m]
-    q01 = mat[:m, m:]
-    q11 = mat[m:, m:]
-    l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
+    # the decomposition is not unique for degenerate matrices (e.g. permutations), so its parts are computed together
+    (l0, l1), phases, (r0, r1) = cossin(mat, p=m, q=m, separate=True)
     if n % 2:
-        r1[-1] *= phasor
+        l1, r1 = np.roll(l1, -1, axis=1), np.roll(r1, -1, axis=0)
+    r1[:m] *= -1
+    theta = np.pi / 2 - phases
     return l0, l1, r0, r1, theta
 
 
-- 
2.43.0


From 878322fabf8dd7696b53218a88fde910ac99596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:44 +0000
Subject: [PATCH 65/68] fix: port modes use the spacing of the cross section's
 axes

---
 simphox/sim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index fee3dd0..4df4cbb 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -118,14 +118,18 @@ class SimGrid(YeeGrid):
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
-        key = (mode_eps.tobytes(), mode_eps.dtype.str, mode_eps.shape, wavelength, num_modes)
+        region = self.slice(center, size)
+        mode_eps = self.eps.reshape(self.shape3)[region]
+        # the spacing along the axes of the cross section
+        mode_spacing = self.spacing3[[isinstance(s, slice) for s in region]][np.array(mode_eps.shape, dtype=int) > 1]
+        mode_eps = mode_eps.squeeze()
+        mode_size = tuple(np.array(mode_eps.shape) * mode_spacing)
+        key = (mode_eps.tobytes(), mode_eps.dtype.str, mode_eps.shape, tuple(mode_spacing), wavelength, num_modes)
         if key not in self._mode_cache:
             if len(self._mode_cache) >= 128:  # forget the oldest entry
                 self._mode_cache.pop(next(iter(self._mode_cache)))
             self._mode_cache[key] = ModeLibrary(
-                ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+                ModeSolver(size=mode_size, spacing=mode_spacing, eps=mode_eps, wavelength=wavelength),
                 max_num_modes=num_modes
             )
         # the caller gets its own library, which may be modified (e.g. by update_wavelength)
-- 
2.43.0


From 57af99482cf4a91dd907b302e69d81d93827eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:44 +0000
Subject: [PATCH 66/68] fix: FDFD updates k0 and the PML when the wavelength is
 set

---
 simphox/fdfd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 6400c14..5e16e64 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -87,9 +87,17 @@ class FDFD(SimGrid):
         )
 
         self.wavelength = wavelength
-        self.k0 = 2 * np.pi / self.wavelength
 
-        # overwrite dxes with PML-scaled ones if specified
+    @property
+    def wavelength(self) -> float:
+        return self._wavelength
+
+    @wavelength.setter
+    def wavelength(self, wavelength: float):
+        self._wavelength = wavelength
+        self.k0 = 2 * np.pi / wavelength
+
+        # overwrite dxes with PML-scaled ones (which depend on the wavelength) if specified
         if self.pml_shape is not None:
             dxes_pml_e, dxes_pml_h = [], []
             for ax, p in enumerate(self.pos):
-- 
2.43.0


From 010b32d5519778c4af6495bf20db6747d3a617ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:44 +0000
Subject: [PATCH 67/68] fix: add_error_mean applies error_right

---
 simphox/circuit/forward.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index a0ab1ea..7a23638 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -598,6 +598,7 @@ class ForwardMesh:
         Args:
             error: Phase-parametrized error for the left (and right if not specified) splitters
             loss_db: The loss in dB.
+            error_right: Phase-parametrized error for the right splitters
 
         Returns:
             A new :code:`ForwardCouplingCircuit` with the modified error terms.
@@ -605,6 +606,9 @@ class ForwardMesh:
         """
         new_nodes = copy.deepcopy(self.nodes)
         error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
+        if error_right is not None:
+            left = error[:, 0] if error.ndim == 2 else error
+            error = np.stack((left, error_right * np.ones_like(left)), axis=-1)
         loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
         for node, e, loss in zip(new_nodes, error, loss_db):
             node.bs_error = tuple(e)
-- 
2.43.0


From 2cb0afa588fd4a43b6d651bf7c4499127c23f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:58 +0000
Subject: [PATCH 68/68] fix: FDFD.from_simgrid keeps the PML parameters and
 separation

---
 simphox/fdfd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 5e16e64..6d643e9 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -124,6 +124,8 @@ class FDFD(SimGrid):
             wavelength=wavelength,
             eps=simgrid.eps,
             pml=simgrid.pml,
+            pml_sep=simgrid.pml_sep,
+            pml_params=simgrid.pml_params,
             name=simgrid.name
         )
         fdfd.port = dict(simgrid.port)
-- 
2.43.0


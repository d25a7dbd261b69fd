From 1c7fb44beb5286aad5dc912786d0316b7f823c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 01/13] fix: raise when a parallel worker fails instead of
 returning incomplete results

---
 src/harmonica/_equivalent_sources/utils.py  |  8 +++++++
 src/harmonica/_forward/dipole.py            |  8 ++++++-
 src/harmonica/_forward/point.py             | 12 ++++++++++-
 src/harmonica/_forward/tesseroid_gravity.py |  8 ++++++-
 src/harmonica/_forward/utils.py             | 24 +++++++++++++++++++++
 5 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/utils.py b/src/harmonica/_equivalent_sources/utils.py
index dddd481..4ea7b33 100644
--- a/src/harmonica/_equivalent_sources/utils.py
+++ b/src/harmonica/_equivalent_sources/utils.py
@@ -12,6 +12,8 @@ from warnings import warn
 
 from numba import jit, prange
 
+from .._forward.utils import check_computed_points
+
 
 def cast_fit_input(coordinates, data, weights, dtype):
     """
@@ -62,6 +64,7 @@ def jacobian(coordinates, points, jac, greens_function):
     """
     east, north, upward = coordinates[:]
     point_east, point_north, point_upward = points[:]
+    n_computed = 0
     for i in prange(east.size):
         for j in range(point_east.size):
             jac[i, j] = greens_function(
@@ -72,6 +75,8 @@ def jacobian(coordinates, points, jac, greens_function):
                 point_north[j],
                 point_upward[j],
             )
+        n_computed += 1
+    check_computed_points(n_computed, east.size)
 
 
 def predict(coordinates, points, coeffs, result, greens_function):
@@ -85,6 +90,7 @@ def predict(coordinates, points, coeffs, result, greens_function):
     """
     east, north, upward = coordinates[:]
     point_east, point_north, point_upward = points[:]
+    n_computed = 0
     for i in prange(east.size):
         for j in range(point_east.size):
             result[i] += coeffs[j] * greens_function(
@@ -95,6 +101,8 @@ def predict(coordinates, points, coeffs, result, greens_function):
                 point_north[j],
                 point_upward[j],
             )
+        n_computed += 1
+    check_computed_points(n_computed, east.size)
 
 
 predict_numba_serial = jit(nopython=True)(predict)
diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 8925450..716c4d1 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -14,7 +14,7 @@ import numpy as np
 from choclo.dipole import magnetic_e, magnetic_field, magnetic_n, magnetic_u
 from numba import jit, prange
 
-from .utils import initialize_progressbar
+from .utils import check_computed_points, initialize_progressbar
 
 VALID_FIELDS = ("b", "b_e", "b_n", "b_u")
 FORWARD_FUNCTIONS = {
@@ -326,6 +326,7 @@ def _jit_dipole_magnetic_field_cartesian(
     easting_p, northing_p, upward_p = dipoles
     mag_e, mag_n, mag_u = magnetic_moments
     # Iterate over computation points and dipoles
+    n_computed = 0
     for i in prange(easting.size):
         for j in range(easting_p.size):
             easting_comp, northing_comp, upward_comp = magnetic_field(
@@ -345,6 +346,8 @@ def _jit_dipole_magnetic_field_cartesian(
         # Update progress bar if called
         if update_progressbar:
             progress_proxy.update(1)
+        n_computed += 1
+    check_computed_points(n_computed, easting.size)
 
 
 def _jit_dipole_magnetic_component_cartesian(
@@ -383,6 +386,7 @@ def _jit_dipole_magnetic_component_cartesian(
     easting_p, northing_p, upward_p = dipoles
     mag_e, mag_n, mag_u = magnetic_moments
     # Iterate over computation points and dipoles
+    n_computed = 0
     for i in prange(easting.size):
         for j in range(easting_p.size):
             result[i] += forward_func(
@@ -399,6 +403,8 @@ def _jit_dipole_magnetic_component_cartesian(
         # Update progress bar if called
         if update_progressbar:
             progress_proxy.update(1)
+        n_computed += 1
+    check_computed_points(n_computed, easting.size)
 
 
 _jit_dipole_magnetic_field_cartesian_serial = jit(nopython=True)(
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 619e11b..7de0084 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -24,7 +24,11 @@ from choclo.point import (
 )
 from numba import jit, prange
 
-from .utils import check_coordinate_system, distance_spherical_core
+from .utils import (
+    check_computed_points,
+    check_coordinate_system,
+    distance_spherical_core,
+)
 
 
 def point_gravity(
@@ -385,6 +389,7 @@ def point_mass_cartesian(
         field on the computation points. It could be one of the forward
         modelling functions in :mod:`choclo.point`.
     """
+    n_computed = 0
     for i in prange(easting.size):
         for j in range(easting_p.size):
             out[i] += forward_func(
@@ -396,6 +401,8 @@ def point_mass_cartesian(
                 upward_p[j],
                 masses[j],
             )
+        n_computed += 1
+    check_computed_points(n_computed, easting.size)
 
 
 def point_mass_spherical(
@@ -433,6 +440,7 @@ def point_mass_spherical(
     cosphi_p = np.cos(latitude_p)
     sinphi_p = np.sin(latitude_p)
     # Compute gravitational field
+    n_computed = 0
     for i in prange(longitude.size):
         for j in range(longitude_p.size):
             out[i] += masses[j] * kernel(
@@ -445,6 +453,8 @@ def point_mass_spherical(
                 sinphi_p[j],
                 radius_p[j],
             )
+        n_computed += 1
+    check_computed_points(n_computed, longitude.size)
 
 
 # Define jitted versions of the forward modelling functions
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 66acebb..435a888 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -24,7 +24,7 @@ from ._tesseroid_variable_density import (
     gauss_legendre_quadrature_variable_density,
 )
 from .point import gravity_u_spherical, potential_spherical
-from .utils import initialize_progressbar
+from .utils import check_computed_points, initialize_progressbar
 
 STACK_SIZE = 100
 MAX_DISCRETIZATIONS = 100000
@@ -302,6 +302,7 @@ def jit_tesseroid_gravity(
     cosphi = np.cos(np.radians(latitude))
     sinphi = np.sin(np.radians(latitude))
     # Loop over computation points
+    n_computed = 0
     for i in prange(longitude.size):
         # Initialize arrays to perform memory allocation only once
         stack = np.empty((STACK_SIZE, 6), dtype=dtype)
@@ -334,6 +335,8 @@ def jit_tesseroid_gravity(
         # Update progress bar
         if update_progressbar:
             progress_proxy.update(1)
+        n_computed += 1
+    check_computed_points(n_computed, longitude.size)
 
 
 def jit_tesseroid_gravity_variable_density(
@@ -405,6 +408,7 @@ def jit_tesseroid_gravity_variable_density(
     cosphi = np.cos(np.radians(latitude))
     sinphi = np.sin(np.radians(latitude))
     # Loop over computation points
+    n_computed = 0
     for i in prange(longitude.size):
         # Initialize arrays to perform memory allocation only once
         stack = np.empty((STACK_SIZE, 6), dtype=dtype)
@@ -437,6 +441,8 @@ def jit_tesseroid_gravity_variable_density(
         # Update progress bar
         if update_progressbar:
             progress_proxy.update(1)
+        n_computed += 1
+    check_computed_points(n_computed, longitude.size)
 
 
 # Define jitted versions of the forward modelling function
diff --git a/src/harmonica/_forward/utils.py b/src/harmonica/_forward/utils.py
index a9c88ad..d59839c 100644
--- a/src/harmonica/_forward/utils.py
+++ b/src/harmonica/_forward/utils.py
@@ -432,3 +432,27 @@ def get_rotation_matrix(yaw, pitch, roll):
     v = m.as_matrix()
 
     return v
+
+
+@jit(nopython=True)
+def check_computed_points(n_computed, n_points):
+    """
+    Raise an error if the computation failed on some observation points.
+
+    Numba discards exceptions raised by the iterations of a parallel loop that
+    run on a thread other than the main one, leaving the results of those
+    observation points incomplete. Count the iterations that were finished and
+    call this function after the loop so those failures don't go unnoticed.
+
+    Parameters
+    ----------
+    n_computed : int
+        Number of observation points that were successfully computed.
+    n_points : int
+        Total number of observation points.
+    """
+    if n_computed != n_points:
+        raise RuntimeError(
+            "The computation failed on at least one observation point. "
+            "Run it without parallelization to get the original error."
+        )
-- 
2.43.0


From c2d2049522855b931a3b34fa2b4980619f3b9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 02/13] fix: predict IGRF14 on single-element arrays

---
 src/harmonica/_spherical_harmonics/igrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 42b1331..7787f7f 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -380,7 +380,7 @@ class IGRF14:
                 latitude, latitude_sph, (b_east, b_north_sph, b_radial)
             )
         )
-        if n_data == 1:
+        if not cast.shape:
             b_vector = tuple(float(c) for c in b_vector)
         return b_vector
 
-- 
2.43.0


From 78f953fd375642db08159a8836f4cda0aa923655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 03/13] fix: raise when a parallel IGRF worker fails instead of
 returning incomplete results

---
 src/harmonica/_forward/utils.py            | 2 +-
 src/harmonica/_spherical_harmonics/igrf.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/utils.py b/src/harmonica/_forward/utils.py
index d59839c..bf1565f 100644
--- a/src/harmonica/_forward/utils.py
+++ b/src/harmonica/_forward/utils.py
@@ -454,5 +454,5 @@ def check_computed_points(n_computed, n_points):
     if n_computed != n_points:
         raise RuntimeError(
             "The computation failed on at least one observation point. "
-            "Run it without parallelization to get the original error."
+            "Run it without parallelization (if possible) to get the original error."
         )
diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 7787f7f..3757e3e 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -18,6 +18,7 @@ import numpy as np
 import pooch
 import verde as vd
 
+from .._forward.utils import check_computed_points
 from .._utils import get_harmonica_cache
 from .._version import __version__
 from . import legendre
@@ -575,6 +576,7 @@ def spherical_harmonics_magnetic_field(
     Calculate a spherical harmonic expansion of a magnetic field.
     """
     n_data = longitude.size
+    n_computed = 0
     for i in numba.prange(n_data):
         cos_colat = np.cos(colatitude[i])
         sin_colat = np.sin(colatitude[i])
@@ -627,6 +629,8 @@ def spherical_harmonics_magnetic_field(
             b_east[i] = 0
         else:
             b_east[i] *= -1 / sin_colat
+        n_computed += 1
+    check_computed_points(n_computed, n_data)
 
 
 @numba.jit(nopython=True, parallel=True)
@@ -665,6 +669,7 @@ def spherical_harmonics_magnetic_field_grid(
             sin_mlon[j, m] = (
                 2 * cos_mlon[j, 1] * sin_mlon[j, m - 1] - sin_mlon[j, m - 2]
             )
+    n_computed = 0
     for i in numba.prange(n_colat):
         cos_colat = np.cos(colatitude[i])
         sin_colat = np.sin(colatitude[i])
@@ -702,3 +707,5 @@ def spherical_harmonics_magnetic_field_grid(
                 b_east[i, j] = 0
             else:
                 b_east[i, j] *= -1 / sin_colat
+        n_computed += 1
+    check_computed_points(n_computed, n_colat)
-- 
2.43.0


From a2cbda323f63b23ab60402b276528446bd7a93bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 04/13] fix: keep equivalent sources unchanged when a fit fails
 or memory is estimated

---
 .../_equivalent_sources/cartesian.py          | 16 ++++++++++++---
 .../_equivalent_sources/gradient_boosted.py   | 20 ++++++++++++++-----
 .../_equivalent_sources/spherical.py          | 12 ++++++++++-
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1340f7b..38987a5 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -10,6 +10,7 @@ Equivalent sources for generic harmonic functions in Cartesian coordinates.
 
 from __future__ import annotations
 
+import copy
 import warnings
 
 import bordado as bd
@@ -222,9 +223,9 @@ class EquivalentSources(vdb.BaseGridder):
         >>> int(n_bytes)
         80000
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a copy to preserve the fitted attributes
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
+        points = copy.copy(self)._build_points(coordinates)
         # Get the number of sources and data
         n_data = coordinates[0].size
         n_points = points[0].size
@@ -260,6 +261,16 @@ class EquivalentSources(vdb.BaseGridder):
         self
             Returns this estimator instance for chaining operations.
         """
+        # Fit a copy so that a failure at any point leaves this estimator as it was
+        fitted = copy.copy(self)
+        fitted._fit(coordinates, data, weights)
+        self.__dict__.update(fitted.__dict__)
+        return self
+
+    def _fit(self, coordinates, data, weights):
+        """
+        Fit the coefficients and set the fitted attributes.
+        """
         coordinates, data, weights = vdb.check_fit_input(coordinates, data, weights)
         coordinates, data, weights = cast_fit_input(
             coordinates, data, weights, self.dtype
@@ -278,7 +289,6 @@ class EquivalentSources(vdb.BaseGridder):
             )
         jacobian = self.jacobian(coordinates, self.points_)
         self.coefs_ = vdb.least_squares(jacobian, data, weights, self.damping)
-        return self
 
     def _build_points(self, coordinates):
         """
diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ab522e3..568c93d 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -10,6 +10,7 @@ Gradient-boosted equivalent sources in Cartesian coordinates.
 
 from __future__ import annotations
 
+import copy
 import warnings
 
 import bordado as bd
@@ -171,12 +172,12 @@ class EquivalentSourcesGB(EquivalentSources):
         >>> int(n_bytes)
         10952
         """
-        # Build the sources and assign the points_ attribute
+        # Build the sources on a copy to preserve the fitted attributes
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
-        self.points_ = points
+        eqs = copy.copy(self)
+        eqs.points_ = eqs._build_points(coordinates)
         # Build the windows and get the indices
-        source_windows, data_windows = self._create_windows(coordinates)
+        source_windows, data_windows = eqs._create_windows(coordinates)
         # Get the number of sources and data for each window
         source_sizes = np.array([w.size for w in source_windows])
         data_sizes = np.array([w.size for w in data_windows])
@@ -214,6 +215,16 @@ class EquivalentSourcesGB(EquivalentSources):
         self
             Returns this estimator instance for chaining operations.
         """
+        # Fit a copy so that a failure at any point leaves this estimator as it was
+        fitted = copy.copy(self)
+        fitted._fit(coordinates, data, weights)
+        self.__dict__.update(fitted.__dict__)
+        return self
+
+    def _fit(self, coordinates, data, weights):
+        """
+        Fit the coefficients and set the fitted attributes.
+        """
         coordinates, data, weights = vdb.check_fit_input(coordinates, data, weights)
         coordinates, data, weights = cast_fit_input(
             coordinates, data, weights, self.dtype
@@ -239,7 +250,6 @@ class EquivalentSourcesGB(EquivalentSources):
         self.coefs_ = np.zeros_like(self.points_[0])
         # Fit coefficients through gradient boosting
         self._gradient_boosting(coordinates, data, weights)
-        return self
 
     def _gradient_boosting(self, coordinates, data, weights):
         """
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 606311b..de4ccfb 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -8,6 +8,7 @@
 Equivalent sources for generic harmonic functions in spherical coordinates.
 """
 
+import copy
 import warnings
 
 import bordado as bd
@@ -200,6 +201,16 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         self
             Returns this estimator instance for chaining operations.
         """
+        # Fit a copy so that a failure at any point leaves this estimator as it was
+        fitted = copy.copy(self)
+        fitted._fit(coordinates, data, weights)
+        self.__dict__.update(fitted.__dict__)
+        return self
+
+    def _fit(self, coordinates, data, weights):
+        """
+        Fit the coefficients and set the fitted attributes.
+        """
         coordinates, data, weights = vdb.check_fit_input(coordinates, data, weights)
         # Capture the data region to use as a default when gridding.
         self.region_ = bd.get_region(coordinates[:2])
@@ -214,7 +225,6 @@ class EquivalentSourcesSph(vdb.BaseGridder):
             self.points_ = vdb.n_1d_arrays(self.points, 3)
         jacobian = self.jacobian(coordinates, self.points_)
         self.coefs_ = vdb.least_squares(jacobian, data, weights, self.damping)
-        return self
 
     def predict(self, coordinates):
         """
-- 
2.43.0


From 821249bbc5f319ce3f656ddc0063d46770ecaea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 05/13] fix: keep Euler methods unchanged when a fit fails

---
 src/harmonica/_euler_methods.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/harmonica/_euler_methods.py b/src/harmonica/_euler_methods.py
index 93c0d0e..2082bde 100644
--- a/src/harmonica/_euler_methods.py
+++ b/src/harmonica/_euler_methods.py
@@ -8,6 +8,7 @@
 Classes for Euler-based source location estimation.
 """
 
+import copy
 import warnings
 
 import numpy as np
@@ -162,9 +163,15 @@ class EulerDeconvolution:
         estimate = hessian_inv @ jacobian.T @ pseudo_data
         pseudo_residuals = pseudo_data - jacobian @ estimate
         chi_squared = np.sum(pseudo_residuals**2) / (n_data - n_params)
-        self.covariance_ = chi_squared * hessian_inv
-        self.location_ = estimate[:3]
-        self.base_level_ = estimate[-1]
+        covariance, location, base_level = (
+            chi_squared * hessian_inv,
+            estimate[:3],
+            estimate[-1],
+        )
+        # Set all attributes together, only after every calculation succeeded
+        self.covariance_ = covariance
+        self.location_ = location
+        self.base_level_ = base_level
         return self
 
 
@@ -367,13 +374,17 @@ class EulerInversion:
                 euler.fit(coordinates, data, weights=weights)
                 candidates.append(euler)
             best = candidates[np.argmin([e.data_misfit_ for e in candidates])]
-            self.structural_index_ = best.structural_index
-            self.location_ = best.location_
-            self.base_level_ = best.base_level_
-            self.covariance_ = best.covariance_
         else:
-            self._fit(coordinates, data, weights)
-            self.structural_index_ = self.structural_index
+            # Fit a copy so that a failure at any point leaves this one as it was
+            best = copy.copy(self)
+            best._fit(coordinates, data, weights)
+        self.__dict__.update(
+            structural_index_=best.structural_index,
+            location_=best.location_,
+            base_level_=best.base_level_,
+            covariance_=best.covariance_,
+            data_misfit_=best.data_misfit_,
+        )
         return self
 
     def _fit(self, coordinates, data, weights):
-- 
2.43.0


From 43ba071c604e18545f3eb80dc83976fbea7e99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 06/13] fix: don't modify the padding options passed to the
 grid filters

apply_filter added its default padding width, mode and constant_values to
the pad_kwargs dictionary given by the user, so a dictionary used with one
grid imposed that grid's padding width on later calls with other grids.
---
 src/harmonica/filters/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 5971e45..e48bdb0 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -71,8 +71,9 @@ def apply_filter(
     """
     if filter_kwargs is None:
         filter_kwargs = {}
-    if pad_kwargs is None:
-        pad_kwargs = {}
+    # Make a copy so that the defaults set below aren't added to the dictionary
+    # passed by the user
+    pad_kwargs = {} if pad_kwargs is None else dict(pad_kwargs)
     grid_sanity_checks(grid)
     dims = grid.dims
     # Need to remove non-dimensional coordinates before padding and FFT because
-- 
2.43.0


From 8429f9016c65550ef840e10ebf930792a42ed8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 07/13] fix: don't round layer boundaries to the data type of
 the surface

Where the surface of a layer is below the reference, the top of the bodies
is the reference, but its values were cast to the data type of the surface
array (and the surface's to that of the reference): integer surfaces
truncated floating point references and single precision surfaces rounded
them.
---
 src/harmonica/_forward/prisms/layer.py    | 6 ++----
 src/harmonica/_forward/tesseroid_layer.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 62ad43b..20d1e00 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -303,11 +303,9 @@ class DatasetAccessorPrismLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 5aefea7..f5097e7 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -311,11 +311,9 @@ class DatasetAccessorTesseroidLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
-- 
2.43.0


From 150d47102067cf0ac7eaf87bd0d4ee0fe99c7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 08/13] fix: move the top and bottom of layers in a single step

An update interrupted between the two assignments left a layer with the new
top and the old bottom.
---
 src/harmonica/_forward/prisms/layer.py    | 6 ++++--
 src/harmonica/_forward/tesseroid_layer.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 20d1e00..d1c677f 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -306,8 +306,10 @@ class DatasetAccessorPrismLayer:
         reverse = surface < reference
         top = np.where(reverse, reference, surface)
         bottom = np.where(reverse, surface, reference)
-        self._obj.coords["top"] = (self.dims, top)
-        self._obj.coords["bottom"] = (self.dims, bottom)
+        # Update both at once so that the layer is never left half updated
+        self._obj.coords.update(
+            {"top": (self.dims, top), "bottom": (self.dims, bottom)}
+        )
 
     def gravity(
         self,
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index f5097e7..3a1ffcc 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -314,8 +314,10 @@ class DatasetAccessorTesseroidLayer:
         reverse = surface < reference
         top = np.where(reverse, reference, surface)
         bottom = np.where(reverse, surface, reference)
-        self._obj.coords["top"] = (self.dims, top)
-        self._obj.coords["bottom"] = (self.dims, bottom)
+        # Update both at once so that the layer is never left half updated
+        self._obj.coords.update(
+            {"top": (self.dims, top), "bottom": (self.dims, bottom)}
+        )
 
     def gravity(
         self,
-- 
2.43.0


From c0a81694163c9e105752e4e04f66c32aedf43740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 09/13] fix: support layers with coordinates in decreasing
 order

The spacing of layers with decreasing coordinates was negative, which
exchanged the opposite sides of their bodies: prism layers silently
returned gravity with the wrong sign, tesseroid layers refused to compute
it and the boundaries of both were wrong.
---
 src/harmonica/_forward/prisms/layer.py    | 8 +++++---
 src/harmonica/_forward/tesseroid_layer.py | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index d1c677f..d858e31 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -197,7 +197,8 @@ class DatasetAccessorPrismLayer:
         easting, northing = self._obj.easting.values, self._obj.northing.values
         _check_regular_grid(easting, northing)
         s_north, s_east = northing[1] - northing[0], easting[1] - easting[0]
-        return s_north, s_east
+        # The coordinates can be in decreasing order
+        return abs(s_north), abs(s_east)
 
     @property
     def boundaries(self):
@@ -581,8 +582,9 @@ def _forward_gravity_prism_layer(
     """
     easting, northing, upward = coordinates
     n_coords = easting.size
-    half_spacing_east = (prisms_easting[1] - prisms_easting[0]) / 2
-    half_spacing_north = (prisms_northing[1] - prisms_northing[0]) / 2
+    # (use absolute values because the coordinates can be in decreasing order)
+    half_spacing_east = abs(prisms_easting[1] - prisms_easting[0]) / 2
+    half_spacing_north = abs(prisms_northing[1] - prisms_northing[0]) / 2
 
     # Check if we need to update the progressbar on each iteration
     update_progressbar = progress_proxy is not None
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 3a1ffcc..6eced3f 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -171,7 +171,7 @@ def _check_overlap(longitude):
     """
     Check if the prisms boundaries are overlapped.
     """
-    spacing = longitude[1] - longitude[0]
+    spacing = abs(longitude[1] - longitude[0])
     if longitude.max() - longitude.min() >= 360 - spacing:
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
@@ -224,7 +224,8 @@ class DatasetAccessorTesseroidLayer:
         latitude, longitude = self._obj.latitude.values, self._obj.longitude.values
         _check_regular_grid(longitude, latitude)
         s_latitude, s_longitude = latitude[1] - latitude[0], longitude[1] - longitude[0]
-        return s_latitude, s_longitude
+        # The coordinates can be in decreasing order
+        return abs(s_latitude), abs(s_longitude)
 
     @property
     def size(self):
-- 
2.43.0


From 760e173381bc2a8d5645326b9133dccf25aebf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 10/13] fix: respect the dimension order of layer variables

Layers ignored the order of the dimensions of their variables, so a
transposed density (or layer) silently gave the gravity of other bodies.
---
 src/harmonica/_forward/prisms/layer.py    | 33 +++++++++++++++++------
 src/harmonica/_forward/tesseroid_layer.py | 33 +++++++++++++++++------
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index d858e31..2d6e901 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -397,7 +397,7 @@ class DatasetAccessorPrismLayer:
         thickness_threshold = (
             0.0 if thickness_threshold is None else thickness_threshold
         )
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         if np.isnan(density).any():
             msg = (
                 "Found NaN values in 'density' property of the prisms layer. "
@@ -413,8 +413,8 @@ class DatasetAccessorPrismLayer:
                 coordinates,
                 self._obj.easting.values,
                 self._obj.northing.values,
-                self._obj.bottom.values,
-                self._obj.top.values,
+                self._get_values("bottom"),
+                self._get_values("top"),
                 density,
                 FIELDS[field],
                 result,
@@ -433,6 +433,23 @@ class DatasetAccessorPrismLayer:
             result *= 1e9  # SI to Eotvos
         return result.reshape(cast.shape)
 
+    def _get_values(self, name):
+        """
+        Get the values of a variable of the layer, whatever its dimension order
+
+        Parameters
+        ----------
+        name : str
+            Name of the property or coordinate of the layer.
+
+        Returns
+        -------
+        values : 2d-array
+            Values of the variable with dimensions in the order given by
+            ``dims``.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _to_prisms(self):
         """
         Return the boundaries of each prism of the layer.
@@ -451,8 +468,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             easting.ravel(), northing.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         prisms = np.vstack((west, east, south, north, bottom, top)).T
         return prisms
 
@@ -479,8 +496,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             center_easting, center_northing
         )
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return west, east, south, north, bottom, top
 
     def to_pyvista(self, drop_null_prisms=True):
@@ -512,7 +529,7 @@ class DatasetAccessorPrismLayer:
         properties = None
         if self._obj.data_vars:
             properties = {
-                data_var: np.asarray(self._obj[data_var]).ravel()[
+                data_var: self._get_values(data_var).ravel()[
                     np.logical_not(null_prisms)
                 ]
                 for data_var in self._obj.data_vars
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 6eced3f..debe443 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -380,7 +380,7 @@ class DatasetAccessorTesseroidLayer:
         """
         # Get boundaries and density of the tesseroids
         boundaries = self._to_tesseroids()
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         # Get the mask for selecting  only the tesseroid whose top boundary,
         # bottom boundary and density have no nans
         mask = self._get_nonans_mask(property_name=density_name)
@@ -424,12 +424,12 @@ class DatasetAccessorTesseroidLayer:
         """
         # Mask the tesseroid that contains no nans on top and bottom boundaries
         mask = np.logical_and(
-            np.logical_not(np.isnan(self._obj.top.values)),
-            np.logical_not(np.isnan(self._obj.bottom.values)),
+            np.logical_not(np.isnan(self._get_values("top"))),
+            np.logical_not(np.isnan(self._get_values("bottom"))),
         )
         # Mask the tesseroids that contains nans on the selected property
         if property_name is not None:
-            mask_property = np.logical_not(np.isnan(self._obj[property_name].values))
+            mask_property = np.logical_not(np.isnan(self._get_values(property_name)))
             # Warn if a nan is found within the masked property
             if not mask_property[mask].all():
                 warnings.warn(
@@ -441,6 +441,23 @@ class DatasetAccessorTesseroidLayer:
             mask = np.logical_and(mask, mask_property)
         return mask
 
+    def _get_values(self, name):
+        """
+        Get the values of a variable of the layer, whatever its dimension order
+
+        Parameters
+        ----------
+        name : str
+            Name of the property or coordinate of the layer.
+
+        Returns
+        -------
+        values : 2d-array
+            Values of the variable with dimensions in the order given by
+            ``dims``.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _to_tesseroids(self):
         """
         Return the boundaries of each tesseroid of the layer.
@@ -464,8 +481,8 @@ class DatasetAccessorTesseroidLayer:
         ) = self._get_tesseroid_horizontal_boundaries(
             longitude.ravel(), latitude.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         tesseroids = np.vstack(
             (longitude_w, longitude_e, latitude_s, latitude_n, bottom, top)
         ).T
@@ -516,8 +533,8 @@ class DatasetAccessorTesseroidLayer:
             latitude_s,
             latitude_n,
         ) = self._get_tesseroid_horizontal_boundaries(center_longitude, center_latitude)
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return longitude_w, longitude_e, latitude_s, latitude_n, bottom, top
 
 
-- 
2.43.0


From 0e1e9d0dca989a9c7aad60949238be48e06a2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 11/13] fix: reject ICGEM grids whose rows are not in place

A lost and a repeated row, swapped rows or a damaged coordinate kept the
number of rows, so values were assigned to the wrong nodes silently.
---
 src/harmonica/_io/icgem_gdf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/harmonica/_io/icgem_gdf.py b/src/harmonica/_io/icgem_gdf.py
index 4425d33..284165b 100644
--- a/src/harmonica/_io/icgem_gdf.py
+++ b/src/harmonica/_io/icgem_gdf.py
@@ -49,6 +49,18 @@ def load_icgem_gdf(fname, **kwargs):
         "longitude": data["longitude"].reshape(shape)[0, :],
         "latitude": data["latitude"].reshape(shape)[:, 0][::-1],
     }
+    # Check that every row is in its place: the coordinate columns must repeat the
+    # same longitudes in every parallel and the same latitude along each of them
+    if not (
+        np.allclose(data["longitude"].reshape(shape), coords["longitude"], rtol=0)
+        and np.allclose(
+            data["latitude"].reshape(shape)[::-1],
+            coords["latitude"][:, np.newaxis],
+            rtol=0,
+        )
+    ):
+        msg = "Coordinate columns in the gdf file don't form a regular grid."
+        raise OSError(msg)
     dims = ["latitude", "longitude"]
     data_vars = {
         name: (dims, value.reshape(shape)[::-1])
-- 
2.43.0


From 820547a225bb9fb6fea03119809c7e4e82ebea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 12/13] fix: recalculate IGRF coefficients when the date or
 degree change

The coefficients of the first evaluation were kept for ever, so changing the
date of a model silently gave the field at the old date, and raising its
maximum degree read past the end of the arrays.
---
 src/harmonica/_spherical_harmonics/igrf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 3757e3e..0952f4b 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -297,11 +297,16 @@ class IGRF14:
 
     @property
     def coefficients(self):
-        if self._coefficients is None:
-            self._coefficients = interpolate_coefficients(
-                self.date, self.max_degree, *load_igrf(self._fetch_coefficient_file())
+        # Interpolate again if the date or the degree changed since the last time
+        key = (self.date, self.max_degree)
+        cached = self._coefficients
+        if cached is None or cached[0] != key:
+            coefficients = interpolate_coefficients(
+                *key, *load_igrf(self._fetch_coefficient_file())
             )
-        return self._coefficients
+            cached = (key, coefficients)
+            self._coefficients = cached
+        return cached[1]
 
     def _fetch_coefficient_file(self):
         """
-- 
2.43.0


From 794c745d8059fc91518c4877033f964edeaaab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 13/13] fix: keep the points on the borders of the region in
 gradient-boosted windows

Round-off in the windows' centers left points lying exactly on the borders
of the region (like the first and last rows of a grid) out of every window:
their data were ignored and their sources kept zero coefficients.
---
 src/harmonica/_equivalent_sources/gradient_boosted.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index 568c93d..7e8aa18 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -358,9 +358,13 @@ class EquivalentSourcesGB(EquivalentSources):
         # one for the sources and one for the data points.
         # We pass the same region, size and spacing to be sure that both set of
         # windows are the same.
+        # Grow the region and the windows by tiny amounts so that round-off errors
+        # don't leave the points on the borders of the region (like the first and
+        # last rows of a grid) out of every window.
+        pad = 10 * np.finfo(self.dtype).eps * np.max(np.abs(region))
         kwargs = {
-            "region": region,
-            "window_size": self.window_size_,
+            "region": bd.pad_region(region, 1.5 * pad),
+            "window_size": self.window_size_ + 2 * pad,
             "overlap": self.overlapping,
         }
         _, source_windows = bd.rolling_window(self.points_[:2], **kwargs)
-- 
2.43.0


From 93128e5e02d68eea7d22e07b86f98d4510a76cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 001/126] fix: compare NaN attributes as equal and survive
 attribute type changes

---
 improver/utilities/compare.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 91a2368..0075322 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -314,14 +314,19 @@ def compare_attributes(
                 f"{type(actual_attr)} {type(desired_attr)}"
             )
             reporter(msg)
+            continue
         if isinstance(desired_attr, np.ndarray):
-            if not np.array_equal(actual_attr, desired_attr):
+            if not np.array_equal(actual_attr, desired_attr, equal_nan=True):
                 msg = (
                     f"different attribute value {name}/{key} - "
                     f"{actual_attr} {desired_attr}"
                 )
                 reporter(msg)
-        elif actual_attr != desired_attr:
+        elif actual_attr != desired_attr and not (
+            # NaN (eg. as a fill value) is never equal to itself
+            actual_attr != actual_attr
+            and desired_attr != desired_attr
+        ):
             msg = (
                 f"different attribute value {name}/{key} - "
                 f"{actual_attr} {desired_attr}"
-- 
2.43.0


From 01b2f0bdba801cfe2f66339cdc41e3d44eec2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 002/126] fix: report variables on different dimensions and
 mixed text/number data when comparing files

---
 improver/utilities/compare.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 0075322..636eb6f 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -257,6 +257,12 @@ def compare_vars(
         var_path = f"{name}/{var}"
         actual_var = actual_ds.variables[var]
         desired_var = desired_ds.variables[var]
+        if actual_var.dimensions != desired_var.dimensions:
+            msg = (
+                f"different dimensions {var_path} - "
+                f"{actual_var.dimensions} {desired_var.dimensions}"
+            )
+            reporter(msg)
         compare_attributes(
             var_path, actual_var, desired_var, ignored_attributes, reporter,
         )
@@ -362,12 +368,16 @@ def compare_data(
     if actual_var.dtype != desired_var.dtype:
         msg = f"different type {name} - {actual_var.dtype} {desired_var.dtype}"
         reporter(msg)
-    actual_data = actual_var[:]
-    desired_data = desired_var[:]
+    # scalar string variables are returned as plain strings
+    actual_data = np.asarray(actual_var[:])
+    desired_data = np.asarray(desired_var[:])
     difference_found = False
     numpy_err_message = ""
+    exact_kinds = ["b", "O", "S", "U", "V"]
     try:
-        if actual_data.dtype.kind in ["b", "O", "S", "U", "V"]:
+        if actual_data.dtype.kind in exact_kinds or (
+            desired_data.dtype.kind in exact_kinds
+        ):
             # numpy boolean, object, bytestring, unicode and void types don't
             # have numerical "closeness" so use exact equality for these
             np.testing.assert_equal(actual_data, desired_data, verbose=True)
-- 
2.43.0


From ad87c5c0db62a189c52fed75988589911f26303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 003/126] fix: keep complex_to_deg results below 360 degrees

---
 improver/utilities/complex_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/complex_conversion.py b/improver/utilities/complex_conversion.py
index b44ee60..ed5cd40 100644
--- a/improver/utilities/complex_conversion.py
+++ b/improver/utilities/complex_conversion.py
@@ -61,6 +61,8 @@ def complex_to_deg(complex_in: ndarray) -> ndarray:
 
     # Convert angles so they are in the range [0, 360)
     angle = np.mod(np.float32(angle), 360)
+    # Tiny negative angles are rounded up to 360 by the modulo operation.
+    angle = np.where(angle == 360, 0, angle)
 
     # We don't need 64 bit precision.
     angle = angle.astype(np.float32)
-- 
2.43.0


From 2d6fba90a462973615ebb9df6302a2959df16c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 004/126] fix: forget earlier wind directions when
 WindDirection is used again

---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From 323723c6869f7f87024a20451a958c4d3092be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 005/126] fix: restore stdout when a redirected block raises

---
 improver/utilities/redirect_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/redirect_stdout.py b/improver/utilities/redirect_stdout.py
index 32ef1f8..c2170c3 100644
--- a/improver/utilities/redirect_stdout.py
+++ b/improver/utilities/redirect_stdout.py
@@ -19,5 +19,7 @@ def redirect_stdout(target=None):
     """
     original = sys.stdout
     sys.stdout = target
-    yield
-    sys.stdout = original
+    try:
+        yield
+    finally:
+        sys.stdout = original
-- 
2.43.0


From eba38aa1d6e872643a9e16cd0c39b851f47f91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 006/126] fix: make objects passed between commands hashable

---
 improver/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cli/__init__.py b/improver/cli/__init__.py
index 22fbccf..4dd2fe7 100644
--- a/improver/cli/__init__.py
+++ b/improver/cli/__init__.py
@@ -97,7 +97,7 @@ class ObjectAsStr(str):
 
     def __hash__(self):
         # make sure our hash doesn't clash with normal string hash
-        return super().__hash__(self) ^ hash(type(self))
+        return super().__hash__() ^ hash(type(self))
 
     @staticmethod
     def obj_to_name(obj, cls=None):
-- 
2.43.0


From 62dbcc85958b77bad6d70a643b0e582741e64da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 007/126] fix: expose one and the same PostProcessingPlugin
 class through the API

---
 improver/api/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/api/__init__.py b/improver/api/__init__.py
index 366f4db..98f8d31 100644
--- a/improver/api/__init__.py
+++ b/improver/api/__init__.py
@@ -90,7 +90,7 @@ PROCESSING_MODULES = {
     "OrographicSmoothingCoefficients": "improver.generate_ancillaries.generate_orographic_smoothing_coefficients",
     "PercentileConverter": "improver.percentile",
     "PhaseChangeLevel": "improver.psychrometric_calculations.psychrometric_calculations",
-    "PostProcessingPlugin": "improver.__init__",
+    "PostProcessingPlugin": "improver",
     "PrecipPhaseProbability": "improver.psychrometric_calculations.precip_phase_probability",
     "PystepsExtrapolate": "improver.nowcasting.pysteps_advection",
     "RebadgePercentilesAsRealizations": "improver.ensemble_copula_coupling.ensemble_copula_coupling",
-- 
2.43.0


From 6dac53b437907257e06ff70d2746ced82f5d5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 008/126] fix: pair each probability with its threshold when
 thresholds are not in ascending order

---
 improver/threshold.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..633b00e 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -191,6 +191,11 @@ class Threshold(PostProcessingPlugin):
             )
             self._check_fuzzy_bounds()
 
+        # The thresholded cubes are merged in ascending order of threshold.
+        order = np.argsort(self.thresholds, kind="stable")
+        self.thresholds = [self.thresholds[i] for i in order]
+        self.fuzzy_bounds = [self.fuzzy_bounds[i] for i in order]
+
         self.original_units = None
         self.comparison_operator_dict = comparison_operator_dict()
         self.comparison_operator_string = comparison_operator
-- 
2.43.0


From 5878d8ab00bd12e2f594d6844666bd4faf1e8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 009/126] fix: let a percentile-collapsing Threshold be used
 more than once

---
 improver/threshold.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 633b00e..6c3dc18 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -563,9 +563,10 @@ class Threshold(PostProcessingPlugin):
         if self.fill_masked is not None:
             input_cube.data = np.ma.filled(input_cube.data, self.fill_masked)
 
-        if self.collapse_coord == "percentile":
+        collapse_coord = self.collapse_coord
+        if collapse_coord == "percentile":
             input_cube = RebadgePercentilesAsRealizations()(input_cube)
-            self.collapse_coord = "realization"
+            collapse_coord = "realization"
 
         self.original_units = input_cube.units
         self.threshold_coord_name = input_cube.name()
@@ -580,10 +581,10 @@ class Threshold(PostProcessingPlugin):
 
         # Slice over realizations if required and create an empty threshold
         # cube to store the resulting thresholded data.
-        if self.collapse_coord is not None:
-            input_slices = input_cube.slices_over(self.collapse_coord)
+        if collapse_coord is not None:
+            input_slices = input_cube.slices_over(collapse_coord)
             thresholded_cube = self._create_threshold_cube(
-                next(input_cube.slices_over(self.collapse_coord))
+                next(input_cube.slices_over(collapse_coord))
             )
         else:
             input_slices = [input_cube]
@@ -656,10 +657,10 @@ class Threshold(PostProcessingPlugin):
         # Squeeze any single value dimension coordinates to make them scalar.
         thresholded_cube = iris.util.squeeze(thresholded_cube)
 
-        if self.collapse_coord is not None and thresholded_cube.coords(
-            self.collapse_coord
+        if collapse_coord is not None and thresholded_cube.coords(
+            collapse_coord
         ):
-            thresholded_cube.remove_coord(self.collapse_coord)
+            thresholded_cube.remove_coord(collapse_coord)
 
         # Re-cast to 32bit now that any unit conversion has already taken place.
         thresholded_cube.coord(var_name="threshold").points = thresholded_cube.coord(
-- 
2.43.0


From b2e33376da0e0735bb6110da81443aa624a64c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 010/126] fix: keep masked and other-surface points out of
 integer vicinity maxima

---
 improver/utilities/spatial.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 5655e8e..011300d 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -742,9 +742,14 @@ def maximum_within_vicinity(
         they're equally likely to have occurred anywhere within the
         vicinity defined using the specified radius.
     """
-    # Value, the negative of which is used to fill masked points, ensuring
-    # that when we take a maximum the masked points do not contribute.
-    fill_value = netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf)
+    # Value used to fill masked points, ensuring that when we take a maximum
+    # the masked points do not contribute.
+    if grid.dtype.kind == "b":
+        fill_value = False
+    elif grid.dtype.kind in "iu":
+        fill_value = np.iinfo(grid.dtype).min
+    else:
+        fill_value = -netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf)
 
     # Convert the grid_point_radius into a number of points along an edge
     # length, including the central point, e.g. grid_point_radius = 1,
@@ -753,14 +758,14 @@ def maximum_within_vicinity(
     processed_grid = grid.copy()
     if np.ma.is_masked(grid):
         unmasked_grid = grid.data.copy()
-        unmasked_grid[grid.mask] = -fill_value
+        unmasked_grid[grid.mask] = fill_value
     else:
         unmasked_grid = grid.copy()
     if landmask is not None:
         max_data = np.empty_like(grid)
         for match in (True, False):
             matched_data = unmasked_grid.copy()
-            matched_data[landmask != match] = -fill_value
+            matched_data[landmask != match] = fill_value
             matched_max_data = maximum_filter(matched_data, size=grid_points)
             max_data = np.where(landmask == match, matched_max_data, max_data)
     else:
-- 
2.43.0


From ec78b45cac99e9e0f89dc64cb9d5e1f75af1fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 011/126] fix: pair vicinity probabilities with their radius
 when radii are not in ascending order

---
 improver/threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/threshold.py b/improver/threshold.py
index 6c3dc18..f1a8b32 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -211,7 +211,7 @@ class Threshold(PostProcessingPlugin):
         self.vicinity = None
         if vicinity:
             if isinstance(vicinity, Iterable):
-                self.vicinity = [float(x) for x in vicinity]
+                self.vicinity = sorted(float(x) for x in vicinity)
             else:
                 self.vicinity = [float(vicinity)]
 
-- 
2.43.0


From 8d0b2fef9d66f67a929874fa089f350a98ee99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 012/126] fix: keep masked points out of vicinity processing of
 fuzzy thresholds

---
 improver/threshold.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/threshold.py b/improver/threshold.py
index f1a8b32..050e66c 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -417,6 +417,10 @@ class Threshold(PostProcessingPlugin):
             # the exceedance probability
             if "less_than" in self.comparison_operator.spp_string:
                 truth_value = 1.0 - truth_value
+            # np.where discards the mask, which is needed to exclude masked
+            # points from vicinity processing
+            if np.ma.is_masked(cube.data):
+                truth_value = np.ma.masked_array(truth_value, mask=cube.data.mask)
 
         return truth_value.astype(FLOAT_DTYPE)
 
-- 
2.43.0


From c39e9672d3225cf14a89a82a1d57042d9777d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 013/126] fix: do not count ones beyond the domain edge in
 square neighbourhoods

---
 improver/nbhood/nbhood.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index d69a799..9dd62ad 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -344,7 +344,6 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         ystart = xstart = 0
         ystop, xstop = data.shape
         size = data.size
-        extreme = 0
         fill_value = 0
         half_nb_size = self.nb_size // 2
         # For the two extreme values, 0 and 1, find the size and position of the smallest array
@@ -371,9 +370,8 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
                 _xstop = min(data_shape[1], _xstop + half_nb_size)
             _size = (_ystop - _ystart) * (_xstop - _xstart)
             if _size < size:
-                size, extreme, fill_value, ystart, ystop, xstart, xstop = (
+                size, fill_value, ystart, ystop, xstart, xstop = (
                     _size,
-                    _extreme,
                     _fill_value,
                     _ystart,
                     _ystop,
@@ -390,14 +388,26 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         if size:
             # The subset of data is non-zero in size, so calculate the neighbourhood sums in the
             # subset.
-            data = data[ystart:ystop, xstart:xstop]
-
             # Calculate neighbourhood totals for input data.
             if self.neighbourhood_method == "square":
+                # Include the points of the domain that surround the subset. There
+                # is nothing to sum beyond the edges of the domain.
+                ypad = min(ystart, half_nb_size)
+                xpad = min(xstart, half_nb_size)
                 data = boxsum(
-                    data, self.nb_size, mode="constant", constant_values=extreme
+                    data[
+                        ystart - ypad : ystop + half_nb_size,
+                        xstart - xpad : xstop + half_nb_size,
+                    ],
+                    self.nb_size,
+                    mode="constant",
+                    constant_values=0,
                 )
+                data = data[
+                    ypad : ypad + ystop - ystart, xpad : xpad + xstop - xstart
+                ]
             elif self.neighbourhood_method == "circular":
+                data = data[ystart:ystop, xstart:xstop]
                 data = correlate(data, self.kernel, mode="nearest")
         else:
             data = untrimmed
-- 
2.43.0


From bb7913241706d29d0c13047186f21c83d62f770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 014/126] fix: only reuse a masked neighbourhood result for the
 same mask and radius

---
 improver/nbhood/use_nbhood.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index f1c4c33..fbf4821 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -228,13 +228,23 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         # Take 2D slices of the input cube for memory issues.
         prev_x_y_slice = None
         for x_y_slice in cube.slices([yname, xname]):
-            if prev_x_y_slice is not None and np.array_equal(
-                prev_x_y_slice.data, x_y_slice.data
+            # Radii that vary with lead time may differ between slices.
+            if (
+                prev_x_y_slice is not None
+                and not self.lead_times
+                and np.array_equal(
+                    ma.getmaskarray(prev_x_y_slice.data),
+                    ma.getmaskarray(x_y_slice.data),
+                )
+                and np.array_equal(prev_x_y_slice.data, x_y_slice.data)
             ):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
                 for coord in x_y_slice.coords(dim_coords=False):
-                    prev_result.coord(coord).points = coord.points.copy()
+                    prev_coord = prev_result.coord(coord)
+                    prev_coord.points = coord.points.copy()
+                    if coord.has_bounds():
+                        prev_coord.bounds = coord.bounds.copy()
                 result_slices.append(prev_result)
                 continue
             prev_x_y_slice = x_y_slice
-- 
2.43.0


From 7be3e15d8e8253756f140a83b541b39537dbd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 015/126] fix: compute neighbourhood percentiles in the order
 they are reported

---
 improver/nbhood/nbhood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index 9dd62ad..1609b6c 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -506,7 +506,8 @@ class GeneratePercentilesFromANeighbourhood(BaseNeighbourhoodProcessing):
                 DEFAULT_PERCENTILES.
         """
         super().__init__(radii, lead_times=lead_times)
-        self.percentiles = tuple(percentiles)
+        # Percentile cubes are merged in ascending order.
+        self.percentiles = tuple(sorted(percentiles))
 
     def pad_and_unpad_cube(self, slice_2d: Cube, kernel: ndarray) -> Cube:
         """
-- 
2.43.0


From 7641afd248443144f97f1d9fa8e693c252eb1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 016/126] fix: leave the caller's smoothing coefficients
 unchanged when filtering masked data

---
 improver/nbhood/recursive_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index a9c391f..2982327 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -370,8 +370,9 @@ class RecursiveFilter(PostProcessingPlugin):
                     )
 
             mask_cube = cube_format.copy(data=cube_format.data.mask)
+            # Coefficients are zeroed in place, so work on copies.
             coeffs_x, coeffs_y = self._update_coefficients_from_mask(
-                coeffs_x, coeffs_y, mask_cube,
+                coeffs_x.copy(), coeffs_y.copy(), mask_cube,
             )
 
         padded_coefficients_x, padded_coefficients_y = self._pad_coefficients(
-- 
2.43.0


From 80bfa3ccf5e0bcb4b908e5e50b0a5e3d12045773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 017/126] fix: keep masked values out of the recursive filter's
 halo

---
 improver/nbhood/recursive_filter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index 2982327..72fe439 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -378,6 +378,17 @@ class RecursiveFilter(PostProcessingPlugin):
         padded_coefficients_x, padded_coefficients_y = self._pad_coefficients(
             coeffs_x, coeffs_y
         )
+        if mask_cube is not None:
+            # The halo repeats the masked points, which must not be mixed there either.
+            padded_mask = pad_cube_with_halo(
+                mask_cube,
+                2 * self.edge_width,
+                2 * self.edge_width,
+                pad_method="symmetric",
+            )
+            self._update_coefficients_from_mask(
+                padded_coefficients_x, padded_coefficients_y, padded_mask
+            )
 
         recursed_cube = iris.cube.CubeList()
         for output in cube.slices([cube.coord(axis="y"), cube.coord(axis="x")]):
-- 
2.43.0


From e9924bdc57c388700f73a73da3b5b9931b8f35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 018/126] fix: rebadge a copy of the percentile cube as
 realizations

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..8c869ee 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -175,8 +175,6 @@ class RebadgePercentilesAsRealizations(BasePlugin):
                 len(cube.coord(percentile_coord_name).points), dtype=np.int32
             )
 
-        cube.coord(percentile_coord_name).points = ensemble_realization_numbers
-
         # we can't rebadge if the realization coordinate already exists:
         try:
             realization_coord = cube.coord("realization")
@@ -189,6 +187,8 @@ class RebadgePercentilesAsRealizations(BasePlugin):
                 "coordinate because a realization coordinate already exists."
             )
 
+        cube = cube.copy()
+        cube.coord(percentile_coord_name).points = ensemble_realization_numbers
         cube.coord(percentile_coord_name).rename("realization")
         cube.coord("realization").units = "1"
         cube.coord("realization").points = cube.coord("realization").points.astype(
-- 
2.43.0


From 671c6bf44b97eb6a8bec7fa41686cfce8cf2e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 019/126] fix: keep the caller's mask when flattening a cube

---
 improver/calibration/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 8463c80..4cc019f 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -44,7 +44,7 @@ def convert_cube_data_to_2d(
     """
     forecast_data = []
     if np.ma.is_masked(forecast.data):
-        forecast.data = np.ma.filled(forecast.data, np.nan)
+        forecast = forecast.copy(data=np.ma.filled(forecast.data, np.nan))
 
     for coord_slice in forecast.slices_over(coord):
         forecast_data.append(coord_slice.data.flatten())
-- 
2.43.0


From 3c9e83dd2887f193d16252af227f199b81067cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 020/126] fix: find the mask of percentile and threshold slices
 whatever the dimension order

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 8c869ee..efa5495 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -338,7 +338,9 @@ class ResamplePercentiles(BasePlugin):
 
         original_mask = None
         if np.ma.is_masked(forecast_at_percentiles.data):
-            original_mask = forecast_at_percentiles.data.mask[0]
+            original_mask = np.ma.getmaskarray(
+                next(forecast_at_percentiles.slices_over(percentile_coord_name)).data
+            )
 
         # Ensure that the percentile dimension is first, so that the
         # conversion to a 2d array produces data in the desired order.
@@ -620,7 +622,9 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
 
         original_mask = None
         if np.ma.is_masked(forecast_probabilities.data):
-            original_mask = forecast_probabilities.data.mask[0]
+            original_mask = np.ma.getmaskarray(
+                next(forecast_probabilities.slices_over(threshold_name)).data
+            )
 
         # Ensure that the percentile dimension is first, so that the
         # conversion to a 2d array produces data in the desired order.
-- 
2.43.0


From 258041e55bdd5130d72d61f76dc02b94b0b36d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 021/126] fix: keep values with their percentiles when
 percentiles are not requested in order

---
 improver/ensemble_copula_coupling/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/utilities.py b/improver/ensemble_copula_coupling/utilities.py
index fbf2287..b704a4a 100644
--- a/improver/ensemble_copula_coupling/utilities.py
+++ b/improver/ensemble_copula_coupling/utilities.py
@@ -153,8 +153,10 @@ def create_cube_with_percentiles(
         cubes.append(cube)
     result = cubes.merge_cube()
 
-    # replace data and units
+    # replace data and units; merging has put the percentiles in ascending order
     result.data = cube_data
+    if len(percentiles) > 1:
+        result.data = cube_data[np.argsort(percentiles)]
     if cube_unit is not None:
         result.units = cube_unit
 
-- 
2.43.0


From de08e0809f103a4ed9f3fb0e4015baa5c3294c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 022/126] fix: mask a single requested percentile

---
 .../ensemble_copula_coupling.py                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index efa5495..32711d2 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -705,10 +705,12 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
             if relation == "above":
                 mask_probability = 1 - mask_probability
 
-            for index, perc in enumerate(percentiles_as_fractions):
-                forecast_at_percentiles[index] = np.ma.masked_where(
-                    mask_probability <= perc, forecast_at_percentiles[index]
-                )
+            perc = percentiles_as_fractions
+            if len(perc) > 1:
+                perc = perc.reshape((-1,) + (1,) * mask_probability.ndim)
+            forecast_at_percentiles = np.ma.masked_where(
+                mask_probability <= perc, forecast_at_percentiles
+            )
 
         template_cube = next(forecast_probabilities.slices_over(threshold_name))
         template_cube.rename(
-- 
2.43.0


From 0699d34ff745ce9ca97966b7f36af453fc4f386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 023/126] fix: do not repeat the ends of a distribution that
 already has them

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 32711d2..5dbfdb9 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -306,7 +306,11 @@ class ResamplePercentiles(BasePlugin):
                 "The input percentiles were {}".format(percentiles)
             )
             raise ValueError(msg)
-        return percentiles, forecast
+        # Forecast values at the 0th and 100th percentiles are already the ends
+        # of the distribution.
+        first = 1 if percentiles[1] == percentiles[0] else None
+        last = -1 if percentiles[-2] == percentiles[-1] else None
+        return percentiles[first:last], forecast[:, first:last]
 
     def _interpolate_percentiles(
         self,
-- 
2.43.0


From 86c7a1700c7a990c7b8a86052328a3049eaaaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 024/126] fix: widen the range of the distribution when some
 values are masked

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 5dbfdb9..147b543 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -291,10 +291,10 @@ class ResamplePercentiles(BasePlugin):
                     "as new bounds."
                 )
                 warnings.warn(warn_msg)
-                if upper_bound < forecast.max():
-                    upper_bound = forecast.max()
-                if lower_bound > forecast.min():
-                    lower_bound = forecast.min()
+                if upper_bound < np.nanmax(forecast):
+                    upper_bound = np.nanmax(forecast)
+                if lower_bound > np.nanmin(forecast):
+                    lower_bound = np.nanmin(forecast)
                 forecast = concatenate_2d_array_with_2d_array_endpoints(
                     forecast_at_percentiles, lower_bound, upper_bound
                 )
-- 
2.43.0


From 621fa56c820aa732eef4719622a8a81507bc644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 025/126] fix: reorder ensembles with several times

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 147b543..0c1480d 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1410,14 +1410,14 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From a93a32b248c96fe6212145eae6d68bccd3c97f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 026/126] fix: reorder a single post-processed member

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 0c1480d..4dfdb68 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1544,6 +1544,10 @@ class EnsembleReordering(BasePlugin):
             post_processed_forecast
         ).name()
 
+        if not post_processed_forecast.coords(percentile_coord_name, dim_coords=True):
+            post_processed_forecast = iris.util.new_axis(
+                post_processed_forecast, percentile_coord_name
+            )
         enforce_coordinate_ordering(post_processed_forecast, percentile_coord_name)
         enforce_coordinate_ordering(raw_forecast, "realization")
 
@@ -1552,6 +1556,8 @@ class EnsembleReordering(BasePlugin):
         raw_forecast = self._recycle_raw_ensemble_realizations(
             post_processed_forecast, raw_forecast, percentile_coord_name
         )
+        if not raw_forecast.coords("realization", dim_coords=True):
+            raw_forecast = iris.util.new_axis(raw_forecast, "realization")
         post_processed_forecast_realizations = self.rank_ecc(
             post_processed_forecast,
             raw_forecast,
-- 
2.43.0


From c7116c67223d40d311836907333d6634a95dda4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 027/126] fix: give one percentile of a fitted distribution

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 4dfdb68..2bb5616 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1023,7 +1023,9 @@ class ConvertLocationAndScaleParametersToPercentiles(
 
         # Reshape forecast_at_percentiles, so the percentiles dimension is
         # first, and any other dimension coordinates follow.
-        result = result.reshape((len(percentiles),) + location_parameter.data.shape)
+        result = restore_non_percentile_dimensions(
+            result, location_parameter, len(percentiles)
+        )
 
         for prob_coord_name in ["realization", "percentile"]:
             if template_cube.coords(prob_coord_name, dim_coords=True):
@@ -1043,7 +1045,7 @@ class ConvertLocationAndScaleParametersToPercentiles(
         )
         # Make the mask defined above fit the data size and then apply to the
         # percentile cube.
-        mask_array = np.stack([mask] * len(percentiles))
+        mask_array = np.broadcast_to(mask, percentile_cube.shape)
         percentile_cube.data = np.ma.masked_where(mask_array, percentile_cube.data)
         # Remove cell methods associated with finding the ensemble mean
         percentile_cube.cell_methods = {}
-- 
2.43.0


From f2c41c812baa4fbad0dc90f38c92f82dd5f07d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 028/126] fix: keep the shape parameters of a truncated normal
 distribution

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 2bb5616..f3aa3b0 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -993,11 +993,13 @@ class ConvertLocationAndScaleParametersToPercentiles(
             (len(percentiles_as_fractions), location_data.shape[0]), dtype=np.float32
         )
 
+        original_shape_parameters = self.shape_parameters
         self._rescale_shape_parameters(location_data, scale_data)
 
         percentile_method = self.distribution(
             *self.shape_parameters, loc=location_data, scale=scale_data
         )
+        self.shape_parameters = original_shape_parameters
 
         # Loop over percentiles, and use the distribution as the
         # "percentile_method" with the location and scale parameter to
@@ -1229,6 +1231,7 @@ class ConvertLocationAndScaleParametersToProbabilities(
         thresholds = find_threshold_coordinate(probability_cube_template).points
         relative_to_threshold = probability_is_above_or_below(probability_cube_template)
 
+        original_shape_parameters = self.shape_parameters
         self._rescale_shape_parameters(
             location_parameter.data.flatten(), scale_parameter.data.flatten()
         )
@@ -1243,6 +1246,7 @@ class ConvertLocationAndScaleParametersToProbabilities(
             loc=location_parameter.data.flatten(),
             scale=scale_parameter.data.flatten(),
         )
+        self.shape_parameters = original_shape_parameters
 
         probability_method = distribution.cdf
         if relative_to_threshold == "above":
-- 
2.43.0


From e70b23739c3e6c3764a38886e0df5276e22e24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 029/126] fix: leave the caller's location and scale parameters
 unchanged

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f3aa3b0..f1d0106 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1289,6 +1289,8 @@ class ConvertLocationAndScaleParametersToProbabilities(
             A cube of diagnostic data expressed as probabilities relative
             to the thresholds found in the probability_cube_template.
         """
+        location_parameter = location_parameter.copy()
+        scale_parameter = scale_parameter.copy()
         self._check_template_cube(probability_cube_template)
         self._check_unit_compatibility(
             location_parameter, scale_parameter, probability_cube_template
-- 
2.43.0


From cad3aaf8701dc3e98e99ad1a541ae98a956f1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 030/126] fix: convert a scale parameter between units as a
 difference

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f1d0106..a314fe3 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1185,7 +1185,12 @@ class ConvertLocationAndScaleParametersToProbabilities(
 
         try:
             location_parameter.convert_units(threshold_units)
-            scale_parameter.convert_units(threshold_units)
+            # The scale is a difference, so an offset between units does not apply.
+            zero, one = scale_parameter.units.convert(
+                np.array([0.0, 1.0], dtype=np.float64), threshold_units
+            )
+            scale_parameter.data = scale_parameter.data * np.float32(one - zero)
+            scale_parameter.units = threshold_units
         except ValueError as err:
             msg = (
                 "Error: {} This is likely because the location parameter, "
-- 
2.43.0


From 0283cef452edfa327c7b8a12380e7631a1f8c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 031/126] fix: remove zero weighted cycles from a blend

---
 improver/blending/calculate_weights_and_blend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..e690e26 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,13 +192,15 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
 
         constraint = iris.Constraint(
-            coord_values={self.blend_coord: lambda x: x not in slice_out_vals}
+            coord_values={
+                self.blend_coord: lambda cell: cell.point not in slice_out_vals
+            }
         )
         cube = cube.extract(constraint)
         weights = weights.extract(constraint)
-- 
2.43.0


From 53bc148c8c7e0c1295b1f858568a6b690995e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 032/126] fix: extrapolate dictionary weights from the sorted
 end points

---
 improver/blending/weights.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/blending/weights.py b/improver/blending/weights.py
index 042de87..2290180 100644
--- a/improver/blending/weights.py
+++ b/improver/blending/weights.py
@@ -266,7 +266,14 @@ class ChooseWeightsLinear(BasePlugin):
             )
 
         target_points = cube.coord(self.weighting_coord_name).points
-        source_weights = self.config_dict[config_point][self.weights_key_name]
+        source_weights = np.array(
+            self.config_dict[config_point][self.weights_key_name]
+        )
+
+        # the end points used for extrapolation are those of the sorted points
+        order = np.argsort(source_points)
+        source_points = source_points[order]
+        source_weights = source_weights[order]
 
         fill_value = (source_weights[0], source_weights[-1])
         return source_points, target_points, source_weights, fill_value
-- 
2.43.0


From b8b29dbacb00f2b72bd395db739945853d08017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 033/126] fix: check the mask of every slice used for spatial
 weights

---
 improver/blending/spatial_weights.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/improver/blending/spatial_weights.py b/improver/blending/spatial_weights.py
index 4aaafff..24e7e3e 100644
--- a/improver/blending/spatial_weights.py
+++ b/improver/blending/spatial_weights.py
@@ -100,16 +100,15 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
         # Check mask does not vary over additional dimensions
         slices = cube_to_collapse.slices(coords_to_slice_over)
         first_slice = next(slices)
-        if np.ma.is_masked(first_slice.data):
-            first_mask = first_slice.data.mask
-            for cube_slice in slices:
-                if not np.all(cube_slice.data.mask == first_mask):
-                    message = (
-                        "The mask on the input cube can only vary along the "
-                        "blend_coord, differences in the mask were found "
-                        "along another dimension"
-                    )
-                    raise ValueError(message)
+        first_mask = np.ma.getmaskarray(first_slice.data)
+        for cube_slice in slices:
+            if not np.all(np.ma.getmaskarray(cube_slice.data) == first_mask):
+                message = (
+                    "The mask on the input cube can only vary along the "
+                    "blend_coord, differences in the mask were found "
+                    "along another dimension"
+                )
+                raise ValueError(message)
         # Remove non-spatial non-blend dimensions, returning a 3D template cube without
         # additional scalar coordinates (eg realization)
         for coord in original_dim_coords:
-- 
2.43.0


From bdeb3eb73d8bfe3b60c33801f016346ba7b884ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 034/126] fix: keep the order of the second dimension in a
 weighted mean

---
 improver/blending/weighted_blend.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d3c8c06..71cbbca 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -654,7 +654,15 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
             for c_slice, w_slice in zip(cube_slices, weights_slices)
         )
 
-        result = result_slices.merge_cube() if allow_slicing else result_slices[0]
+        if allow_slicing:
+            result = result_slices.merge_cube()
+            # merging sorts the sliced coordinate into ascending order
+            slice_coord = cube.coord(dimensions=slice_dim, dim_coords=True)
+            if slice_coord.points[0] > slice_coord.points[-1]:
+                (merged_dim,) = result.coord_dims(slice_coord.name())
+                result = iris.util.reverse(result, merged_dim)
+        else:
+            result = result_slices[0]
 
         # If units are degrees, convert complex numbers back to degrees.
         if cube.units == "degrees":
-- 
2.43.0


From 3f08424deca2ee91639d26911ffc881c9c462ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 035/126] fix: keep dimensions of length one when blending

---
 improver/blending/weighted_blend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index 71cbbca..a4b4454 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -732,6 +732,11 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
             enforce_coordinate_ordering(cube, [self.blend_coord])
             result = self.weighted_mean(cube, weights)
 
+        # Reinstate any dimension of length one lost on blending slices
+        for dim in output_dims:
+            if not result.coord_dims(dim):
+                result = iris.util.new_axis(result, dim)
+
         # Reorder resulting dimensions to match input
         enforce_coordinate_ordering(result, output_dims)
 
-- 
2.43.0


From bc8d7d3b660935969ac714234f4a772a39dc3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 036/126] fix: linear blending weights may end on zero

---
 improver/blending/weights.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/improver/blending/weights.py b/improver/blending/weights.py
index 2290180..6f57824 100644
--- a/improver/blending/weights.py
+++ b/improver/blending/weights.py
@@ -546,14 +546,9 @@ class ChooseDefaultWeightsLinear(BasePlugin):
             weights = np.array([1.0], dtype=np.float32)
             return weights
 
-        slope = (self.ynval - self.y0val) / (num_of_weights - 1.0)
-
-        weights_list = []
-        for tval in range(0, num_of_weights):
-            weights_list.append(slope * tval + self.y0val)
-
+        # linspace ends exactly on ynval, which may be zero
         weights = WeightsUtilities.normalise_weights(
-            np.array(weights_list, dtype=np.float32)
+            np.linspace(self.y0val, self.ynval, num_of_weights, dtype=np.float32)
         )
 
         return weights
-- 
2.43.0


From 183011238a715c9ab6c4b6163e0b789434def646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 037/126] fix: keep reliability of points whose truth is masked
 at some times

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..5de8410 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -407,7 +407,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if np.ma.is_masked(truth.data) or np.ma.is_masked(threshold_reliability):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
-- 
2.43.0


From e7cffe3157dd71144df997327cd8a3520fbb02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 038/126] fix: order of reliability tables does not decide
 whether they overlap

---
 improver/calibration/reliability_calibration.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 5de8410..c6e3b5a 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -553,11 +553,10 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Raises:
             ValueError: If the bounds overlap.
         """
-        lower_bounds = []
-        upper_bounds = []
-        for cube in cubes:
-            lower_bounds.append(cube.coord("forecast_reference_time").bounds[0][0])
-            upper_bounds.append(cube.coord("forecast_reference_time").bounds[0][1])
+        bounds = sorted(
+            tuple(cube.coord("forecast_reference_time").bounds[0]) for cube in cubes
+        )
+        lower_bounds, upper_bounds = zip(*bounds)
         if not all(x < y for x, y in zip(upper_bounds, lower_bounds[1:])):
             raise ValueError(
                 "Reliability calibration tables have overlapping "
-- 
2.43.0


From 0b8426bee5df86fdaa35df5724bea4d0d8057fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 039/126] fix: leave the caller's list of coordinates alone
 when aggregating tables

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index c6e3b5a..f827ba0 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -587,7 +587,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From df4757b31345439525c71a998ab1d6bbb3fae8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 040/126] fix: calibrated probabilities of single points stay
 float32

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index f827ba0..e77af41 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1283,7 +1283,7 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
         if mask is not None:
             interpolated = np.ma.masked_array(interpolated, mask=mask)
 
-        return np.clip(interpolated, 0, 1)
+        return np.clip(interpolated, np.float32(0), np.float32(1))
 
     def _apply_calibration(
         self, forecast: Cube, reliability_table: Union[Cube, CubeList],
-- 
2.43.0


From 8a04d88963ab9a0996143894784603b98a27feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 041/126] fix: calibrate probabilities of a single threshold

---
 improver/calibration/reliability_calibration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index e77af41..7300bdb 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -1153,7 +1153,6 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             UserWarning: If the probabilities must be sorted to reinstate
                          expected monotonicity following calibration.
         """
-        (threshold_dim,) = cube.coord_dims(self.threshold_coord)
         thresholding = probability_is_above_or_below(cube)
         if thresholding is None:
             msg = (
@@ -1162,6 +1161,12 @@ class ApplyReliabilityCalibration(PostProcessingPlugin):
             )
             raise ValueError(msg)
 
+        threshold_dims = cube.coord_dims(self.threshold_coord)
+        if not threshold_dims:
+            # A single threshold cannot be out of order.
+            return
+        (threshold_dim,) = threshold_dims
+
         if (
             thresholding == "above"
             and not (np.diff(cube.data, axis=threshold_dim) <= 0).all()
-- 
2.43.0


From 86f36176c91d32b75dc6acbdbb4875e9ed25f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 042/126] fix: leave the bias cube alone when filling its mask

---
 improver/calibration/simple_bias_correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..760f3dd 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -84,7 +84,7 @@ def apply_additive_correction(
         An array containing the corrected forecast values.
     """
     if fill_masked_bias_values and isinstance(bias.data, ma.masked_array):
-        bias.data = ma.MaskedArray.filled(bias.data, 0.0)
+        bias = bias.copy(data=ma.MaskedArray.filled(bias.data, 0.0))
     corrected_forecast = forecast - bias
     return corrected_forecast.data
 
-- 
2.43.0


From 2e87d4d06ea2813829a629374290d1767ff600ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 043/126] fix: match sites by identifier when estimating the dz
 rescaling

---
 improver/calibration/dz_rescaling.py | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/improver/calibration/dz_rescaling.py b/improver/calibration/dz_rescaling.py
index d006dfa..732b82f 100644
--- a/improver/calibration/dz_rescaling.py
+++ b/improver/calibration/dz_rescaling.py
@@ -5,7 +5,7 @@
 """Estimate and apply a rescaling of the input forecast based on the difference
 in altitude between the grid point and the site."""
 
-from typing import Union
+from typing import List, Union
 
 import iris
 import numpy as np
@@ -79,6 +79,26 @@ class EstimateDzRescaling(PostProcessingPlugin):
         )
         self.site_id_coord = site_id_coord
 
+    def _extract_sites(self, cube: Cube, sites: List[str]) -> Cube:
+        """Extract the requested sites, ordered by their ID, so that cubes in
+        which the sites are stored in a different order can be compared.
+
+        Args:
+            cube: Cube with a site ID coordinate.
+            sites: The IDs of the sites to extract.
+
+        Returns:
+            Cube containing the requested sites in the order of their IDs.
+        """
+        constr = iris.Constraint(coord_values={self.site_id_coord: sites})
+        cube = cube.extract(constr)
+        site_dims = cube.coord_dims(self.site_id_coord)
+        if not site_dims:
+            return cube
+        index = [slice(None)] * cube.ndim
+        index[site_dims[0]] = np.argsort(cube.coord(self.site_id_coord).points)
+        return cube[tuple(index)]
+
     def _fit_polynomial(self, forecasts: Cube, truths: Cube, dz: Cube) -> float:
         """Create a polynomial fit between the log of the ratio of forecasts and truths,
         and the difference in altitude between the grid point and the site.
@@ -268,10 +288,9 @@ class EstimateDzRescaling(PostProcessingPlugin):
             & set(dz_cube.coord(self.site_id_coord).points)
         )
 
-        constr = iris.Constraint(coord_values={self.site_id_coord: sites})
-        training_forecasts = forecasts.extract(constr)
-        training_truths = truths.extract(constr)
-        dz_training_cube = dz_cube.extract(constr)
+        training_forecasts = self._extract_sites(forecasts, sites)
+        training_truths = self._extract_sites(truths, sites)
+        dz_training_cube = self._extract_sites(dz_cube, sites)
 
         forecast_cube, truth_cube = filter_non_matching_cubes(
             training_forecasts, training_truths
-- 
2.43.0


From 0e6af828cbfcd70d989003b997f6ca010227cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 044/126] fix: keep the mask of static predictors when
 broadcasting over time

---
 improver/calibration/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 4cc019f..cc055d1 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -403,7 +403,14 @@ def broadcast_data_to_time_coord(cubelist: CubeList) -> List[ndarray]:
         data = cube.data
         if not cube.coords("time") and num_times:
             # Broadcast data from cube along a time dimension.
-            data = np.broadcast_to(data, (num_times[0],) + data.shape)
+            shape = (num_times[0],) + data.shape
+            if np.ma.isMaskedArray(data):
+                data = np.ma.masked_array(
+                    np.broadcast_to(data.data, shape),
+                    mask=np.broadcast_to(np.ma.getmaskarray(data), shape),
+                )
+            else:
+                data = np.broadcast_to(data, shape)
 
         broadcasted_data.append(data)
     return broadcasted_data
-- 
2.43.0


From 39ac2df5f644d564d157af3589c532d3c6c26ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 045/126] fix: check data sufficiency whatever the position of
 the realizations

---
 improver/calibration/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index cc055d1..5be7545 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -448,6 +448,9 @@ def check_data_sufficiency(
     if not historic_forecasts.coords("wmo_id"):
         return
 
+    # Realizations lead so that the truths broadcast against the forecasts.
+    historic_forecasts = historic_forecasts.copy()
+    enforce_coordinate_ordering(historic_forecasts, "realization")
     truths_data = np.broadcast_to(truths.data, historic_forecasts.shape)
     index = np.isnan(historic_forecasts.data) & np.isnan(truths_data)
 
-- 
2.43.0


From d3ee42d9b65ba33706d627a748b9abfe1517debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 046/126] fix: leave the static predictors of the caller alone

---
 improver/calibration/ensemble_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 200137e..b7c4198 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1344,7 +1344,8 @@ class EstimateCoefficientsForEnsembleCalibration(BasePlugin):
             forecast_predictors = iris.cube.CubeList([historic_forecasts])
 
         if additional_fields:
-            forecast_predictors.extend(additional_fields)
+            # Copied as the predictors are masked and promoted in place.
+            forecast_predictors.extend(cube.copy() for cube in additional_fields)
 
         forecast_var = collapsed(
             historic_forecasts, "realization", iris.analysis.VARIANCE
-- 
2.43.0


From 31494d059e82fde9bd4662943a7b074d52b97262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 047/126] fix: treat masked values as missing when minimising
 EMOS coefficients

---
 improver/calibration/ensemble_calibration.py | 12 ++++++++----
 improver/calibration/utilities.py            |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index b7c4198..f2acd4f 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -385,7 +385,7 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             )
 
         if len(forecast_predictors) > 1:
-            forecast_predictor_data = np.ma.vstack(flattened_forecast_predictors)
+            forecast_predictor_data = np.vstack(flattened_forecast_predictors)
         else:
             (forecast_predictor_data,) = flattened_forecast_predictors
         return forecast_predictor_data
@@ -448,7 +448,11 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             forecast_predictors_slice = forecast_predictors.extract(constr)
             forecast_predictor_data = self._prepare_forecasts(forecast_predictors_slice)
 
-            if all(np.isnan(truth_slice.data)):
+            # Masked values are missing data.
+            truth_data = np.ma.filled(truth_slice.data, np.nan)
+            forecast_var_data = np.ma.filled(fv_slice.data, np.nan)
+
+            if all(np.isnan(truth_data)):
                 optimised_coeffs.append(
                     np.array(initial_guess[index], dtype=np.float32)
                 )
@@ -458,8 +462,8 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
                         minimisation_function,
                         initial_guess[index],
                         forecast_predictor_data.T,
-                        truth_slice.data,
-                        fv_slice.data,
+                        truth_data,
+                        forecast_var_data,
                         sqrt_pi,
                     ).x.astype(np.float32)
                 )
diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 5be7545..ae78304 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -100,7 +100,7 @@ def flatten_ignoring_masked_data(
                     raise ValueError(msg)
         # If the mask is ok, select the unmasked data, flattening it at
         # the same time.
-        result = data_array[~data_array.mask]
+        result = data_array.data[~data_array.mask]
     else:
         result = data_array.flatten()
     if preserve_leading_dimension:
-- 
2.43.0


From 40aea3c08ef5582acfb6a9d5713bb96a3184f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 048/126] fix: calculate lapse rates whatever the order of the
 dimensions

---
 improver/lapse_rate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 7c562a6..2c9fabd 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -438,9 +438,11 @@ class LapseRate(BasePlugin):
 
         # Create list of arrays over "realization" coordinate
         has_realization_dimension = False
-        original_dimension_order = None
+        original_dimension_order = get_dim_coord_names(temperature_cube)
+        enforce_coordinate_ordering(
+            temperature_cube, [y_coord, x_coord], anchor_start=False
+        )
         if temperature_cube.coords("realization", dim_coords=True):
-            original_dimension_order = get_dim_coord_names(temperature_cube)
             enforce_coordinate_ordering(temperature_cube, "realization")
             temp_data_slices = temperature_cube.data
             has_realization_dimension = True
@@ -469,7 +471,6 @@ class LapseRate(BasePlugin):
             data=lapse_rate_data,
         )
 
-        if original_dimension_order:
-            enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
+        enforce_coordinate_ordering(lapse_rate_cube, original_dimension_order)
 
         return lapse_rate_cube
-- 
2.43.0


From 881a0c9e2b93a9a648772abd4849547bd89f7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 049/126] fix: find neighbours with a node limit of one

---
 improver/spotdata/neighbour_finding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index 1f345a9..83fc028 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -540,7 +540,7 @@ class NeighbourSelection(BasePlugin):
                 distances, node_indices = tree.query(
                     [site_coords],
                     distance_upper_bound=self.search_radius,
-                    k=self.node_limit,
+                    k=list(range(1, self.node_limit + 1)),
                 )
                 # Loop over the sites and for each choose the returned
                 # neighbour with the minimum vertical displacement.
-- 
2.43.0


From df3f821b64f80df0b9fdbe4db250917af6eb7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 050/126] fix: use the nearest points when the grid has no land

---
 improver/spotdata/neighbour_finding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/spotdata/neighbour_finding.py b/improver/spotdata/neighbour_finding.py
index 83fc028..720f0f9 100644
--- a/improver/spotdata/neighbour_finding.py
+++ b/improver/spotdata/neighbour_finding.py
@@ -510,7 +510,8 @@ class NeighbourSelection(BasePlugin):
 
         # If further constraints are being applied, build a KD Tree which
         # includes points filtered by constraint.
-        if self.land_constraint or self.minimum_dz:
+        # On a grid without any land the nearest points are used as they are.
+        if land_mask.data.any() if self.land_constraint else self.minimum_dz:
             # Build the KDTree, an internal test for the land_constraint checks
             # whether to exclude sea points from the tree.
             tree, index_nodes = self.build_KDTree(land_mask)
-- 
2.43.0


From 955128c0538efc5efc1ec3eab84b300ddb43af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 051/126] fix: extract sites from cubes with a leading
 dimension of length one

---
 improver/spotdata/spot_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index 6cf91b7..933844f 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -143,7 +143,7 @@ class SpotExtraction(BasePlugin):
                 nonscalar_coords.append(
                     coord.copy(points=coord_points, bounds=coord_bounds)
                 )
-            elif coord.points.size == 1:
+            elif not diagnostic_cube.coord_dims(coord):
                 scalar_coords.append(coord)
         return scalar_coords, nonscalar_coords
 
-- 
2.43.0


From 304ca8c036aba5a35aa64037b7b56020497b156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 052/126] fix: accept a single percentile in spot manipulation

---
 improver/spotdata/spot_manipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/spotdata/spot_manipulation.py b/improver/spotdata/spot_manipulation.py
index 859e555..65d4f9b 100644
--- a/improver/spotdata/spot_manipulation.py
+++ b/improver/spotdata/spot_manipulation.py
@@ -131,6 +131,8 @@ class SpotManipulation(BasePlugin):
         )
         self.apply_lapse_rate_correction = apply_lapse_rate_correction
         self.fixed_lapse_rate = fixed_lapse_rate
+        if isinstance(extract_percentiles, (int, float)):
+            extract_percentiles = [extract_percentiles]
         self.extract_percentiles = extract_percentiles
         self.ignore_ecc_bounds_exceedance = ignore_ecc_bounds_exceedance
         self.skip_ecc_bounds = skip_ecc_bounds
-- 
2.43.0


From 0d8f4014e241c3df3c773b7ee571bfad3ff924ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 053/126] fix: adjust the probabilities of each site by its own
 thresholds

---
 improver/spotdata/height_adjustment.py | 54 ++++++--------------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index 9335f00..fe14a8e 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -5,14 +5,11 @@
 
 """Applies height adjustment for height above ground level spot forecasts."""
 
-from itertools import product
-
 import iris
 import numpy as np
 from iris.coords import DimCoord
 from iris.cube import Cube
 from iris.exceptions import CoordinateNotFoundError
-from scipy.interpolate import LinearNDInterpolator
 
 from improver import BasePlugin
 from improver.metadata.probabilistic import find_threshold_coordinate, is_probability
@@ -75,48 +72,19 @@ class SpotHeightAdjustment(BasePlugin):
         enforce_coordinate_ordering(
             spot_cube, ["spot_index", self.threshold_coord.name()]
         )
-        n_sites = len(spot_cube.coord("spot_index").points)
-        n_thresholds = len(self.threshold_coord.points)
-
         thresholds = self.threshold_coord.points
-        spot_index = spot_cube.coord("spot_index").points
-        shape = spot_cube.shape
 
-        # Maximum probability over all thresholds for each site.
-        broadcast_max = np.transpose(
-            np.broadcast_to(np.amax(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-        # Minimum probability over all thresholds for each site.
-        broadcast_min = np.transpose(
-            np.broadcast_to(np.amin(spot_cube.data, axis=1), (n_thresholds, n_sites))
-        )
-
-        broadcast_thresholds = np.broadcast_to(thresholds, (n_sites, n_thresholds))
-        broadcast_vertical_displacement = np.transpose(
-            np.broadcast_to(vertical_displacement.data, (n_thresholds, n_sites),)
-        )
-        desired_thresholds = broadcast_thresholds + broadcast_vertical_displacement.data
-
-        # creates a list of pairs of values of spot index with the thresholds that need to
-        # be calculated for the spot index
-        coord = list(product(spot_index, thresholds))
-        needed_pair = []
-        for index, threshold in zip(spot_index, desired_thresholds):
-            needed_pair.extend(list(product([index], threshold)))
-
-        # interpolate across the cube and request needed thresholds
-        interp = LinearNDInterpolator(coord, spot_cube.data.flatten())
-        spot_data = np.reshape(interp(needed_pair), shape)
-
-        # Points outside the range of the original data return NAN. These points are replaced
-        # with the highest or lowest along the axis depending on the whether the vertical
-        # displacement was positive or negative
-        indices = np.where(np.isnan(spot_data))
-        spot_data[indices] = np.where(
-            broadcast_vertical_displacement[indices] > 0,
-            broadcast_max[indices],
-            broadcast_min[indices],
-        )
+        # Interpolate the probabilities of each site to the thresholds relative to the
+        # site altitude. Thresholds outside the original range take the probability of
+        # the highest or lowest original threshold.
+        order = np.argsort(thresholds)
+        spot_data = np.empty(spot_cube.shape, dtype=np.float32)
+        for index, displacement in enumerate(vertical_displacement.data):
+            spot_data[index] = np.interp(
+                thresholds + displacement,
+                thresholds[order],
+                spot_cube.data[index][order],
+            )
         spot_cube.data = spot_data
         return spot_cube
 
-- 
2.43.0


From 6adfca34f7d01de8dd910f8ca0e075ec3fb98b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 054/126] fix: extract two-dimensional coordinates stored with
 x before y

---
 improver/spotdata/spot_extraction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/spotdata/spot_extraction.py b/improver/spotdata/spot_extraction.py
index 933844f..8710cde 100644
--- a/improver/spotdata/spot_extraction.py
+++ b/improver/spotdata/spot_extraction.py
@@ -169,9 +169,13 @@ class SpotExtraction(BasePlugin):
         """
         coord_data = []
         coord = diagnostic_cube.coord(coordinate)
-        coord_data.append(coord.points[..., y_indices, x_indices])
+        # The dimensions of the coordinate need not be in the order of the cube.
+        order = np.argsort(diagnostic_cube.coord_dims(coord)).tolist()
+        points = coord.points.transpose(order)
+        coord_data.append(points[..., y_indices, x_indices])
         if coord.has_bounds():
-            coord_data.append(coord.bounds[..., y_indices, x_indices, :])
+            bounds = coord.bounds.transpose(order + [coord.ndim])
+            coord_data.append(bounds[..., y_indices, x_indices, :])
         else:
             coord_data.append(None)
         return coord_data
-- 
2.43.0


From 2bd2607975f0b45c5f38e1c53d64b2a4ad9a88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 055/126] fix: keep radar masks when subtracting orographic
 enhancement

---
 improver/nowcasting/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/nowcasting/utilities.py b/improver/nowcasting/utilities.py
index 0a3234e..c18f9cb 100644
--- a/improver/nowcasting/utilities.py
+++ b/improver/nowcasting/utilities.py
@@ -332,8 +332,8 @@ class ApplyOrographicEnhancement(BasePlugin):
                 )
 
                 # Set any values lower than the threshold to be equal to
-                # the minimum precipitation rate.
-                cube.data[mask] = threshold_in_cube_units
+                # the minimum precipitation rate, leaving masked points masked.
+                cube.data[np.ma.filled(mask, False)] = threshold_in_cube_units
         return cube
 
     def process(
-- 
2.43.0


From 5a69f22668b9619c3073ecc0200ec380499c7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 056/126] fix: give the forecast period of pysteps nowcasts its
 units

---
 improver/nowcasting/pysteps_advection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/pysteps_advection.py b/improver/nowcasting/pysteps_advection.py
index 6680a8a..4bde92a 100644
--- a/improver/nowcasting/pysteps_advection.py
+++ b/improver/nowcasting/pysteps_advection.py
@@ -117,7 +117,9 @@ class PystepsExtrapolate(BasePlugin):
             self.analysis_cube.add_aux_coord(frt_coord)
         if "forecast_period" not in coords:
             self.analysis_cube.add_aux_coord(
-                AuxCoord(np.array([0], dtype=np.int32), "forecast_period", "seconds")
+                AuxCoord(
+                    np.array([0], dtype=np.int32), "forecast_period", units="seconds"
+                )
             )
 
         self.analysis_cube.attributes = generate_mandatory_attributes(
-- 
2.43.0


From 428068351bf2c8e45292498c6a10bad0bf60cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 057/126] fix: apply accumulation settings afresh to each set
 of rates

---
 improver/nowcasting/accumulation.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 4e59842..64010c0 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -309,18 +309,24 @@ class Accumulation(BasePlugin):
             the accumulation periods are determined by plugin argument
             accumulation_period.
         """
-        cubes, time_interval = self._check_inputs(cubes)
+        # The checks fill in these settings from the cubes; keep what was
+        # requested so that it applies afresh to each set of cubes.
+        requested = self.accumulation_period, self.forecast_periods
+        try:
+            cubes, time_interval = self._check_inputs(cubes)
 
-        accumulation_cubes = iris.cube.CubeList()
+            accumulation_cubes = iris.cube.CubeList()
 
-        for forecast_period in self.forecast_periods:
-            cube_subset = self._get_cube_subsets(cubes, forecast_period)
-            accumulation = self._calculate_accumulation(cube_subset, time_interval)
-            accumulation_cube = self._set_metadata(cube_subset)
+            for forecast_period in self.forecast_periods:
+                cube_subset = self._get_cube_subsets(cubes, forecast_period)
+                accumulation = self._calculate_accumulation(cube_subset, time_interval)
+                accumulation_cube = self._set_metadata(cube_subset)
 
-            # Calculate new data and insert into cube.
-            accumulation_cube.data = accumulation
-            accumulation_cube.convert_units(self.accumulation_units)
-            accumulation_cubes.append(accumulation_cube)
+                # Calculate new data and insert into cube.
+                accumulation_cube.data = accumulation
+                accumulation_cube.convert_units(self.accumulation_units)
+                accumulation_cubes.append(accumulation_cube)
+        finally:
+            self.accumulation_period, self.forecast_periods = requested
 
         return accumulation_cubes
-- 
2.43.0


From f7718d6031542b6866c610c133560d34f8d7f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 058/126] fix: keep cell methods and long-name dimensions when
 regridding

---
 improver/regrid/grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/regrid/grid.py b/improver/regrid/grid.py
index 0157aca..6a99916 100644
--- a/improver/regrid/grid.py
+++ b/improver/regrid/grid.py
@@ -79,7 +79,7 @@ def get_cube_coord_names(cube: Cube) -> List[str]:
     Returns:
         List of coordinate names.
     """
-    return [coord.standard_name for coord in cube.dim_coords]
+    return [coord.name() for coord in cube.dim_coords]
 
 
 def latlon_names(cube: Cube) -> Tuple[str, str]:
@@ -352,7 +352,12 @@ def create_regrid_cube(cube_array: ndarray, cube_in: Cube, cube_out: Cube) -> Cu
         Regridded result cube
     """
     # generate a cube based on new data and cube_in
-    cube_v = Cube(cube_array, units=cube_in.units, attributes=cube_in.attributes)
+    cube_v = Cube(
+        cube_array,
+        units=cube_in.units,
+        attributes=cube_in.attributes,
+        cell_methods=cube_in.cell_methods,
+    )
     cube_v.rename(cube_in.standard_name or cube_in.long_name)
     cube_v.var_name = cube_in.var_name
 
-- 
2.43.0


From e72f181f210249b883a3bf49f5ee65059d571355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 059/126] fix: choose the last source cell at the edge of the
 domain in regridding

---
 improver/regrid/bilinear.py | 99 +++----------------------------------
 1 file changed, 6 insertions(+), 93 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 6b13018..3d7099b 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -89,6 +89,12 @@ def basic_indexes(
     n_lat = n_lat.astype(int)
     m_lon = m_lon.astype(int)
 
+    # Target points on the source grid's maximum latitude and/or longitude belong
+    # to the last row/column of source grid cells
+    in_lats_size = in_latlons.shape[0] // in_lons_size
+    n_lat = np.clip(n_lat, 0, in_lats_size - 2)
+    m_lon = np.clip(m_lon, 0, in_lons_size - 2)
+
     # Four surrounding input points for each output point, in a rectangle shape
     index1 = n_lat * in_lons_size + m_lon
     index2 = index1 + in_lons_size
@@ -99,99 +105,6 @@ def basic_indexes(
     # note: lat (X) but ordering  (lat0, lon0)(lat0,lon1)....(lat0,lon_last),(lat1,lon0),
     indexes = np.transpose([index1, index2, index3, index4])
 
-    # if identical max latitude and/or longitude between source/target grids,index algorithm
-    # needs change at relevant boundary
-    lat_max_in, lon_max_in = in_latlons.max(axis=0)
-    lat_max_out, lon_max_out = out_latlons.max(axis=0)
-
-    lat_max_equal = np.isclose(lat_max_in, lat_max_out)
-    lon_max_equal = np.isclose(lon_max_in, lon_max_out)
-
-    if lat_max_equal or lon_max_equal:
-        indexes = adjust_boundary_indexes(
-            in_lons_size,
-            lat_max_equal,
-            lon_max_equal,
-            lat_max_in,
-            lon_max_in,
-            out_latlons,
-            indexes,
-        )
-
-    return indexes
-
-
-def adjust_boundary_indexes(
-    in_lons_size: int,
-    lat_max_equal: bool,
-    lon_max_equal: bool,
-    lat_max_in: float,
-    lon_max_in: float,
-    out_latlons: ndarray,
-    indexes: ndarray,
-) -> ndarray:
-    """
-    Adjust surrounding source point indexes for boundary target points.
-    it is required when maximum latitude and logitude are identical between
-    source and target grids.
-
-    Args:
-        in_lons_size:
-            Source grid's longitude dimension.
-        lat_max_equal:
-            Whether maximum latitude is identical between source/targin grids.
-        lon_max_equal:
-            Whether maximum longitude is identical between source/targin grids.
-        lat_max_in:
-            Input grid's maximum latitude.
-        lon_max_in:
-            Input grid's maximum longtitude.
-        out_latlons:
-            Target points's latitude-longitudes.
-        indexes:
-            Updated array of source grid point number for all target grid points.
-
-    Returns:
-        Updated array of source grid point number for all target grid points.
-        Array shape is (total number of target points, 4).
-    """
-    # find a list of target points with its latitude
-    if lat_max_equal:
-        point_lat_max = np.where(np.isclose(out_latlons[:, 0], lat_max_in))[0]
-    if lon_max_equal:
-        point_lon_max = np.where(np.isclose(out_latlons[:, 1], lon_max_in))[0]
-
-    if lon_max_equal and lat_max_equal:
-        point_lat_lon_max_index = np.where(
-            np.isclose(out_latlons[point_lat_max, 1], lon_max_in)
-        )[0]
-
-        # if point_lat_lon_max_index exists, handle it.
-        if point_lat_lon_max_index:
-            point_lat_lon_max = point_lat_max[point_lat_lon_max_index[0]]
-            point_lat_max = np.delete(
-                point_lat_max, np.where(point_lat_max == point_lat_lon_max)[0]
-            )
-            point_lon_max = np.delete(
-                point_lon_max, np.where(point_lon_max == point_lat_lon_max)[0]
-            )
-            indexes[point_lat_lon_max, 2] = indexes[point_lat_lon_max, 0]
-            indexes[point_lat_lon_max, 1] = indexes[point_lat_lon_max, 2] - 1
-            indexes[point_lat_lon_max, 0] = indexes[point_lat_lon_max, 1] - in_lons_size
-            indexes[point_lat_lon_max, 3] = indexes[point_lat_lon_max, 0] + 1
-
-    if lat_max_equal:
-        indexes[point_lat_max, 1] = indexes[point_lat_max, 0]
-        indexes[point_lat_max, 2] = indexes[point_lat_max, 1] + 1
-        indexes[point_lat_max, 0] = indexes[point_lat_max, 1] - in_lons_size
-        indexes[point_lat_max, 3] = indexes[point_lat_max, 0] + 1
-
-    if lon_max_equal:
-        indexes[point_lon_max, 0] = indexes[point_lon_max, 0] - 1
-        indexes[point_lon_max, 1] = indexes[point_lon_max, 1] - 1
-        indexes[point_lon_max, 2] = indexes[point_lon_max, 1] + 1
-        indexes[point_lon_max, 3] = indexes[point_lon_max, 0] + 1
-
     return indexes
 
 
-- 
2.43.0


From 8d881ff095e11a9c2156a69d1bc80b90a4c72687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 060/126] fix: masked source points of no weight do not mask
 regridded values

---
 improver/regrid/bilinear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 3d7099b..6d0fe8d 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -50,6 +50,9 @@ def apply_weights(
     weighted = np.transpose(
         np.multiply(np.transpose(weights), np.transpose(in_values_expanded))
     )
+    if input_array_masked:
+        # source points that carry no weight must not mask the target point
+        weighted[weights == 0] = 0
     out_values = np.sum(weighted, axis=1)
     if input_array_masked:
         out_values = np.ma.masked_invalid(out_values)
-- 
2.43.0


From b9a71a2d17e017a8c381ea7e881a086a645649ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 061/126] fix: keep hail sizes when the freezing level is
 between 3300 and 3350 m

---
 improver/psychrometric_calculations/hail_size.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..ba7bf50 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -297,7 +297,7 @@ class HailSize(BasePlugin):
             2) vertical or horizontal values are negative,
             3) the wet bulb freezing altitude is greater that 4400m.
 
-        If the wet bulb freezing altitude is greater that 3300m then the hail_size is reduced.
+        If the wet bulb freezing altitude is at least 3350m then the hail_size is reduced.
 
         Args:
             vertical:
@@ -335,7 +335,7 @@ class HailSize(BasePlugin):
             vertical_clipped.astype(int), horizontal_clipped.astype(int)
         ]
         hail_size = np.where(
-            wet_bulb_zero >= 3300,
+            wet_bulb_zero >= self._wbzh_keys[0],
             self.updated_hail_size(hail_size, wet_bulb_zero),
             hail_size,
         )
-- 
2.43.0


From 154bd22623b8797344b83c5ae32d0c5fd297d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 062/126] fix: respect integration limits of zero

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From 78d4323f4c8cd573ce08d5d6197e1060dfe0ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 063/126] fix: phase change levels of a single realization

---
 .../psychrometric_calculations.py                           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/psychrometric_calculations/psychrometric_calculations.py b/improver/psychrometric_calculations/psychrometric_calculations.py
index 3c15416..d89294f 100644
--- a/improver/psychrometric_calculations/psychrometric_calculations.py
+++ b/improver/psychrometric_calculations/psychrometric_calculations.py
@@ -851,7 +851,11 @@ class PhaseChangeLevel(BasePlugin):
         template = next(wbt.slices_over(["height"])).copy()
         template.remove_coord("height")
         return create_new_diagnostic_cube(
-            name, "m", template, attributes, data=phase_change_level
+            name,
+            "m",
+            template,
+            attributes,
+            data=phase_change_level.reshape(template.shape),
         )
 
     def process(self, *cubes: Union[CubeList, List[Cube]]) -> Cube:
-- 
2.43.0


From d17e042ada955a6ab4c5741288ea62bd17cbcdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 064/126] fix: leave the wind directions as they were when
 resolving components

---
 improver/wind_calculations/wind_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_components.py b/improver/wind_calculations/wind_components.py
index 9c6d8bb..22d7ea4 100644
--- a/improver/wind_calculations/wind_components.py
+++ b/improver/wind_calculations/wind_components.py
@@ -138,6 +138,7 @@ class ResolveWindComponents(BasePlugin):
             - Cube containing wind vector component in the positive
               y-direction v_speed
         """
+        angle = angle.copy()
         angle.convert_units("radians")
         angle.data += adj
 
-- 
2.43.0


From b57ba7d459cf7ff991229e7447b33b697793e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 065/126] fix: keep the mask of CAPE and precipitation in the
 vertical updraught

---
 improver/wind_calculations/vertical_updraught.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/wind_calculations/vertical_updraught.py b/improver/wind_calculations/vertical_updraught.py
index b55f3e0..05283e3 100644
--- a/improver/wind_calculations/vertical_updraught.py
+++ b/improver/wind_calculations/vertical_updraught.py
@@ -117,7 +117,7 @@ class VerticalUpdraught(BasePlugin):
         Returns zero where CAPE < 10 J kg-1
         """
         updraught = 0.25 * (2 * self.cape.data) ** 0.5
-        updraught[self.cape.data < self._minimum_cape] = 0.0
+        updraught[np.ma.filled(self.cape.data < self._minimum_cape, False)] = 0.0
         return updraught.astype(np.float32)
 
     def _updraught_increment_from_precip(self) -> np.ndarray:
@@ -128,7 +128,7 @@ class VerticalUpdraught(BasePlugin):
         Where precipitation rate < 5 mm h-1, increment is zero.
         """
         increment = 7.33 * (self.precip.data / 28.7) ** 0.22
-        increment[self.precip.data < self._minimum_precip] = 0.0
+        increment[np.ma.filled(self.precip.data < self._minimum_precip, False)] = 0.0
         return increment.astype(np.float32)
 
     def _make_updraught_cube(self, data: np.ndarray) -> Cube:
-- 
2.43.0


From 4337cca596f4d78b3e74dc3c5e1f29bf17b85cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 066/126] fix: do not alter the roughness lengths given to the
 roughness correction

---
 improver/wind_calculations/wind_downscaling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..b1525fc 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -152,6 +152,7 @@ class RoughnessCorrectionUtilities:
         self.h_over_2 = self.sigma2hover2(sigma)  # half peak to trough height
         self.hcmask, self.rcmask = self._setmask()  # HC mask, RC mask
         if self.z_0 is not None:
+            self.z_0 = self.z_0.copy()
             self.z_0[z_0 <= 0] = Z0M_SEA
         self.dx_min = ppres / 2.0  # scales smaller than this not resolved in pp
         # the original code had hardcoded 500
-- 
2.43.0


From caf4ae19c13987c73a2181877e1b51936d63afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 067/126] fix: roughness correction of a single time dimension

---
 improver/wind_calculations/wind_downscaling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index b1525fc..86ae3d2 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -948,6 +948,8 @@ class RoughnessCorrection(PostProcessingPlugin):
             output_cube.transpose(np.argsort([ywp, xwp, zwp]))
         else:
             input_cube.transpose(np.argsort([ywp, xwp, zwp, twp]))
+            if not output_cube.coord_dims("time"):
+                output_cube = iris.util.new_axis(output_cube, "time")
             output_cube.transpose(np.argsort([twp, ywp, xwp, zwp]))
 
         return output_cube
-- 
2.43.0


From 5daa8afd4e9f8223e3e63e094490601ab306b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 068/126] fix: compare every time of wind gusts and wind speeds

---
 improver/wind_calculations/wind_gust_diagnostic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 4fa46df..1f8e7f3 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -163,6 +163,8 @@ class WindGustDiagnostic(PostProcessingPlugin):
         if len(wg_time) == 0 or len(ws_time) == 0:
             raise ValueError(msg)
 
+        if len(wg_time[0].points) != len(ws_time[0].points):
+            raise ValueError(msg)
         if not all(
             wg_point == ws_point
             for wg_point, ws_point in zip(wg_time[0].points, ws_time[0].points)
-- 
2.43.0


From 29ce82c359d3b44171d458b4b9949b790c8271d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:55 +0000
Subject: [PATCH 069/126] fix: leave the wind gust input as it was

---
 improver/wind_calculations/wind_gust_diagnostic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 1f8e7f3..77f261b 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -177,14 +177,12 @@ class WindGustDiagnostic(PostProcessingPlugin):
             ):
                 raise ValueError(msg)
 
-        # Add metadata to gust cube
-        req_cube_gust = self.add_metadata(req_cube_gust)
-
         # Calculate wind-gust diagnostic
         result = req_cube_gust.copy(
             data=np.maximum(req_cube_gust.data, req_cube_ws.data)
         )
 
         # Update metadata
+        result = self.add_metadata(result)
         result.remove_coord(perc_coord_gust.name())
         return result
-- 
2.43.0


From 6d05ee058fb3f7fe87615b16cb51bc8c175b3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:45 +0000
Subject: [PATCH 070/126] fix: evaluate decision tree expressions from left to
 right

---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..15a7642 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -701,10 +701,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in [["/", "*"], ["+", "-"]]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and (item in op_strs):
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -715,7 +715,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From d58788282746faf19dd37f0fa7061bd9ed5e9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:45 +0000
Subject: [PATCH 071/126] fix: decision tree nodes whose outcomes lead to the
 same place

---
 improver/categorical/decision_tree.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 15a7642..988e32b 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -841,14 +841,22 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
-                    if current.get("if_false") == next_node:
+                    if "leaf" in current.keys():
+                        continue
+                    chain = self.create_condition_chain(current)
+                    if current["if_false"] == next_node:
 
                         (
                             current["threshold_condition"],
                             current["condition_combination"],
                         ) = self.invert_condition(current)
-                    if "leaf" not in current.keys():
-                        conditions.append(self.create_condition_chain(current))
+                        inverted_chain = self.create_condition_chain(current)
+                        if current["if_true"] == next_node:
+                            # Both outcomes of this node follow the route
+                            chain = [[chain, inverted_chain], "OR"]
+                        else:
+                            chain = inverted_chain
+                    conditions.append(chain)
                 test_chain = [conditions, "AND"]
 
                 # Set grid locations to suitable category
-- 
2.43.0


From 1fbeaad69723bec8837d11c450ba158b4cfdb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:54 +0000
Subject: [PATCH 072/126] fix: reroute the decision tree only for the inputs
 with missing diagnostics

---
 improver/categorical/decision_tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 988e32b..9ccd302 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -810,8 +810,11 @@ class ApplyDecisionTree(BasePlugin):
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
 
-        # Reroute the decision tree around missing optional nodes
+        # Reroute the decision tree around missing optional nodes, only for the
+        # inputs provided here
+        queries, start_node = self.queries, self.start_node
         if optional_node_data_missing is not None:
+            self.queries = copy.deepcopy(queries)
             self.remove_optional_missing(optional_node_data_missing)
 
         # Construct graph nodes dictionary
@@ -866,4 +869,5 @@ class ApplyDecisionTree(BasePlugin):
 
         # Update categories for day or night where appropriate.
         categories = update_daynight(categories, day_night_map(self.queries))
+        self.queries, self.start_node = queries, start_node
         return categories
-- 
2.43.0


From e364b97c7f9e05b90f807df82fda555d5d451975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 073/126] fix: leave decision trees as they were given

---
 improver/categorical/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index b0367e4..cb9faf6 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -4,6 +4,7 @@
 # See LICENSE in the root of the repository for full licensing details.
 """This module defines the utilities required for decision tree plugin """
 
+import copy
 from collections import OrderedDict
 from typing import Any, Dict, List, Optional, Union
 
@@ -85,6 +86,7 @@ def update_tree_thresholds(
             values = values * target_period / period
         return iris.coords.AuxCoord(values, units=units)
 
+    tree = copy.deepcopy(tree)
     for key, query in tree.items():
         if not is_decision_node(key, query) or query.get("deterministic", False):
             continue
@@ -369,6 +371,7 @@ def check_tree(
         raise ValueError("Decision tree is not a dictionary")
 
     issues = []
+    decision_tree = decision_tree.copy()
     meta = decision_tree.pop("meta", None)
     if meta is None:
         issues.append("Decision tree does not contain a mandatory meta key")
-- 
2.43.0


From 762f66b1a4fb0fa487281c937a70877e36db684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 074/126] fix: keep points without a category masked at night

---
 improver/categorical/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index cb9faf6..932d6e0 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -174,7 +174,7 @@ def update_daynight(cube: Cube, day_night: Dict) -> Cube:
 
     # Loop over the codes which have a night time value.
     for k, v in day_night.items():
-        index = np.where(cube_day_night.data == k)
+        index = np.ma.where(cube_day_night.data == k)
         # Where day leave as is, where night adjust category to given value.
         cube_day_night.data[index] = np.where(
             daynight_mask.data[index] == daynightplugin.day,
-- 
2.43.0


From 618faae5e3d92bca66e6754cdbd9ddff6345e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 075/126] fix: modal category on a grid with a dimension of one

---
 improver/categorical/modal_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..6475d98 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -166,7 +166,7 @@ class ModalCategory(BasePlugin):
         mode_result[counts < minimum_significant_count] = (
             self.code_max - self.unset_code_indicator
         )
-        return self.code_max - np.squeeze(mode_result)
+        return self.code_max - np.squeeze(mode_result, axis=0)
 
     @staticmethod
     def _set_blended_times(cube: Cube) -> None:
-- 
2.43.0


From 8bc0b73e045e48759f8a63ee395f0f107b985306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 076/126] fix: leave a single input of the modal category as it
 was

---
 improver/categorical/modal_code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 6475d98..3fe9a45 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -227,11 +227,13 @@ class ModalCategory(BasePlugin):
             )
         )
 
+        if any(cube is source_cube for source_cube in cubes):
+            cube = cube.copy()
         self._unify_day_and_night(cube)
 
         # Handle case in which a single time is provided.
         if len(cube.coord("time").points) == 1:
-            result = cube
+            result = cube.copy()
         else:
             result = cube.collapsed("time", self.aggregator_instance)
         self._set_blended_times(result)
-- 
2.43.0


From 2aff24e82f594aab587d0e706314ac3dc3fbf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:36 +0000
Subject: [PATCH 077/126] fix: solar elevation where the sun is overhead

---
 improver/utilities/solar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..82308e7 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -211,6 +211,8 @@ def calc_solar_elevation(
     solar_elevation = np.sin(decl) * np.sin(lats) + np.cos(decl) * np.cos(
         lats
     ) * np.cos(rad_hours)
+    # Rounding can take the sine beyond its range where the sun is overhead.
+    solar_elevation = np.clip(solar_elevation, -1.0, 1.0)
     if not return_sine:
         solar_elevation = np.degrees(np.arcsin(solar_elevation))
 
-- 
2.43.0


From d9ec21aeb48c597681139ff5d37517d5b1f9bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 078/126] fix: day-night mask of several periods

---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 82308e7..25b94a7 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -396,7 +396,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From 718ad7cfaa60e9718b8e2aa100c0d362bfd224ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 079/126] fix: day-night mask of a grid after a spot cube

---
 improver/utilities/solar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 25b94a7..fc41781 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -291,8 +291,8 @@ class DayNightMask(BasePlugin):
         for dim in set([cube.coord_dims(crd) for crd in slice_coords]):
             spatial_coords.append(cube.coords(dimensions=dim)[0])
 
-        if len(spatial_coords) != len(slice_coords):
-            self.irregular = True
+        self.irregular = len(spatial_coords) != len(slice_coords)
+        if self.irregular:
             slice_coords = spatial_coords
 
         if cube.coord("time") in cube.coords(dim_coords=True):
-- 
2.43.0


From 00a5cd45342e99dca77262cef36b8795e8ed6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 080/126] fix: end the memory profile of a command that fails

---
 improver/memprofile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/memprofile.py b/improver/memprofile.py
index 9182033..f82c40c 100644
--- a/improver/memprofile.py
+++ b/improver/memprofile.py
@@ -103,8 +103,10 @@ def memory_profile_decorator(func: Callable, outfile_prefix: str) -> Callable:
 
     def wrapper(*args, **kwargs):
         thread, queue = memory_profile_start(outfile_prefix)
-        results = func(*args, **kwargs)
-        memory_profile_end(queue, thread)
+        try:
+            results = func(*args, **kwargs)
+        finally:
+            memory_profile_end(queue, thread)
         return results
 
     return wrapper
-- 
2.43.0


From 2756efc104364b7a41f15181b539d1b4c557db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 081/126] fix: memory profile of a command that ends at once

---
 improver/memprofile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/memprofile.py b/improver/memprofile.py
index f82c40c..810b05f 100644
--- a/improver/memprofile.py
+++ b/improver/memprofile.py
@@ -81,6 +81,8 @@ def memory_monitor(queue: Queue, outfile_prefix: str) -> None:
                 print(line, file=fout)
                 old_max = max_rss
         else:
+            if snapshot is None:
+                snapshot = tracemalloc.take_snapshot()
             snapshot.dump("{}_SNAPSHOT".format(outfile_prefix))
             fout.close()
             tracemalloc.stop()
-- 
2.43.0


From 673a85a0cc4d07be5e3e9a0ebd9a8b41e1b16e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 082/126] fix: lead time bounds with a reference time for each
 time

---
 improver/metadata/forecast_times.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index f05c9ec..a2be4a6 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -125,7 +125,9 @@ def _calculate_forecast_period(
 
     if time_coord.bounds is not None:
         time_bounds = np.array([c.bound for c in time_coord.cells()])
-        required_lead_time_bounds = time_bounds - forecast_reference_time_points
+        required_lead_time_bounds = (
+            time_bounds - forecast_reference_time_points[:, np.newaxis]
+        )
         required_lead_time_bounds = np.array(
             [[b.total_seconds() for b in x] for x in required_lead_time_bounds]
         )
-- 
2.43.0


From c03d65dc14b444286bfc70828fcf1ff69ca19eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:36 +0000
Subject: [PATCH 083/126] fix: refuse to replace a dimension of reference times

---
 improver/metadata/forecast_times.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index a2be4a6..148012e 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -267,6 +267,11 @@ def unify_cycletime(
     for cube in cubes:
         cube = cube.copy()
         new_frt_coord = _create_frt_type_coord(cube, cycletime)
+        if cube.coords(new_frt_coord.name(), dim_coords=True):
+            raise ValueError(
+                "Expecting scalar forecast_reference_time for each input "
+                "cube - cannot replace a dimension coordinate"
+            )
         cube.remove_coord(new_frt_coord.name())
         cube.add_aux_coord(new_frt_coord, data_dims=None)
 
-- 
2.43.0


From f103452f96976ea27da8ec37ccff00c0d9032216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:53 +0000
Subject: [PATCH 084/126] fix: leave the mandatory attributes passed in alone

---
 improver/metadata/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/metadata/utilities.py b/improver/metadata/utilities.py
index ffbd131..9082c67 100644
--- a/improver/metadata/utilities.py
+++ b/improver/metadata/utilities.py
@@ -59,7 +59,7 @@ def create_new_diagnostic_cube(
     Returns:
         Cube with correct metadata to accommodate new diagnostic field
     """
-    attributes = mandatory_attributes
+    attributes = mandatory_attributes.copy()
     if optional_attributes is not None:
         attributes.update(optional_attributes)
 
-- 
2.43.0


From e45d50601f3e3b5110accf12f8f4155fba0232b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:04 +0000
Subject: [PATCH 085/126] fix: attribute values with a time and other fields

---
 improver/metadata/amend.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index f4c0b8f..ea4a3a3 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -36,16 +36,13 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
             wall-clock time, formatted as specified.
     """
     for attribute_name, value in attributes_dict.items():
-        re_now = r"({now:.*})"
-        # We use the DOTALL flag below to tell regex that . should match new-line
-        # characters as well as everything else. Therefore, the match below is for
-        # any string that contains the word now inside curly braces, with a colon
-        # and any format specifier. This now section is returned as a group in
-        # position 1 of has_now, which we will use to format the current time.
-        has_now = re.match(rf".*{re_now}.*", value, re.DOTALL)
-        if has_now:
-            now = has_now[1].format(now=datetime.now())
-            value = re.sub(re_now, now, value)
+        # Each "{now:...}" is replaced separately. The character class excludes
+        # closing brackets, so that other fields and further times in the same
+        # value are left alone, and includes new-line characters.
+        now = datetime.now()
+        value = re.sub(
+            r"{now:[^}]*}", lambda match: match[0].format(now=now), value
+        )
         if value == "remove":
             cube.attributes.pop(attribute_name, None)
         elif "{}" in value:
-- 
2.43.0


From 5a021e0c125ef133f8d22e126764232c003d268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:09 +0000
Subject: [PATCH 086/126] fix: exceptions to the coordinate order in any order

---
 improver/utilities/cube_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_checker.py b/improver/utilities/cube_checker.py
index af85cd9..5caafa8 100644
--- a/improver/utilities/cube_checker.py
+++ b/improver/utilities/cube_checker.py
@@ -114,7 +114,7 @@ def check_cube_coordinates(
             raise CoordinateNotFoundError(msg)
 
     correct_order = np.array(correct_order)
-    for dim in new_cube_only_dims:
+    for dim in sorted(new_cube_only_dims):
         correct_order = np.insert(correct_order, dim, dim)
 
     new_cube.transpose(correct_order)
-- 
2.43.0


From 3a69e39342dea91645b8f8ea73f3ed1944e8de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 087/126] fix: keep the order of cell methods when merging
 cubes

---
 improver/utilities/cube_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..5b65724 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -170,7 +170,7 @@ class MergeCubes(BasePlugin):
         """
         cell_methods = cubelist[0].cell_methods
         for cube in cubelist[1:]:
-            cell_methods = list(set(cell_methods) & set(cube.cell_methods))
+            cell_methods = [cm for cm in cell_methods if cm in cube.cell_methods]
         for cube in cubelist:
             cube.cell_methods = tuple(cell_methods)
 
-- 
2.43.0


From a4bcc7534edf4fe499b6e09f5dbc6e63465d951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 088/126] fix: add_coordinate_to_cube keeps masks and the
 input's coordinates apart

---
 improver/utilities/cube_manipulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 5b65724..2eeabd6 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -680,18 +680,18 @@ def add_coordinate_to_cube(
                 with cube containing {input_dim_count}."
         )
 
-    new_dim_coords = list(cube.dim_coords) + [new_coord]
+    new_dim_coords = [coord.copy() for coord in (*cube.dim_coords, new_coord)]
     new_dims = list(range(input_dim_count + 1))
     new_dim_coords_and_dims = list(zip(new_dim_coords, new_dims))
 
     aux_coords = cube.aux_coords
     aux_coord_dims = [cube.coord_dims(coord.name()) for coord in aux_coords]
-    new_aux_coords_and_dims = list(zip(aux_coords, aux_coord_dims))
+    new_aux_coords_and_dims = list(
+        zip([coord.copy() for coord in aux_coords], aux_coord_dims)
+    )
 
     new_coord_size = len(new_coord.points)
-    new_data = np.broadcast_to(
-        cube.data[..., np.newaxis], shape=cube.shape + (new_coord_size,)
-    ).astype(cube.data.dtype)
+    new_data = cube.data[..., np.newaxis].repeat(new_coord_size, axis=-1)
     output_cube = Cube(
         new_data,
         dim_coords_and_dims=new_dim_coords_and_dims,
-- 
2.43.0


From b5cc56ca5d1f23660efabbdc5d5bd401edbe49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 089/126] fix: height of the maximum for any dimension order,
 and masks

---
 improver/utilities/cube_manipulation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 2eeabd6..aa6a274 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -814,12 +814,11 @@ def height_of_maximum(
     else:
         height_points = reversed(height_range)
 
+    height_slices = list(cube.slices_over("height"))
     for height in height_points:
-        height_of_max.data = np.where(
-            cube[height].data == max_cube.data,
-            cube[height].coord("height").points[0],
-            height_of_max.data,
-        )
+        height_slice = height_slices[height]
+        is_maximum = np.ma.filled(height_slice.data == max_cube.data, False)
+        height_of_max.data[is_maximum] = height_slice.coord("height").points[0]
     if new_name:
         height_of_max.rename(new_name)
     height_of_max.units = cube.coord("height").units
-- 
2.43.0


From e07ad02e3be837a67f2aaf1ded17f86400baa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 090/126] fix: ranges with negative end points include them

---
 improver/utilities/cube_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_constraints.py b/improver/utilities/cube_constraints.py
index 51aeab6..6c11cba 100644
--- a/improver/utilities/cube_constraints.py
+++ b/improver/utilities/cube_constraints.py
@@ -41,8 +41,8 @@ def create_sorted_lambda_constraint(
     """
     values = [float(i) for i in values]
     values = sorted(values)
-    values[0] = (1.0 - tolerance) * values[0]
-    values[1] = (1.0 + tolerance) * values[1]
+    values[0] = values[0] - tolerance * abs(values[0])
+    values[1] = values[1] + tolerance * abs(values[1])
     constr = iris.Constraint(
         coord_values={coord_name: lambda cell: values[0] <= cell.point <= values[1]}
     )
-- 
2.43.0


From ac50ada995a1da3d762292a6152235df9f0410d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:12 +0000
Subject: [PATCH 091/126] fix: an extraction that matches nothing with a step
 or longitudes

---
 improver/utilities/cube_extraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index ebf84d2..87cc047 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -205,7 +205,7 @@ def apply_extraction(
                     # an empty output cube (None) is handled by the CLI
                     pass
 
-    if longitude_constraint:
+    if longitude_constraint and output_cube is not None:
         output_cube = output_cube.intersection(
             longitude=longitude_constraint, ignore_bounds=True
         )
@@ -259,7 +259,7 @@ def extract_subcube(
         cube, constraints, units, use_original_units, longitude_constraint
     )
 
-    if thinning_dict:
+    if thinning_dict and output_cube is not None:
         output_cube = thin_cube(output_cube, thinning_dict)
 
     return output_cube
-- 
2.43.0


From 513331d6d8006eaab4938cdd953bb34d31efe7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 092/126] fix: constraints on values that are not Python

---
 improver/utilities/cube_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 87cc047..33f606c 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -133,7 +133,7 @@ def parse_constraint_list(
         else:
             try:
                 typed_value = literal_eval(value)
-            except ValueError:
+            except (ValueError, SyntaxError):
                 simple_constraints_dict[key] = value
             else:
                 simple_constraints_dict[key] = create_constraint(typed_value)
-- 
2.43.0


From 419cf7498297b240314ada117241f3a87cb676ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 093/126] fix: a step on a coordinate with a single matching
 point

---
 improver/utilities/cube_extraction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index 33f606c..f638c12 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -16,7 +16,7 @@ from improver import BasePlugin
 from improver.metadata.constants import FLOAT_DTYPE
 from improver.utilities.common_input_handle import as_cube
 from improver.utilities.cube_constraints import create_sorted_lambda_constraint
-from improver.utilities.cube_manipulation import get_dim_coord_names
+
 
 
 def parse_range_string_to_dict(value: str) -> Dict[str, str]:
@@ -339,10 +339,11 @@ def thin_cube(cube: Cube, thinning_dict: Dict[str, int]) -> Cube:
     Returns:
         A cube with thinned coordinates.
     """
-    coord_names = get_dim_coord_names(cube)
-    slices = [slice(None, None, None)] * len(coord_names)
+    slices = [slice(None, None, None)] * cube.ndim
     for key, val in thinning_dict.items():
-        slices[coord_names.index(key)] = slice(None, None, val)
+        # a scalar coordinate has a single point, which is always kept
+        for dim in cube.coord_dims(key):
+            slices[dim] = slice(None, None, val)
     return cube[tuple(slices)]
 
 
-- 
2.43.0


From 4fb757deaa1ab997203d724c2cbeccc7b67f2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 094/126] fix: an extraction with no points in its range of
 longitudes

---
 improver/utilities/cube_extraction.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index f638c12..ce8198a 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -206,9 +206,13 @@ def apply_extraction(
                     pass
 
     if longitude_constraint and output_cube is not None:
-        output_cube = output_cube.intersection(
-            longitude=longitude_constraint, ignore_bounds=True
-        )
+        try:
+            output_cube = output_cube.intersection(
+                longitude=longitude_constraint, ignore_bounds=True
+            )
+        except IndexError:
+            # there are no points in this range of longitudes
+            return None
         # TODO: Below can be removed when https://github.com/SciTools/iris/issues/4119
         # is fixed
         output_cube.coord("longitude").points = output_cube.coord(
-- 
2.43.0


From c219208358aa8ce93ded06c4f6858599ce201b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 095/126] fix: ExtractLevel leaves its input alone

---
 improver/utilities/cube_extraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/cube_extraction.py b/improver/utilities/cube_extraction.py
index ce8198a..794707f 100644
--- a/improver/utilities/cube_extraction.py
+++ b/improver/utilities/cube_extraction.py
@@ -521,6 +521,7 @@ class ExtractLevel(BasePlugin):
         except CoordinateNotFoundError:
             self.coordinate = variable_on_levels.coord("height").name()
 
+        variable_on_levels = variable_on_levels.copy()
         self.fill_invalid(variable_on_levels)
 
         if "realization" in [c.name() for c in variable_on_levels.dim_coords]:
-- 
2.43.0


From fe3ef7c790c7a57990ec2801116e1bf5348f2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 096/126] fix: maximum_in_height of a single level leaves its
 input alone

---
 improver/utilities/cube_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index aa6a274..aa5e6dd 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -768,7 +768,8 @@ def maximum_in_height(
     if len(cube_subsetted.coord("height").points) > 1:
         max_cube = cube_subsetted.collapsed("height", iris.analysis.MAX)
     else:
-        max_cube = cube_subsetted
+        # extracting every level gives the cube itself
+        max_cube = cube_subsetted.copy()
 
     if new_name:
         max_cube.rename(new_name)
-- 
2.43.0


From d5f8670efde0a558beac217df302694b35f6c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:44 +0000
Subject: [PATCH 097/126] fix: a second use of Combine names the result after
 its own cubes

---
 improver/cube_combiner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..a3bbc57 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
-- 
2.43.0


From 7f430e2e53672c73c79e621d28351d6ddda2934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 098/126] fix: a second use of CubeCombiner broadcasts to its
 own thresholds

---
 improver/cube_combiner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index a3bbc57..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -355,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From fc9c0a720153b3a437a0ddaecbcf9a0ca84d654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 099/126] fix: combining cubes keeps a single realization as a
 dimension

---
 improver/cube_combiner.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 02861be..b50ec9f 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -19,6 +19,7 @@ from improver.metadata.check_datatypes import enforce_dtype
 from improver.metadata.constants.time_types import TIME_COORDS
 from improver.metadata.probabilistic import find_threshold_coordinate
 from improver.utilities.common_input_handle import as_cubelist
+from improver.utilities.cube_checker import check_cube_coordinates
 from improver.utilities.cube_manipulation import (
     enforce_coordinate_ordering,
     expand_bounds,
@@ -320,10 +321,8 @@ class CubeCombiner(BasePlugin):
                 cslices = cube.slices_over("realization")
                 for rslice, cslice in zip(rslices, cslices):
                     rslice.data = self.operator(rslice.data, cslice.data)
-            result = rslices.merge_cube()
-            enforce_coordinate_ordering(
-                result, [d.name() for d in cube_list[0].coords(dim_coords=True)]
-            )
+            # a single realization is not kept as a dimension by merging
+            result = check_cube_coordinates(cube_list[0], rslices.merge_cube())
         else:
             for cube in cube_list[1:]:
                 result.data = self.operator(result.data, cube.data)
-- 
2.43.0


From 0b6248ef2c06eccf84ba3053d428b7fb78986666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 100/126] fix: Combine with minimum_realizations keeps the
 order of its inputs

---
 improver/cube_combiner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index b50ec9f..cef28b7 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -124,7 +124,12 @@ class Combine(BasePlugin):
                     "is less than the minimum number of realizations allowed "
                     f"({self.minimum_realizations})"
                 )
-            filtered_cubes = cube.slices_over("time")
+            # keep the order of the inputs, on which subtraction depends
+            times = [point for c in cubes for point in c.coord("time").points]
+            filtered_cubes = sorted(
+                cube.slices_over("time"),
+                key=lambda c: times.index(c.coord("time").points[0]),
+            )
         return self.plugin(CubeList(filtered_cubes), new_name)
 
 
-- 
2.43.0


From ecea1686f0395693dc17ace50afa9fa2bcc3f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 101/126] fix: no realizations present at all times

---
 improver/utilities/cube_manipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index aa5e6dd..c2e9d44 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -645,6 +645,8 @@ def filter_realizations(cubes: CubeList) -> Cube:
         )
         if set([c.point for c in realization_cube.coord("time").cells()]) == times:
             filtered_cubes.append(realization_cube)
+    if not filtered_cubes:
+        raise ValueError("There are no realizations that are present at all times")
     return MergeCubes()(filtered_cubes)
 
 
-- 
2.43.0


From aec5db4c7e0d58cf07fe81d1f3fd226aaae762ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 102/126] fix: equal periods of cubes that do not start on the
 hour

---
 improver/cube_combiner.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index cef28b7..9b0e1f6 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -487,6 +487,20 @@ class MaxInTimeWindow(BasePlugin):
         [c.convert_units(self.time_units_in_hours) for c in coords]
         return coords
 
+    @staticmethod
+    def _unique_periods(coords: List[Union[AuxCoord, DimCoord]]) -> np.ndarray:
+        """Get the different periods represented by the bounds of coordinates.
+
+        Args:
+            coords: Time coordinates in units of hours.
+
+        Returns:
+            The periods in hours, to a precision much finer than a second as the
+            difference between times in hours is subject to rounding.
+        """
+        periods = [np.diff(c.bounds) for c in coords if c.has_bounds()]
+        return np.unique(np.round(periods, 5))
+
     def _check_input_cubes(self, coords: List[Union[AuxCoord, DimCoord]]):
         """Check that the input cubes are period diagnostics i.e. where the time
         coordinate has bounds representing a period and that the bounds represent
@@ -509,7 +523,7 @@ class MaxInTimeWindow(BasePlugin):
                 "with bounds. "
             )
             [c.convert_units(self.time_units_in_hours) for c in coords]
-            period = np.unique([np.diff(c.bounds) for c in coords if c.has_bounds()])
+            period = self._unique_periods(coords)
             if not any([c.has_bounds() for c in coords]):
                 msg = msg + ("The cubes provided do not have bounds.")
             else:
@@ -517,9 +531,9 @@ class MaxInTimeWindow(BasePlugin):
                     "The cubes provided do not all have bounds. "
                     f"Period(s) indicated by bounds: {period} hours"
                 )
-        elif len(np.unique([np.diff(c.bounds) for c in coords])) > 1:
+        elif len(self._unique_periods(coords)) > 1:
             [c.convert_units(self.time_units_in_hours) for c in coords]
-            period = np.unique([np.diff(c.bounds) for c in coords])
+            period = self._unique_periods(coords)
             msg = (
                 "The bounds on the cubes imply mismatching periods. "
                 f"Period(s) indicated by bounds: {period} hours"
@@ -548,7 +562,7 @@ class MaxInTimeWindow(BasePlugin):
             diag_name = cube.coord(var_name="threshold").name()
         else:
             diag_name = cube.name()
-        (period,) = np.unique([np.diff(c.bounds) for c in coords_in_hours])
+        (period,) = self._unique_periods(coords_in_hours)
         hour_text = "hour" if round(period) == 1 else "hours"
         sum_comment = (
             f"of {diag_name} over {round(period)} {hour_text} within time window"
-- 
2.43.0


From e5a1f603f5435af526030cd94203bfbda5d18e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 103/126] fix: expected values of small quantities

---
 improver/expected_value.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/improver/expected_value.py b/improver/expected_value.py
index 1d0264e..bd1cd8d 100644
--- a/improver/expected_value.py
+++ b/improver/expected_value.py
@@ -50,15 +50,13 @@ class ExpectedValue(PostProcessingPlugin):
             raise ValueError("threshold coordinate in decreasing order")
         # add an extra threshold below/above with zero/one probability
         # ensure that the PDF integral covers the full CDF probability range
-        # thresholds are usually float32 with epsilon of ~= 1.1e-7
-        eps = np.finfo(thresholds.dtype).eps
-        # for small values (especially exactly zero), at least epsilon
-        # for larger values, the next representable float number
+        # the extra thresholds are the next representable float numbers, which are
+        # close even to very small thresholds such as precipitation rates in m s-1
         thresholds_expanded = np.array(
             [
-                thresholds[0] - max(eps, abs(thresholds[0] * eps)),
+                np.nextafter(thresholds[0], -np.inf, dtype=thresholds.dtype),
                 *thresholds,
-                thresholds[-1] + max(eps, abs(thresholds[-1] * eps)),
+                np.nextafter(thresholds[-1], np.inf, dtype=thresholds.dtype),
             ]
         )
         # expand the data to match the newly added thresholds
-- 
2.43.0


From 16cdf40a9a6db9c237628369311dd529ff1937d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 104/126] fix: expected values of masked probabilities stay
 masked

---
 improver/expected_value.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/improver/expected_value.py b/improver/expected_value.py
index bd1cd8d..96f02ad 100644
--- a/improver/expected_value.py
+++ b/improver/expected_value.py
@@ -62,8 +62,16 @@ class ExpectedValue(PostProcessingPlugin):
         # expand the data to match the newly added thresholds
         extra_data_shape = list(cube.shape)
         extra_data_shape[threshold_coord_idx] = 1
+        # points with any missing probability have no expected value
+        mask = np.ma.getmaskarray(cube.data).any(
+            axis=threshold_coord_idx, keepdims=True
+        )
         data_expanded = np.concatenate(
-            [np.zeros(extra_data_shape), cube.data, np.ones(extra_data_shape)],
+            [
+                np.zeros(extra_data_shape),
+                np.where(mask, 0.0, np.ma.getdata(cube.data)),
+                np.ones(extra_data_shape),
+            ],
             axis=threshold_coord_idx,
             dtype=np.float32,
         )
@@ -90,6 +98,10 @@ class ExpectedValue(PostProcessingPlugin):
         # sum of weighted_pdf is equivalent to midpoint rule integration over the CDF
         ev_data = np.sum(weighted_pdf, axis=threshold_coord_idx, dtype=np.float32)
         del weighted_pdf
+        if mask.any():
+            ev_data = np.ma.masked_array(
+                ev_data, mask=mask.squeeze(axis=threshold_coord_idx)
+            )
         # set up output cube based on input, with the threshold dimension removed
         ev_cube = next(cube.slices_over([threshold_coord])).copy()
         ev_cube.remove_coord(threshold_coord)
-- 
2.43.0


From 7e9673fa4788f07feff59643890c4469ba5a7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 105/126] fix: inverted probabilities of diagnostics with above
 or below in their names

---
 improver/utilities/probability_manipulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/probability_manipulation.py b/improver/utilities/probability_manipulation.py
index 9c8f304..b83c804 100644
--- a/improver/utilities/probability_manipulation.py
+++ b/improver/utilities/probability_manipulation.py
@@ -140,9 +140,9 @@ def invert_probabilities(cube: Cube) -> Cube:
     ] = new_inequality
 
     new_name = (
-        cube.name().replace("above", "below")
-        if "above" in cube.name()
-        else cube.name().replace("below", "above")
+        cube.name().replace("above_threshold", "below_threshold")
+        if "above_threshold" in cube.name()
+        else cube.name().replace("below_threshold", "above_threshold")
     )
     inverted_probabilities.rename(new_name)
 
-- 
2.43.0


From 033d01c3d175b0cb2e9e98f88ab2f5b32ded99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 106/126] fix: threshold ranges that are not lists

---
 improver/between_thresholds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/between_thresholds.py b/improver/between_thresholds.py
index 50edb67..7a83ac6 100644
--- a/improver/between_thresholds.py
+++ b/improver/between_thresholds.py
@@ -73,7 +73,7 @@ class OccurrenceBetweenThresholds(PostProcessingPlugin):
 
         cubes = []
         for t_range in self.threshold_ranges:
-            t_range.sort()
+            t_range = sorted(t_range)
             lower_constraint = iris.Constraint(
                 coord_values={
                     thresh_coord: lambda t: np.isclose(t.point, t_range[0], atol=1e-5)
-- 
2.43.0


From 092aff7295d1c02d19faccb9f123763370ed247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 107/126] fix: names in the warning of inconsistent forecasts

---
 improver/utilities/forecast_reference_enforcement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 594dfa0..48d2886 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -211,8 +211,8 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
         max_abs_diff = np.max(np.abs(diff))
         if self.diff_for_warning is not None and max_abs_diff > self.diff_for_warning:
             warnings.warn(
-                f"Inconsistency between forecast {forecast.name} and "
-                f"{reference_forecast.name} is greater than {self.diff_for_warning}. "
+                f"Inconsistency between forecast {forecast.name()} and "
+                f"{reference_forecast.name()} is greater than {self.diff_for_warning}. "
                 f"Maximum absolute difference reported was {max_abs_diff}"
             )
 
-- 
2.43.0


From 865e36d31c61b76c838ec2c83b1aceb931f8bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 108/126] fix: the default name of a product of probabilities

---
 improver/cube_combiner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 9b0e1f6..7409703 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -17,7 +17,11 @@ from improver import BasePlugin
 from improver.metadata.amend import update_diagnostic_name
 from improver.metadata.check_datatypes import enforce_dtype
 from improver.metadata.constants.time_types import TIME_COORDS
-from improver.metadata.probabilistic import find_threshold_coordinate
+from improver.metadata.probabilistic import (
+    find_threshold_coordinate,
+    get_diagnostic_cube_name_from_probability_name,
+    is_probability,
+)
 from improver.utilities.common_input_handle import as_cubelist
 from improver.utilities.cube_checker import check_cube_coordinates
 from improver.utilities.cube_manipulation import (
@@ -106,7 +110,12 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        new_name = cubes[0].name() if self.new_name is None else self.new_name
+        new_name = self.new_name
+        if new_name is None:
+            new_name = cubes[0].name()
+            if self.plugin.operation in ["*", "multiply"] and is_probability(cubes[0]):
+                # a product of probabilities is named after the diagnostic
+                new_name = get_diagnostic_cube_name_from_probability_name(new_name)
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
-- 
2.43.0


From 5e0ae4de75c764b18d0a23bdd482894ce2ea61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 109/126] fix: freezing rain of shared realizations, masked
 data and unequal threshold lists

---
 improver/precipitation_type/freezing_rain.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..ef86d50 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -94,7 +94,9 @@ class FreezingRain(PostProcessingPlugin):
         except ValueError:
             raise ValueError("Rain and sleet cubes have incompatible units")
 
-        if not all(rain_threshold.points == sleet_threshold.points):
+        if rain_threshold.shape != sleet_threshold.shape or not np.allclose(
+            rain_threshold.points, sleet_threshold.points, rtol=1e-5, atol=0
+        ):
             raise ValueError("Rain and sleet cubes have different threshold values")
 
         # Ensure probabilities relate to temperatures below a threshold
@@ -263,9 +265,9 @@ class FreezingRain(PostProcessingPlugin):
             denominator = 1.0
 
         for rslice, sslice, tslice in zip(rslices, sslices, tslices):
-            freezing_rain.data += ((rslice.data + sslice.data) * tslice.data) * (
-                1.0 / denominator
-            )
+            freezing_rain.data = freezing_rain.data + (
+                (rslice.data + sslice.data) * tslice.data
+            ) * np.float32(1.0 / denominator)
 
         return freezing_rain
 
@@ -286,14 +288,13 @@ class FreezingRain(PostProcessingPlugin):
         input_cubes = as_cubelist(*input_cubes)
         self._get_input_cubes(input_cubes)
 
+        self._extract_common_realizations()
+
         try:
             n_realizations = len(list(self.rain.slices_over("realization")))
         except CoordinateNotFoundError:
             n_realizations = None
 
-        if n_realizations is not None:
-            self._extract_common_realizations()
-
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
         return freezing_rain_cube
-- 
2.43.0


From 4c508097dcbfe835087234982f6d5481b29d7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 110/126] fix: masked updraughts in the hail fraction

---
 improver/precipitation_type/hail_fraction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/precipitation_type/hail_fraction.py b/improver/precipitation_type/hail_fraction.py
index 308eb40..3675d0b 100644
--- a/improver/precipitation_type/hail_fraction.py
+++ b/improver/precipitation_type/hail_fraction.py
@@ -90,6 +90,10 @@ class HailFraction(PostProcessingPlugin):
         hail_fraction[
             (hail_size.data > hail_size_limit) & (hail_fraction < 0.05)
         ] = 0.05
+        if np.ma.is_masked(vertical_updraught.data):
+            hail_fraction = np.ma.masked_array(
+                hail_fraction, mask=vertical_updraught.data.mask
+            )
         return hail_fraction
 
     def process(self, *cubes: Union[Cube, CubeList]) -> Cube:
-- 
2.43.0


From b24ac4690d54b3e2c5e2a687cc3149b67083902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 111/126] fix: shower conditions of a single realization

---
 .../precipitation_type/shower_condition_probability.py    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/improver/precipitation_type/shower_condition_probability.py b/improver/precipitation_type/shower_condition_probability.py
index ddf192a..68eab85 100644
--- a/improver/precipitation_type/shower_condition_probability.py
+++ b/improver/precipitation_type/shower_condition_probability.py
@@ -9,7 +9,6 @@ from typing import Optional, Tuple
 import iris
 import numpy as np
 from iris.cube import Cube, CubeList
-from iris.exceptions import CoordinateNotFoundError
 from numpy import ndarray
 
 from improver import PostProcessingPlugin
@@ -165,9 +164,12 @@ class ShowerConditionProbability(PostProcessingPlugin):
             shower_probability, convection_thresholded
         )
 
-        try:
+        if result.coords("realization", dim_coords=True):
             shower_conditions = collapse_realizations(result)
-        except CoordinateNotFoundError:
+        else:
+            # A single realization has nothing to collapse.
+            if result.coords("realization"):
+                result.remove_coord("realization")
             shower_conditions = result
 
         return iris.util.squeeze(shower_conditions)
-- 
2.43.0


From bfc13e64c0446c7b6023998f55ae54e773ece7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:27 +0000
Subject: [PATCH 112/126] fix: dimensions of the snow fraction

---
 improver/precipitation_type/snow_fraction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/improver/precipitation_type/snow_fraction.py b/improver/precipitation_type/snow_fraction.py
index 0f0727b..c618070 100644
--- a/improver/precipitation_type/snow_fraction.py
+++ b/improver/precipitation_type/snow_fraction.py
@@ -15,7 +15,10 @@ from improver.metadata.utilities import (
     create_new_diagnostic_cube,
     generate_mandatory_attributes,
 )
-from improver.utilities.cube_checker import spatial_coords_match
+from improver.utilities.cube_checker import (
+    check_cube_coordinates,
+    spatial_coords_match,
+)
 from improver.utilities.interpolation import interpolate_missing_data
 
 
@@ -129,7 +132,9 @@ class SnowFraction(PostProcessingPlugin):
                     interpolate_missing_data(snow_fraction_slice.data, method="nearest")
                 )
             )
-        return snow_fraction_interpolated.merge_cube()
+        return check_cube_coordinates(
+            snow_fraction_cube, snow_fraction_interpolated.merge_cube()
+        )
 
     def process(self, input_cubes: CubeList) -> Cube:
         """Check input cubes, then calculate and interpolate a snow fraction cube.
-- 
2.43.0


From 8a1bf9898e02f067a0ca414a3eb40c193bcbfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:47 +0000
Subject: [PATCH 113/126] fix: temporal interpolation over days, of dry and
 masked accumulations, and without changing its inputs

---
 improver/utilities/temporal_interpolation.py | 32 +++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..253ef6c 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -17,6 +17,7 @@ from improver import BasePlugin
 from improver.metadata.constants import FLOAT_DTYPE
 from improver.metadata.constants.time_types import TIME_COORDS
 from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex
+from improver.utilities.cube_checker import check_cube_coordinates
 from improver.utilities.cube_manipulation import MergeCubes
 from improver.utilities.round import round_close
 from improver.utilities.solar import DayNightMask, calc_solar_elevation
@@ -213,17 +214,16 @@ class TemporalInterpolation(BasePlugin):
                     "List of times falls outside the range given by "
                     "initial_time and final_time. "
                 )
-            time_list = self.times
+            time_list = list(self.times)
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
-                60 * self.interval_in_minutes
-            ) != 0:
+            interval_in_seconds = (final_time - initial_time).total_seconds()
+            if interval_in_seconds % (60 * self.interval_in_minutes) != 0:
                 msg = (
                     "interval_in_minutes of {} does not"
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int(interval_in_seconds / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -356,7 +356,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -364,7 +364,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
@@ -426,7 +426,9 @@ class TemporalInterpolation(BasePlugin):
             for cslice in cslices:
                 cslice.data[index] = 0.0
                 masked_data.append(cslice)
-            interpolated_cube = masked_data.merge_cube()
+            interpolated_cube = check_cube_coordinates(
+                interpolated_cube, masked_data.merge_cube()
+            )
         else:
             interpolated_cube.data[index] = 0.0
 
@@ -491,7 +493,8 @@ class TemporalInterpolation(BasePlugin):
         """
         # Calculate an average rate for the period from the edges
         accumulation_edges = [cube_t0, *interpolated_cube.slices_over("time")]
-        period_rates = np.array(
+        stack = np.ma.stack if np.ma.isMA(interpolated_cube.data) else np.stack
+        period_rates = stack(
             [
                 (a.data + b.data) / 2
                 for a, b in zip(accumulation_edges[:-1], accumulation_edges[1:])
@@ -507,10 +510,13 @@ class TemporalInterpolation(BasePlugin):
         interpolated_cube.data = np.multiply(new_periods, interpolated_cube.data)
 
         # Renormalise the total of the new periods to ensure it matches the
-        # total expressed in the longer original period.
+        # total expressed in the longer original period. Where there is no
+        # accumulation there is nothing to renormalise.
         (time_coord,) = interpolated_cube.coord_dims("time")
         interpolated_total = np.sum(interpolated_cube.data, axis=time_coord)
-        renormalisation = period_reference.data / interpolated_total
+        renormalisation = period_reference.data / np.where(
+            interpolated_total == 0, 1, interpolated_total
+        )
         interpolated_cube.data *= renormalisation
         interpolated_cube.data = interpolated_cube.data.astype(FLOAT_DTYPE)
 
@@ -623,6 +629,10 @@ class TemporalInterpolation(BasePlugin):
         ):
             return CubeList([cube_t1])
 
+        # The data are modified below, so leave the inputs alone.
+        cube_t0 = cube_t0.copy()
+        cube_t1 = cube_t1.copy()
+
         # If the units of the two cubes are degrees, assume we are dealing with
         # directions. Convert the directions to complex numbers so
         # interpolations (esp. the 0/360 wraparound) are handled in a sane
-- 
2.43.0


From aa0478e335cb94afb0b785cf3a1549ad751d4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 114/126] fix: dimensions kept when filling using differences

---
 improver/utilities/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/interpolation.py b/improver/utilities/interpolation.py
index 7e4e54c..1b0784b 100644
--- a/improver/utilities/interpolation.py
+++ b/improver/utilities/interpolation.py
@@ -16,6 +16,7 @@ from scipy.spatial.qhull import QhullError
 
 from improver import BasePlugin
 from improver.utilities.common_input_handle import as_cube
+from improver.utilities.cube_checker import check_cube_coordinates
 
 
 def interpolate_missing_data(
@@ -231,4 +232,4 @@ class InterpolateUsingDifference(BasePlugin):
                     )
             filled_cube.append(result)
 
-        return filled_cube.merge_cube()
+        return check_cube_coordinates(cube, filled_cube.merge_cube())
-- 
2.43.0


From 7870ea9fbc18275b9cd54b0ca4bae211f1d26460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 115/126] fix: refuse a mask of another shape

---
 improver/utilities/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..28e6374 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -65,7 +65,7 @@ def apply_mask(
     # This error is required to stop the mask from being broadcasted to a new shape by numpy. When
     # the mask and cube have different shapes numpy will try to broadcast the mask to be the same
     # shape as the cube data. This might succeed but masks unexpected data points.
-    if find_dimension_coordinate_mismatch(cube, mask):
+    if find_dimension_coordinate_mismatch(cube, mask) or cube.shape != mask.shape:
         raise ValueError("Input cube and mask cube must have the same dimensions")
 
     cube.data = np.ma.array(cube.data, mask=mask.data)
-- 
2.43.0


From 9feb881855c8155ba70e42b44e02920136f69d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 116/126] fix: masked points in a table lookup

---
 improver/utilities/extract_from_table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/utilities/extract_from_table.py b/improver/utilities/extract_from_table.py
index a39af75..62f0541 100644
--- a/improver/utilities/extract_from_table.py
+++ b/improver/utilities/extract_from_table.py
@@ -111,6 +111,12 @@ class ExtractValueFromTable(BasePlugin):
             result = result.astype(np.float32)
             result[nan_condition] = np.nan
 
+        if np.ma.is_masked(row_data) or np.ma.is_masked(columns_data):
+            result = np.ma.masked_array(
+                result,
+                mask=np.ma.getmaskarray(row_data) | np.ma.getmaskarray(columns_data),
+            )
+
         result = result.reshape(shape)
         return result
 
-- 
2.43.0


From eed495e70bf8fa24c57a2d790c8bfe3a6df03684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 117/126] fix: texture of a single realization

---
 improver/utilities/textural.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 3a2fa04..802d8bf 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -237,9 +237,12 @@ class FieldTexture(BasePlugin):
         )
 
         # Squeeze scalar threshold coordinate.
-        try:
+        if thresholded.coords("realization", dim_coords=True):
             field_texture = iris.util.squeeze(collapse_realizations(thresholded))
-        except CoordinateNotFoundError:
+        else:
+            # A single realization has nothing to collapse.
+            if thresholded.coords("realization"):
+                thresholded.remove_coord("realization")
             field_texture = iris.util.squeeze(thresholded)
 
         return field_texture
-- 
2.43.0


From 6b3378415ab38b0db2aa23531cf419c3799921af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 118/126] fix: masked points in feels like temperatures

---
 improver/feels_like_temperature.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/feels_like_temperature.py b/improver/feels_like_temperature.py
index e0460d1..da406c1 100644
--- a/improver/feels_like_temperature.py
+++ b/improver/feels_like_temperature.py
@@ -166,6 +166,11 @@ def _feels_like_temperature(
 
     feels_like_temperature[temperature > 20] = apparent_temperature[temperature > 20]
 
+    if np.ma.is_masked(temp_flt):
+        feels_like_temperature = np.ma.masked_array(
+            feels_like_temperature, mask=temp_flt.mask
+        )
+
     return feels_like_temperature
 
 
-- 
2.43.0


From cdcab3a27e1e4f1bfbeaa56d6b95ea6d2626a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:34 +0000
Subject: [PATCH 119/126] fix: keep a single realization when removing status
 flags

---
 improver/standardise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/improver/standardise.py b/improver/standardise.py
index 5e70fd5..d7bca41 100644
--- a/improver/standardise.py
+++ b/improver/standardise.py
@@ -10,6 +10,7 @@ import numpy as np
 from iris.coords import CellMethod
 from iris.cube import Cube, CubeList
 from iris.exceptions import CoordinateNotFoundError
+from iris.util import broadcast_to_shape
 from numpy import dtype, ndarray
 
 from improver import BasePlugin
@@ -22,6 +23,7 @@ from improver.metadata.check_datatypes import (
 )
 from improver.metadata.constants.time_types import TIME_COORDS
 from improver.utilities.common_input_handle import as_cube
+from improver.utilities.cube_checker import check_cube_coordinates
 from improver.utilities.round import round_close
 
 
@@ -102,11 +104,15 @@ class StandardiseMetadata(BasePlugin):
                     raise ValueError(
                         f"'{coord_name}' coordinate has unexpected mask values."
                     )
-                mask = np.asarray(coord.points)
+                mask = broadcast_to_shape(
+                    np.asarray(coord.points), cc.shape, cc.coord_dims(coord)
+                )
                 cc.data[mask.astype(bool)] = np.nan
                 cc.remove_coord(coord_name)
                 ncube.append(cc)
-            cube = ncube.merge_cube()
+            # restore a realization dimension of length one, and the order of
+            # the dimensions
+            cube = check_cube_coordinates(cube, ncube.merge_cube())
         return cube
 
     @staticmethod
-- 
2.43.0


From 76a12eaf9d368fa484a262a0a7ddbb88685403d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:34 +0000
Subject: [PATCH 120/126] fix: attribute values that are not strings

---
 improver/metadata/amend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/metadata/amend.py b/improver/metadata/amend.py
index ea4a3a3..a6f10cb 100644
--- a/improver/metadata/amend.py
+++ b/improver/metadata/amend.py
@@ -36,6 +36,10 @@ def amend_attributes(cube: Cube, attributes_dict: Dict[str, Any]) -> None:
             wall-clock time, formatted as specified.
     """
     for attribute_name, value in attributes_dict.items():
+        if not isinstance(value, str):
+            # There is nothing to insert into values that are not strings.
+            cube.attributes[attribute_name] = value
+            continue
         # Each "{now:...}" is replaced separately. The character class excludes
         # closing brackets, so that other fields and further times in the same
         # value are left alone, and includes new-line characters.
-- 
2.43.0


From 312e79294f0e8049c6544bcf5826aa0b434f20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:47 +0000
Subject: [PATCH 121/126] fix: refuse forecasts of several diagnostics in
 split_forecasts_and_coeffs

---
 improver/calibration/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/__init__.py b/improver/calibration/__init__.py
index d85ee1c..1ba281a 100644
--- a/improver/calibration/__init__.py
+++ b/improver/calibration/__init__.py
@@ -163,12 +163,18 @@ def split_forecasts_and_coeffs(
         raise ValueError(msg)
     elif len(grouped_cubes) == 1:
         (current_forecast,) = list(grouped_cubes.values())[0]
-    elif len(grouped_cubes) == 2:
+    elif len(grouped_cubes) == 2 and any("probability" in k for k in grouped_cubes):
         for key in grouped_cubes.keys():
             if "probability" in key:
                 (prob_template,) = grouped_cubes[key]
             else:
                 (current_forecast,) = grouped_cubes[key]
+    else:
+        msg = (
+            "Only one forecast, and optionally one probability template, is "
+            f"expected. Cubes provided: {list(grouped_cubes.keys())}."
+        )
+        raise ValueError(msg)
 
     coefficients = coefficients if coefficients else None
     static_additional_predictors = (
-- 
2.43.0


From 0506bb55cb1d1f55621842cabef390f032ed503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:28 +0000
Subject: [PATCH 122/126] fix: keep masks in differences across the meridian

---
 improver/utilities/spatial.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 011300d..0f9f280 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -594,20 +594,14 @@ class DifferenceBetweenAdjacentGridSquares(BasePlugin):
         """
         diff_axis = cube.coord(name_or_coord=coord_name)
         diff_axis_number = cube.coord_dims(coord_name)[0]
-        diff_along_axis = np.diff(cube.data, axis=diff_axis_number)
+        data = cube.data
         if self._axis_wraps_around_meridian(diff_axis, cube):
-            # Get wrap-around difference:
-            first_column = np.take(cube.data, indices=0, axis=diff_axis_number)
-            last_column = np.take(cube.data, indices=-1, axis=diff_axis_number)
-            wrap_around_diff = first_column - last_column
-            # Apply wrap-around difference vector to diff array:
-            if diff_axis_number == 0:
-                diff_along_axis = np.vstack([diff_along_axis, wrap_around_diff])
-            elif diff_axis_number == 1:
-                diff_along_axis = np.hstack(
-                    [diff_along_axis, wrap_around_diff.reshape([-1, 1])]
-                )
-        return diff_along_axis
+            # Repeat the first column at the end to get the wrap-around difference,
+            # keeping any mask
+            concatenate = np.ma.concatenate if np.ma.isMA(data) else np.concatenate
+            first_column = np.take(data, indices=[0], axis=diff_axis_number)
+            data = concatenate([data, first_column], axis=diff_axis_number)
+        return np.diff(data, axis=diff_axis_number)
 
     def process(self, cube: Cube) -> Tuple[Cube, Cube]:
         """
-- 
2.43.0


From 3857d6baa37a50989725d345d5665f2c9393b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:39 +0000
Subject: [PATCH 123/126] fix: refuse to pad grids with uneven inner spacing

---
 improver/utilities/pad_spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/pad_spatial.py b/improver/utilities/pad_spatial.py
index 7a381b6..f6eb0d9 100644
--- a/improver/utilities/pad_spatial.py
+++ b/improver/utilities/pad_spatial.py
@@ -48,7 +48,8 @@ def pad_coord(coord: Coord, width: int, method: str) -> Coord:
     """
     orig_points = coord.points
     increment = orig_points[1:] - orig_points[:-1]
-    if np.isclose(np.sum(np.diff(increment)), 0):
+    # Every increment must match, to within the precision of the points.
+    if np.allclose(increment, increment[0], rtol=1e-3):
         increment = increment[0]
     else:
         msg = "Non-uniform increments between grid points: {}.".format(increment)
-- 
2.43.0


From 2b35e007249f5c1861dc639917e4ca399045467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:28 +0000
Subject: [PATCH 124/126] fix: keep jumps in the distribution when blending
 percentiles

---
 improver/blending/weighted_blend.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index a4b4454..91bc1f6 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -330,24 +330,24 @@ class PercentileBlendingAggregator:
             across the chosen coord
         """
         inputs_to_blend = perc_values.shape[0]
-        combined_cdf = np.zeros((inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE)
+        combined_cdf = np.zeros(
+            (2, inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE
+        )
 
         # Loop over the axis we are blending over finding the values for the
         # probability at each threshold in the cdf, for each of the other
         # points in the axis we are blending over.
         # Then add the probabilities multiplied by the correct weight to the
-        # running total.
+        # running total. Where several percentiles have the same value the cdf
+        # jumps, so the probabilities below and above the jump are both needed.
         for i in range(0, inputs_to_blend):
-            interp_values = np.reshape(
-                np.interp(perc_values, perc_values[i], percentiles),
-                (inputs_to_blend, len(percentiles)),
-            )
-            interp_values[i] = percentiles
-            combined_cdf += interp_values * weights[i]
+            upper = np.interp(perc_values, perc_values[i], percentiles)
+            lower = -np.interp(-perc_values, -perc_values[i][::-1], -percentiles[::-1])
+            combined_cdf += np.stack([lower, upper]) * weights[i]
 
         # Combine and sort the threshold values for all the points
         # we are blending.
-        combined_perc_thres_data = np.sort(perc_values.flatten())
+        combined_perc_thres_data = np.sort(np.tile(perc_values.flatten(), 2))
 
         # Combine and sort blended probability values.
         combined_perc_values = np.sort(combined_cdf.flatten())
-- 
2.43.0


From 8d10e1367f02d0bca71c50872e0647e3a71f6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:49 +0000
Subject: [PATCH 125/126] fix: keep each cell method once on EMOS-calibrated
 probabilities

---
 improver/calibration/ensemble_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index f2acd4f..c7f2b76 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -1925,7 +1925,8 @@ class ApplyEMOS(PostProcessingPlugin):
 
         # Preserve cell methods from template.
         for cm in template.cell_methods:
-            result.add_cell_method(cm)
+            if cm not in result.cell_methods:
+                result.add_cell_method(cm)
 
         return result
 
-- 
2.43.0


From 90e9514e940f4b725785a14c62bd32b718b01a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:35 +0000
Subject: [PATCH 126/126] fix: accept an EMOS minimisation that stops at its
 first guess

---
 improver/calibration/ensemble_calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index c7f2b76..143fecc 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -307,6 +307,10 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             Warning: If a satisfactory minimisation has not been achieved.
 
         """
+        if len(allvecs) < 2:
+            # The minimisation stopped at the initial guess.
+            return
+
         last_iteration_percentage_change = (
             np.absolute((allvecs[-1] - allvecs[-2]) / allvecs[-2]) * 100
         )
-- 
2.43.0


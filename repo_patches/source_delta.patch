From 5660efb48d2716a54b2d128f8c595e780c6d7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 01/39] fix: resample_histogram1d keeps empty slices empty and
 accepts integer data

---
 pyirf/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 0eb4413..85143d4 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -281,8 +281,8 @@ def resample_histogram1d(data, old_edges, new_edges, axis=0):
     cumsum = np.insert(data.cumsum(axis=axis), 0, 0, axis=axis)
 
     norm = data.sum(axis=axis, keepdims=True)
-    norm[norm == 0] = 1
-    cumsum /= norm
+    # empty slices stay empty, inside and outside of the old range
+    cumsum = cumsum / np.where(norm == 0, 1, norm)
 
     f_integral = interp1d(
         old_edges,
-- 
2.43.0


From 29750b857cae1f9dd7b9e9189f5daf2601c7c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/39] fix: expected showers of a bin enclosing the whole
 simulated energy range

---
 pyirf/simulations.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index d7f6c3b..028e604 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -89,27 +89,11 @@ class SimulatedEventsInfo:
             The actual numbers will follow a poissionian distribution around this
             expected value.
         """
-        bins = energy_bins
-        e_low = bins[:-1]
-        e_high = bins[1:]
-        e_min = self.energy_min
-        e_max = self.energy_max
+        # only the part of each bin inside of the simulated range contributes
+        bins = np.clip(energy_bins, self.energy_min, self.energy_max)
 
         integral = _powerlaw_pdf_integral(
-            self.spectral_index, e_low, e_high, e_min, e_max
-        )
-
-        integral[e_high <= e_min] = 0
-        integral[e_low >= e_max] = 0
-
-        mask = (e_high > e_max) & (e_low < e_max)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_low[mask], e_max, e_min, e_max
-        )
-
-        mask = (e_high > e_min) & (e_low < e_min)
-        integral[mask] = _powerlaw_pdf_integral(
-            self.spectral_index, e_min, e_high[mask], e_min, e_max
+            self.spectral_index, bins[:-1], bins[1:], self.energy_min, self.energy_max
         )
 
         return self.n_showers * integral
-- 
2.43.0


From 298172bbc52770d18144ec8c938b44cdbfe82697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 03/39] fix: support the allowed spectral index -1 in shower
 numbers and normalisation

---
 pyirf/simulations.py | 3 +++
 pyirf/spectral.py    | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 028e604..311f698 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -278,6 +278,9 @@ def _powerlaw_pdf_integral(index, e_low, e_high, e_min, e_max):
     e_min = e_min.to_value(u.TeV)
     e_max = e_max.to_value(u.TeV)
 
+    if index == -1:
+        return np.log(e_high / e_low) / np.log(e_max / e_min)
+
     int_index = index + 1
     normalization = 1 / (e_max ** int_index - e_min ** int_index)
     e_term = e_high ** int_index - e_low ** int_index
diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index ffdd917..d8d66c0 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -132,8 +132,12 @@ class PowerLaw:
 
         A = np.pi * simulated_event_info.max_impact**2
 
-        delta = e_max ** (index + 1) - e_min ** (index + 1)
-        nom = (index + 1) * e_ref**index * n_showers
+        if index == -1:
+            delta = np.log((e_max / e_min).to_value(u.one))
+            nom = e_ref**index * n_showers
+        else:
+            delta = e_max ** (index + 1) - e_min ** (index + 1)
+            nom = (index + 1) * e_ref**index * n_showers
         denom = (A * obstime * solid_angle) * delta
 
         return cls(
-- 
2.43.0


From 210c99ce9630ddff3da3001f70474fdc028fd4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 04/39] fix: showers per position angle bin follow the width of
 the bin

---
 pyirf/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 311f698..c5384b7 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -195,8 +195,8 @@ class SimulatedEventsInfo:
             [self.viewcone_min, self.viewcone_max] * u.deg
         )
 
-        n_bins_pa = len(fov_position_angle_bins) - 1
-        position_angle_integral = np.full(n_bins_pa, viewcone_integral / n_bins_pa)
+        position_angle_fraction = np.diff(fov_position_angle_bins).to_value(u.rad) / (2 * np.pi)
+        position_angle_integral = viewcone_integral * position_angle_fraction
 
         total_integral = e_fov_offset_integral[:, :, np.newaxis] * position_angle_integral
 
-- 
2.43.0


From b62af75c2ebefe84f11c34f11f32cc41187bcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 05/39] fix: axis order of calculate_n_showers_3d_lonlat is
 (energy, lon, lat)

---
 pyirf/simulations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index c5384b7..3480c07 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -253,7 +253,8 @@ class SimulatedEventsInfo:
         fov_integral = shower_density * bin_area
         e_integral = self.calculate_n_showers_per_energy(energy_bins)
 
-        fov_integral = fov_overlap * fov_integral
+        # the grid has shape (n_lat, n_lon), the result needs (n_lon, n_lat)
+        fov_integral = (fov_overlap * fov_integral).T
 
         return (e_integral[:, np.newaxis, np.newaxis] * fov_integral) / self.n_showers
 
-- 
2.43.0


From d4144b6a67080f4d988cd6978d407c37b60da9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 06/39] fix: view cone overlap of lon/lat bins for any bin
 widths, units and cone position

---
 pyirf/simulations.py | 62 ++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/pyirf/simulations.py b/pyirf/simulations.py
index 3480c07..42da84c 100644
--- a/pyirf/simulations.py
+++ b/pyirf/simulations.py
@@ -327,30 +327,8 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     'subpixels' whose centers are inside the viewcone, which approximates the area of the
     bin inside the viewcone.
     """
-    # treat edge cases where all bins are either fully inside or outside of the viewcone
-    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon, bin_edges_lat)
-
-    bin_dist = angular_separation(
-        bin_grid_lon,
-        bin_grid_lat,
-        0,
-        0,
-    ).to_value(u.deg)
-
-    all_outside = np.logical_or(
-        np.all(bin_dist <= self.viewcone_min.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_max.to_value(u.deg)),
-    )
-    all_inside = np.logical_and(
-        np.all(bin_dist <= self.viewcone_max.to_value(u.deg)),
-        np.all(bin_dist >= self.viewcone_min.to_value(u.deg)),
-    )
-
-    if all_outside:
-        return 0
-    elif all_inside:
-        return 1
-
+    bin_edges_lon = bin_edges_lon.to(u.deg)
+    bin_edges_lat = bin_edges_lat.to(u.deg)
 
     # define grid of bin centers
     fov_bin_centers_lon = bin_center(bin_edges_lon)
@@ -378,8 +356,9 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     area[mask_simple] = 0
 
     # select only bins partially covered by the FOV
-    bin_width_lon = bin_edges_lon[1] - bin_edges_lon[0]
-    bin_width_lat = bin_edges_lat[1] - bin_edges_lat[0]
+    bin_width_lon, bin_width_lat = np.meshgrid(
+        np.diff(bin_edges_lon), np.diff(bin_edges_lat)
+    )
     bin_max_radius = np.sqrt(bin_width_lon ** 2 + bin_width_lat ** 2) * 0.5
 
     fov_outer_edge_mask = np.logical_and(
@@ -397,35 +376,28 @@ def _fov_lonlat_grid_overlap(self, bin_edges_lon, bin_edges_lat, subpixels=20):
     corner_idx = np.nonzero(fov_edge_mask)
 
     # define start and endpoints for subpixels
-    edges_lon = np.array(
-        [bin_grid_lon[corner_idx], bin_grid_lon[corner_idx] + bin_width_lon]
-    )
-    edges_lat = np.array(
-        [bin_grid_lat[corner_idx], bin_grid_lat[corner_idx] + bin_width_lat]
-    )
-
-    n_edge_pixels = len(fov_edge_mask[fov_edge_mask==True])
+    bin_grid_lon, bin_grid_lat = np.meshgrid(bin_edges_lon[:-1], bin_edges_lat[:-1])
+    low_lon, low_lat = bin_grid_lon[corner_idx], bin_grid_lat[corner_idx]
+    high_lon = low_lon + bin_width_lon[corner_idx]
+    high_lat = low_lat + bin_width_lat[corner_idx]
 
     # define subpixel bin centers and grid
-    subpixel_lon = bin_center(np.linspace(*edges_lon, subpixels + 1) * u.deg)
-    subpixel_lat = bin_center(np.linspace(*edges_lat, subpixels + 1) * u.deg)
-
-    # shape: (n_edge_pixels, 2, subpixels, subpixels)
-    subpixel_grid = np.array(
-        [np.meshgrid(subpixel_lon[:,i], subpixel_lat[:,i]) for i in range(n_edge_pixels)]
-    )
-    subpixel_grid_lon = subpixel_grid[:,0] * u.deg
-    subpixel_grid_lat = subpixel_grid[:,1] * u.deg
+    # shape: (subpixels, n_edge_pixels)
+    subpixel_lon = bin_center(np.linspace(low_lon, high_lon, subpixels + 1))
+    subpixel_lat = bin_center(np.linspace(low_lat, high_lat, subpixels + 1))
 
     # make mask with subpixels inside the FOV
-    radius_subpixel = angular_separation(subpixel_grid_lon, subpixel_grid_lat, 0, 0)
+    # shape: (subpixels, subpixels, n_edge_pixels)
+    radius_subpixel = angular_separation(
+        subpixel_lon[:, np.newaxis], subpixel_lat[np.newaxis, :], 0, 0
+    )
     mask = np.logical_and(
         radius_subpixel <= self.viewcone_max,
         radius_subpixel >= self.viewcone_min,
     )
 
     # calculates the fraction of subpixel centers within the FOV
-    FOV_covered_area = mask.sum(axis=(1,2)) / (subpixels ** 2)
+    FOV_covered_area = mask.sum(axis=(0, 1)) / (subpixels ** 2)
 
     area[corner_idx] = FOV_covered_area
 
-- 
2.43.0


From 1fe1cbb1f36877a8c245aa19e7561d8fc8c94d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 07/39] fix: solid angle of each longitude and latitude bin in
 background_3d_lonlat

---
 pyirf/irf/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/irf/background.py b/pyirf/irf/background.py
index 419486f..f27d2a8 100644
--- a/pyirf/irf/background.py
+++ b/pyirf/irf/background.py
@@ -113,8 +113,8 @@ def background_3d_lonlat(events, reco_energy_bins, fov_lon_bins, fov_lat_bins, t
 
     # divide by solid angle in each fov bin and the observation time
     bin_solid_angle = rectangle_solid_angle(
-        fov_lon_bins[:-1],
-        fov_lon_bins[1:],
+        fov_lon_bins[:-1, np.newaxis],
+        fov_lon_bins[1:, np.newaxis],
         fov_lat_bins[:-1],
         fov_lat_bins[1:],
     )
-- 
2.43.0


From da9dc933f7d360799cd59a34d6fdbf2327c93008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 08/39] fix: smooth percentile cuts along the bins, not along
 the percentiles

---
 pyirf/cuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index e9211c2..2f5c6d0 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -110,6 +110,7 @@ def calculate_percentile_cut(
         cut_table["cut"].value[:] = gaussian_filter1d(
             cut_table["cut"].value,
             smoothing,
+            axis=0,
             mode="nearest",
         )
 
-- 
2.43.0


From eb38934f06386b6b00bc573da04562497b10d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 09/39] fix: percentile cuts of integer values are not
 truncated to integers

---
 pyirf/cuts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 2f5c6d0..2c638ba 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -83,11 +83,13 @@ def calculate_percentile_cut(
         unit = fill_value.unit
         fill_value = fill_value.value
 
+    # percentiles of integer values are in general not integers
+    dtype = np.result_type(values.dtype, np.float32)
     percentile = np.asanyarray(percentile)
     if percentile.shape == ():
-        cut_table["cut"] = np.asanyarray(fill_value, values.dtype)
+        cut_table["cut"] = np.asanyarray(fill_value, dtype)
     else:
-        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=values.dtype)
+        cut_table["cut"] = np.full((n_bins, len(percentile)), fill_value, dtype=dtype)
 
     if unit is not None:
         cut_table["cut"].unit = unit
-- 
2.43.0


From 3db37506b746fc251a7924f21c07811262df1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 10/39] fix: compare_irf_cuts respects units and handles
 differing columns

---
 pyirf/cuts.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyirf/cuts.py b/pyirf/cuts.py
index 2c638ba..9273e33 100644
--- a/pyirf/cuts.py
+++ b/pyirf/cuts.py
@@ -206,7 +206,14 @@ def compare_irf_cuts(cuts):
     match: Boolean
         if the cuts are the same in all the files
     """
-    for i in range(len(cuts) - 1):
-        if (cuts[i] != cuts[i + 1]).any():
+    for current, following in zip(cuts[:-1], cuts[1:]):
+        if len(current) != len(following) or set(current.colnames) != set(following.colnames):
             return False
+
+        # compare per column, the comparison of whole tables ignores units
+        for col in current.colnames:
+            if current[col].shape != following[col].shape:
+                return False
+            if not np.all(current[col] == following[col]):
+                return False
     return True
-- 
2.43.0


From 8f1d4c5e1b256ad9637b38c87451e72b4b9058d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 11/39] fix: li_ma_significance is never nan and broadcasts its
 arguments

---
 pyirf/statistics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyirf/statistics.py b/pyirf/statistics.py
index 988bfd7..4c3e3e0 100644
--- a/pyirf/statistics.py
+++ b/pyirf/statistics.py
@@ -31,13 +31,14 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
         The calculated significance
     """
 
-    scalar = is_scalar(n_on)
+    scalar = is_scalar(n_on) and is_scalar(n_off) and is_scalar(alpha)
 
     # Cast everything into float64 to avoid numeric instabilties
     # when multiplying very small and very big numbers to get t1 and t2
     n_on = np.array(n_on, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
     n_off = np.array(n_off, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
-    alpha = np.float64(alpha)
+    alpha = np.array(alpha, copy=COPY_IF_NEEDED, ndmin=1, dtype=np.float64)
+    n_on, n_off, alpha = np.broadcast_arrays(n_on, n_off, alpha)
 
     with np.errstate(divide="ignore", invalid="ignore"):
         p_on = n_on / (n_on + n_off)
@@ -52,9 +53,10 @@ def li_ma_significance(n_on, n_off, alpha=0.2):
 
         ts = t1 + t2
 
-        significance = np.sqrt(ts * 2)
+        # rounding can make ts slightly negative close to n_on == alpha * n_off
+        significance = np.sqrt(np.maximum(ts * 2, 0))
 
-    significance[n_on < (alpha * n_off)] = 0
+    significance[n_on <= (alpha * n_off)] = 0
 
     if scalar:
         return significance[0]
-- 
2.43.0


From ac623e2c9305b3731fdaf6ab46584299866ecaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 12/39] fix: relative_sensitivity finds solutions outside of
 the initial search interval

---
 pyirf/sensitivity.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index c8873c8..de66991 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -24,6 +24,9 @@ __all__ = [
 
 log = logging.getLogger(__name__)
 
+#: Maximum number of times the initial search interval is enlarged by 10
+MAX_BRACKET_EXPANSIONS = 30
+
 
 def _relative_sensitivity(
     n_on,
@@ -64,6 +67,17 @@ def _relative_sensitivity(
             upper_bound = 100
             lower_bound = 1e-4
 
+        # the estimate may not enclose the solution, e.g. for few background events
+        for _ in range(MAX_BRACKET_EXPANSIONS):
+            if not equation(lower_bound) > 0:
+                break
+            lower_bound *= 0.1
+
+        for _ in range(MAX_BRACKET_EXPANSIONS):
+            if not equation(upper_bound) < 0:
+                break
+            upper_bound *= 10
+
         relative_flux = brentq(equation, lower_bound, upper_bound)
 
     except (RuntimeError, ValueError) as e:
-- 
2.43.0


From 9c0216c67c873edf46a1e1871b2c08903166b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 13/39] fix: relative_sensitivity supports empty arrays

---
 pyirf/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index de66991..93d0395 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -103,7 +103,7 @@ def _relative_sensitivity(
 
 
 _relative_sensitivity_vectorized = np.vectorize(
-    _relative_sensitivity, excluded=["significance_function"]
+    _relative_sensitivity, excluded=["significance_function"], otypes=[float]
 )
 
 
-- 
2.43.0


From 40797e4e45d1e2bf104b6ea35229266594dc1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 14/39] fix: integrate_cone keeps the bump of
 PowerLawWithExponentialGaussian

---
 pyirf/spectral.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyirf/spectral.py b/pyirf/spectral.py
index d8d66c0..f62b313 100644
--- a/pyirf/spectral.py
+++ b/pyirf/spectral.py
@@ -3,6 +3,7 @@ Functions and classes for calculating spectral weights
 """
 
 import sys
+from copy import copy
 from importlib.resources import as_file, files
 
 import astropy.units as u
@@ -171,11 +172,10 @@ class PowerLaw:
 
         solid_angle = cone_solid_angle(outer) - cone_solid_angle(inner)
 
-        return PowerLaw(
-            normalization=self.normalization * solid_angle,
-            index=self.index,
-            e_ref=self.e_ref,
-        )
+        # also keeps the additional parameters of subclasses
+        integrated = copy(self)
+        integrated.normalization = self.normalization * solid_angle
+        return integrated
 
 
 class LogParabola:
-- 
2.43.0


From 47a351d24294fb017ac453234ffa75729fb0fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 15/39] fix: optimize_cuts accepts theta cut efficiencies given
 as a list

---
 pyirf/cut_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index d8c1a51..dfdf4c4 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -72,6 +72,7 @@ def optimize_cuts(
     """
     gh_cut_efficiencies = np.asanyarray(gh_cut_efficiencies)
     gh_cut_percentiles = 100 * (1 - gh_cut_efficiencies)
+    theta_cut_efficiencies = np.asanyarray(theta_cut_efficiencies)
     fill_value = signal['gh_score'].max()
 
     sensitivities = []
-- 
2.43.0


From 6f52538cc8cfaa5408a1aab9092a1b7d81e260f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 16/39] fix: cut optimisation with particle types that do not
 survive every cut combination

---
 pyirf/cut_optimization.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyirf/cut_optimization.py b/pyirf/cut_optimization.py
index dfdf4c4..7c9930f 100644
--- a/pyirf/cut_optimization.py
+++ b/pyirf/cut_optimization.py
@@ -17,6 +17,20 @@ __all__ = [
 ]
 
 
+def _unify_columns(tables):
+    """
+    Give all tables the same columns in the same order
+
+    Tables only have count columns for particle types with at least one event
+    that survived the cuts, add the missing ones as 0.
+    """
+    colnames = list(dict.fromkeys(col for table in tables for col in table.colnames))
+    for table in tables:
+        for col in set(colnames) - set(table.colnames):
+            table[col] = 0.0
+    return [table[colnames] for table in tables]
+
+
 def optimize_cuts(
     signal,
     background,
@@ -182,6 +196,7 @@ def optimize_cuts(
     best_theta_cut["cut"].unit = theta_cuts["cut"].unit
     best_theta_cut["efficiency"] = np.nan
 
+    sensitivities = _unify_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
@@ -329,6 +344,7 @@ def optimize_gh_cut(
     best_cut_table["cut"] = np.nan
     best_cut_table["efficiency"] = np.nan
 
+    sensitivities = _unify_columns(sensitivities)
     best_sensitivity = sensitivities[0].copy()
     for bin_id in range(len(reco_energy_bins) - 1):
         sensitivities_bin = [s["relative_sensitivity"][bin_id] for s in sensitivities]
-- 
2.43.0


From d6785bdbbfa3bf6c096a320e5fc95ff0b6d42096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 17/39] fix: visible edges extrapolation of parameters with
 axes of length one

---
 pyirf/interpolation/visible_edges_extrapolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 114cc7c..2e1490c 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -186,7 +186,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
                     [
                         extrapolate2D(
                             self.triangulation.simplices[ind], target_point
-                        ).squeeze()
+                        )[0]
                         for ind in visible_simplices_indices
                     ]
                 )
-- 
2.43.0


From fd590d93100a042dc813969d91a817707a2cb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 18/39] fix: moment morph interpolation at the upper end of a
 1D grid

---
 pyirf/interpolation/moment_morph_interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 1388061..b38ab3f 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -304,6 +304,8 @@ class MomentMorphInterpolator(DiscretePDFInterpolator):
         on this subset.
         """
         target_bin = np.digitize(target_point.squeeze(), self.grid_points.squeeze())
+        # the last grid point belongs to the last segment
+        target_bin = min(target_bin, self.n_points - 1)
         segment_inds = np.array([target_bin - 1, target_bin], "int")
         coefficients = linesegment_1D_interpolation_coefficients(
             grid_points=self.grid_points[segment_inds],
-- 
2.43.0


From e1ef031ea9b76628e2226e61b62ba28c25e99e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 19/39] fix: moment morphing of templates with a single filled
 bin

---
 pyirf/interpolation/moment_morph_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index b38ab3f..6a1198b 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -45,9 +45,9 @@ def _estimate_mean_std(bin_edges, binned_pdf, normalization):
     )
 
     # Set std to 0.5*width for all those templates that have only one bin =/= 0. In those
-    # cases mids-mean = 0 and therefore std = 0. Uses the width of the one bin with
+    # cases mids-mean = 0 and therefore std = 0 (up to rounding). Uses the width of the one bin with
     # binned_pdf!=0
-    mask = std == 0
+    mask = np.count_nonzero(binned_pdf, axis=-1) == 1
     if np.any(mask):
         width = np.diff(bin_edges)
         # std of a uniform distribution inside the bin
-- 
2.43.0


From 2f9372e6e7bb0f3f4c2c8990000510c7cf07abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 20/39] fix: nearest neighbor search for one value per grid
 point

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index d1f368c..c791c61 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -47,6 +47,8 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
         super().__init__(grid_points)
 
         self.values = values
+        if self.values.ndim == 1:
+            self.values = self.values[..., np.newaxis]
 
         # Test wether norm_ord is a number
         try:
-- 
2.43.0


From 518f8949378f69675d1a6fb6d16965b8007ef65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 21/39] fix: nearest neighbor searchers do not return a view of
 their templates

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index c791c61..759e007 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -96,7 +96,8 @@ class BaseNearestNeighborSearcher(BaseInterpolator):
 
         index = np.argmin(distances)
 
-        return self.values[index, :]
+        # do not hand out a view into the stored templates
+        return self.values[index, :].copy()
 
 
 class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
-- 
2.43.0


From 822f15bb960556526e2d431b3d5670678a4891c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 22/39] fix: PSFTableEstimator works with the nearest neighbor
 searcher

---
 pyirf/interpolation/nearest_neighbor_searcher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/nearest_neighbor_searcher.py b/pyirf/interpolation/nearest_neighbor_searcher.py
index 759e007..722912a 100644
--- a/pyirf/interpolation/nearest_neighbor_searcher.py
+++ b/pyirf/interpolation/nearest_neighbor_searcher.py
@@ -5,6 +5,7 @@ from .base_interpolators import (
     BaseInterpolator,
     DiscretePDFInterpolator,
     ParametrizedInterpolator,
+    PDFNormalization,
 )
 
 __all__ = [
@@ -107,7 +108,14 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
     Compatible with discretized PDF IRF component API.
     """
 
-    def __init__(self, grid_points, bin_edges, binned_pdf, norm_ord=2):
+    def __init__(
+        self,
+        grid_points,
+        bin_edges,
+        binned_pdf,
+        norm_ord=2,
+        normalization=PDFNormalization.AREA,
+    ):
         """
         NearestNeighborSearcher compatible with discretized PDF IRF components API
 
@@ -126,6 +134,8 @@ class DiscretePDFNearestNeighborSearcher(BaseNearestNeighborSearcher):
             Order of the norm which is used to compute the distances,
             passed to numpy.linalg.norm [1]. Defaults to 2,
             which uses the euclidean norm.
+        normalization: PDFNormalization
+            How the PDF is normalized. Ignored for nearest neighbor searching.
 
         Notes
         -----
-- 
2.43.0


From bcb1b3a2e5b6bde58f8638fb79d9f663d3993bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 23/39] fix: PSFTableEstimator does not change the kwargs
 passed by the caller

---
 pyirf/interpolation/component_estimators.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 6f019af..fcc3768 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -813,11 +813,9 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
 
         psf = np.swapaxes(psf, axis, -1)
 
-        if interpolator_kwargs is None:
-            interpolator_kwargs = {}
-
-        if extrapolator_kwargs is None:
-            extrapolator_kwargs = {}
+        # do not change the dictionaries of the caller
+        interpolator_kwargs = dict(interpolator_kwargs or {})
+        extrapolator_kwargs = dict(extrapolator_kwargs or {})
 
         interpolator_kwargs.setdefault(
             "normalization", PDFNormalization.CONE_SOLID_ANGLE
-- 
2.43.0


From 11ef70585473ca158cddf3ab52d919abbfc4876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 24/39] fix: PSFTableEstimator works with moment morphing

---
 pyirf/interpolation/component_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index fcc3768..b7ec501 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -827,7 +827,7 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         super().__init__(
             grid_points=grid_points,
             bin_edges=source_offset_bins.to_value(u.rad),
-            binned_pdf=psf,
+            binned_pdf=psf.to_value(u.sr**-1),
             interpolator_cls=interpolator_cls,
             interpolator_kwargs=interpolator_kwargs,
             extrapolator_cls=extrapolator_cls,
-- 
2.43.0


From dd26241ce75820396c4e977cdd6d9acdd4631a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 25/39] fix: EffectiveAreaEstimator does not change the
 effective areas of the caller

---
 pyirf/interpolation/component_estimators.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index b7ec501..cf63ca2 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -434,10 +434,7 @@ class EffectiveAreaEstimator(ParametrizedComponentEstimator):
         self.min_effective_area = min_effective_area
 
         # remove zeros and log it
-        effective_area[effective_area < self.min_effective_area] = (
-            self.min_effective_area
-        )
-        effective_area = np.log(effective_area)
+        effective_area = np.log(np.maximum(effective_area, self.min_effective_area))
 
         super().__init__(
             grid_points=grid_points,
-- 
2.43.0


From be056d8b85bfcc1307706915dd3caa5a9cec85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 26/39] fix: axis order of nearest neighbor estimates of
 discrete PDFs

---
 pyirf/interpolation/component_estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index cf63ca2..5498ab8 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -720,7 +720,8 @@ class EnergyDispersionEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # estimates may lack the leading axis of the templates, count from the end
+        self.axis = axis if axis < 0 else axis - energy_dispersion.ndim
 
         super().__init__(
             grid_points=grid_points,
@@ -806,7 +807,8 @@ class PSFTableEstimator(DiscretePDFComponentEstimator):
         and pyirf.interpolation.ParametrizedEstimator
         """
 
-        self.axis = axis
+        # estimates may lack the leading axis of the templates, count from the end
+        self.axis = axis if axis < 0 else axis - psf.ndim
 
         psf = np.swapaxes(psf, axis, -1)
 
-- 
2.43.0


From ef2ea669ab317f6de73c290bd1d4fffe40901192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 27/39] fix: RadMaxEstimator matches fill values of unsorted 1D
 grids and 1D tables

---
 pyirf/interpolation/component_estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 5498ab8..59ab70c 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -535,7 +535,10 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             extrapolator_kwargs=extrapolator_kwargs,
         )
 
-        self.params = rad_max
+        # the grid is sorted in 1D and parameters have at least two dimensions
+        self.params = rad_max if rad_max.ndim > 1 else rad_max[:, np.newaxis]
+        if self.grid_dim == 1:
+            self.params = self.params[np.argsort(np.ravel(grid_points))]
 
         if fill_value is None:
             self.fill_val = None
-- 
2.43.0


From ea4232a822db7d9381da1b6d4766385c8dc2c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 28/39] fix: RadMaxEstimator with fill value at the upper end
 of a 1D grid

---
 pyirf/interpolation/component_estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 59ab70c..32987d3 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -616,6 +616,8 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
                 target_bin = np.digitize(
                     target_point.squeeze(), self.grid_points.squeeze()
                 )
+                # the last grid point belongs to the last segment
+                target_bin = min(target_bin, self.n_points - 1)
                 segment_inds = np.array([target_bin - 1, target_bin], "int")
 
             mask_left = self.params[segment_inds[0]] >= self.fill_val
-- 
2.43.0


From 093ea1ae093d123f4ec1a5022854cd2654ad2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 29/39] fix: RadMaxEstimator with fill value outside of a 2D
 grid

---
 pyirf/interpolation/component_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 32987d3..1a7cbe2 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -629,7 +629,9 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
             target_simplex = self.triangulation.find_simplex(target_point)
 
             if target_simplex == -1:
-                target_simplex = find_nearest_simplex(self.triangulation, target_point)
+                target_simplex = find_nearest_simplex(
+                    self.triangulation, target_point.squeeze()
+                )
 
             simplex_nodes_indices = self.triangulation.simplices[
                 target_simplex
-- 
2.43.0


From 75b41643fbba78268bafc7cb4628dc89dbe1fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 30/39] fix: RadMaxEstimator handles fill values when only the
 interpolator is a nearest neighbor search

---
 pyirf/interpolation/component_estimators.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pyirf/interpolation/component_estimators.py b/pyirf/interpolation/component_estimators.py
index 1a7cbe2..2e6c2bb 100644
--- a/pyirf/interpolation/component_estimators.py
+++ b/pyirf/interpolation/component_estimators.py
@@ -588,22 +588,15 @@ class RadMaxEstimator(ParametrizedComponentEstimator):
         # Complex setup is needed to catch settings where the user mixes approaches and
         # e.g. uses nearest neighbors for extrapolation and an actual interpolation otherwise
         if self.grid_dim == 1:
-            if (
-                (target_point < self.grid_points.min())
-                or (target_point > self.grid_points.max())
-            ) and issubclass(self.extrapolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
+            inside = (target_point >= self.grid_points.min()) and (
+                target_point <= self.grid_points.max()
+            )
         elif self.grid_dim == 2:
-            target_simplex = self.triangulation.find_simplex(target_point)
+            inside = self.triangulation.find_simplex(target_point) >= 0
 
-            if (target_simplex == -1) and issubclass(
-                self.extrapolator.__class__, BaseNearestNeighborSearcher
-            ):
-                return full_estimation
-            elif issubclass(self.interpolator.__class__, BaseNearestNeighborSearcher):
-                return full_estimation
+        estimator = self.interpolator if inside else self.extrapolator
+        if isinstance(estimator, BaseNearestNeighborSearcher):
+            return full_estimation
 
         # Actual fill-value handling
         if self.grid_dim == 1:
-- 
2.43.0


From 45bdd3e1d94bdba5a008167754fb983effb51aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 31/39] fix: quantile interpolation with bins of different
 width

---
 pyirf/interpolation/quantile_interpolator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyirf/interpolation/quantile_interpolator.py b/pyirf/interpolation/quantile_interpolator.py
index 9b3106a..95f6518 100644
--- a/pyirf/interpolation/quantile_interpolator.py
+++ b/pyirf/interpolation/quantile_interpolator.py
@@ -137,12 +137,15 @@ def norm_pdf(pdf_values, bin_edges, normalization):
     """
     Normalize binned_pdf to a sum of 1
     """
-    norm = np.sum(pdf_values, axis=-1)
+    # pdf_values are densities along the axis of the bin edges, the bins
+    # may be of different width
+    contents = pdf_values * np.diff(bin_edges)
+    norm = np.sum(contents, axis=-1)
     width = get_bin_width(bin_edges, normalization)
 
     # Norm all binned_pdfs to unity that are not empty
     normed_pdf_values = np.divide(
-        pdf_values,
+        contents,
         norm[..., np.newaxis] * width,
         out=np.zeros_like(pdf_values),
         where=norm[..., np.newaxis] != 0,
-- 
2.43.0


From f20bdbf43bee4c8d5e829a3592253393bd216272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 32/39] fix: visible edges extrapolation uses exactly the
 visible facets of the hull

---
 .../visible_edges_extrapolator.py             | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/pyirf/interpolation/visible_edges_extrapolator.py b/pyirf/interpolation/visible_edges_extrapolator.py
index 2e1490c..86bffa4 100644
--- a/pyirf/interpolation/visible_edges_extrapolator.py
+++ b/pyirf/interpolation/visible_edges_extrapolator.py
@@ -16,9 +16,8 @@ def find_visible_facets(grid_points, target_point):
     """
     Find all facets of a convex hull visible from an outside point.
     
-    To do so, this function constructs a triangulation containing
-    the target point and returns all facets that span a triangulation simplex with
-    it.
+    To do so, this function returns all facets of the triangulated grid's hull
+    that separate the target point from the simplex they belong to.
 
     Parameters
     ----------
@@ -34,29 +33,30 @@ def find_visible_facets(grid_points, target_point):
         L visible facets, spanned by a simplex in M-1 dimensions
         (thus a line for M=2)
     """
-    # Build a triangulation including the target point
-    full_set = np.vstack((grid_points, target_point))
-    triag = Delaunay(full_set)
-
-    # The target point is included in a simplex with all facets
-    # visible by it
-    simplices = triag.points[triag.simplices]
-    matches_target = np.all(simplices == target_point, axis=-1)
-    target_in_simplex = np.any(matches_target, axis=-1)
-
-    # The visible facets are spanned by those points in the matched
-    # simplices that are not the target
-    facet_point_mask = ~matches_target[target_in_simplex]
-    visible_facets = np.array(
-        [
-            triag.points[simplex[mask]]
-            for simplex, mask in zip(
-                triag.simplices[target_in_simplex], facet_point_mask
-            )
-        ]
-    )
+    triangulation = Delaunay(grid_points)
+    points = triangulation.points
+    simplices = triangulation.simplices
+    target = np.asarray(target_point, dtype=float).reshape(-1)
+
+    # A facet on the convex hull is visible if target and the remaining point of
+    # the simplex it belongs to lie on different sides of it
+    simplex_ind, opposite = np.nonzero(triangulation.neighbors == -1)
+    visible_facets = []
+    for ind, opp in zip(simplex_ind, opposite):
+        facet = sorted(np.delete(simplices[ind], opp))
+        A, B = points[facet]
+        C = points[simplices[ind, opp]]
+
+        edge, to_target, to_inside = B - A, target - A, C - A
+        side = edge[0] * to_target[1] - edge[1] * to_target[0]
+        inside = edge[0] * to_inside[1] - edge[1] * to_inside[0]
+        # points in line with a facet do not see it
+        in_line = 1e-12 * np.linalg.norm(edge) * np.linalg.norm(to_target)
+
+        if side * np.sign(inside) < -in_line:
+            visible_facets.append(facet)
 
-    return visible_facets
+    return points[np.array(sorted(visible_facets), dtype=int)]
 
 
 def compute_extrapolation_weights(visible_facet_points, target_point, m):
@@ -155,7 +155,7 @@ class ParametrizedVisibleEdgesExtrapolator(ParametrizedNearestSimplexExtrapolato
         elif self.grid_dim == 2:
             visible_facet_points = find_visible_facets(self.grid_points, target_point)
 
-            if visible_facet_points.shape[0] == 1:
+            if visible_facet_points.shape[0] <= 1:
                 return super().extrapolate(target_point)
             else:
                 simplices_points = self.triangulation.points[
-- 
2.43.0


From b7ef60f685a2b890c32861704bf520f6ca28de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 33/39] fix: migration matrix is zero for true energy bins
 without events in the dispersion

---
 pyirf/irf/energy_dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyirf/irf/energy_dispersion.py b/pyirf/irf/energy_dispersion.py
index f34c354..eb64462 100644
--- a/pyirf/irf/energy_dispersion.py
+++ b/pyirf/irf/energy_dispersion.py
@@ -189,8 +189,10 @@ def energy_dispersion_to_migration(
     )
 
     norm = np.sum(true_energy_interpolation, axis=1, keepdims=True)
-    norm[norm == 0] = 1
-    true_energy_interpolation /= norm
+    # without events, only rounding errors of the interpolation are left
+    empty = np.isclose(norm, 0, rtol=0, atol=1e-10)
+    norm[empty] = 1
+    true_energy_interpolation = np.where(empty, 0, true_energy_interpolation / norm)
 
     for idx, e_true in enumerate(
         (new_true_energy_edges[1:] + new_true_energy_edges[:-1]) / 2
-- 
2.43.0


From 9bd4869f24029991ccfc75a5623198cf7fdd1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 34/39] fix: number of showers of EventDisplay files overflows
 or is rounded

---
 pyirf/io/eventdisplay.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyirf/io/eventdisplay.py b/pyirf/io/eventdisplay.py
index a46054c..d20051e 100644
--- a/pyirf/io/eventdisplay.py
+++ b/pyirf/io/eventdisplay.py
@@ -59,8 +59,9 @@ def read_eventdisplay_fits(infile, use_histogram=True):
     n_runs = len(unique(events[['obs_id', 'pointing_az', 'pointing_alt']]))
     log.info(f"Estimated number of runs from obs ids and pointing position: {n_runs}")
 
-    n_showers_guessed = n_runs * run_header["num_use"] * run_header["num_showers"]
-    n_showers_hist = int(sim_events["EVENTS"].sum())
+    # convert to python int, the product does not fit into 32 bit
+    n_showers_guessed = n_runs * int(run_header["num_use"]) * int(run_header["num_showers"])
+    n_showers_hist = int(sim_events["EVENTS"].sum(dtype="float64"))
 
     if use_histogram:
         n_showers = n_showers_hist
-- 
2.43.0


From 4424b656191fbc66b9cdab24c39489e22608f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 35/39] fix: check_table reports columns without unit as having
 the wrong unit

---
 pyirf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index e1d41c6..cda7225 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -243,5 +243,6 @@ def check_table(table, required_columns=None, required_units=None):
                 raise MissingColumns(col)
 
             unit = table[col].unit
-            if not expected.is_equivalent(unit):
+            # columns without unit are dimensionless
+            if not expected.is_equivalent(u.one if unit is None else unit):
                 raise WrongColumnUnit(col, unit, expected)
-- 
2.43.0


From f2363cd75bbec7059e840e6364f6c6b6b3eeab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:05 +0000
Subject: [PATCH 36/39] fix: join_bin_lo_hi does not accept mismatching bins
 with small edges

---
 pyirf/binning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyirf/binning.py b/pyirf/binning.py
index 85143d4..b84c033 100644
--- a/pyirf/binning.py
+++ b/pyirf/binning.py
@@ -39,7 +39,11 @@ def join_bin_lo_hi(bin_lo, bin_hi):
         The joint bins
     """
 
-    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5):
+    # edges close to zero are compared in terms of the bin widths
+    width = np.abs(bin_hi - bin_lo)
+    width = width[np.isfinite(width)]
+    atol = 1e-8 * width.min() if width.size > 0 else 0
+    if np.allclose(bin_lo[..., 1:], bin_hi[..., :-1], rtol=1.0e-5, atol=atol):
         last_axis = len(bin_lo.shape) - 1
         bins = np.concatenate((bin_lo, bin_hi[..., -1:]), axis=last_axis)
         return bins
-- 
2.43.0


From 9e31a2a87e250dbb1520945d043a91122c42c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:56 +0000
Subject: [PATCH 37/39] fix: relative_sensitivity solves for the flux with
 relative accuracy

---
 pyirf/sensitivity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyirf/sensitivity.py b/pyirf/sensitivity.py
index 93d0395..3ec52c8 100644
--- a/pyirf/sensitivity.py
+++ b/pyirf/sensitivity.py
@@ -71,14 +71,17 @@ def _relative_sensitivity(
         for _ in range(MAX_BRACKET_EXPANSIONS):
             if not equation(lower_bound) > 0:
                 break
-            lower_bound *= 0.1
+            upper_bound, lower_bound = lower_bound, 0.1 * lower_bound
 
         for _ in range(MAX_BRACKET_EXPANSIONS):
             if not equation(upper_bound) < 0:
                 break
-            upper_bound *= 10
+            lower_bound, upper_bound = upper_bound, 10 * upper_bound
 
-        relative_flux = brentq(equation, lower_bound, upper_bound)
+        # the solution may be smaller than the default absolute tolerance
+        relative_flux = brentq(
+            equation, lower_bound, upper_bound, xtol=2e-12 * lower_bound, maxiter=1000
+        )
 
     except (RuntimeError, ValueError) as e:
         log.warning(
-- 
2.43.0


From b7c5d0d2fab86a8ab005a2108975769e45d6e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 38/39] fix: moment morphing of distributions over wide bins is
 not zero

---
 pyirf/interpolation/moment_morph_interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyirf/interpolation/moment_morph_interpolator.py b/pyirf/interpolation/moment_morph_interpolator.py
index 6a1198b..c70bdbf 100644
--- a/pyirf/interpolation/moment_morph_interpolator.py
+++ b/pyirf/interpolation/moment_morph_interpolator.py
@@ -209,7 +209,7 @@ def moment_morph_estimation(bin_edges, binned_pdf, coefficients, normalization):
     bin_mids = bin_center(bin_edges)
 
     # Catch all those templates, where at least one template histogram is all zeros.
-    zero_templates = ~np.all(~np.isclose(np.sum(binned_pdf, axis=-1), 0), 0)
+    zero_templates = ~np.all(np.any(binned_pdf != 0, axis=-1), 0)
 
     # Manipulate those templates so that computations pass without error
     binned_pdf[:, zero_templates] = np.full(len(bin_mids), 1 / len(bin_mids))
-- 
2.43.0


From ee4c291ff3236dcb372e34f7fc0606737e617107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:58 +0000
Subject: [PATCH 39/39] fix: cone_solid_angle keeps its accuracy for small
 angles

---
 pyirf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyirf/utils.py b/pyirf/utils.py
index cda7225..3baabb7 100644
--- a/pyirf/utils.py
+++ b/pyirf/utils.py
@@ -183,7 +183,8 @@ def cone_solid_angle(angle):
         Solid angle of a view cone with opening angle ``angle``.
 
     """
-    solid_angle = 2 * np.pi * (1 - np.cos(angle)) * u.sr
+    # 1 - cos(x) would lose all digits for small angles
+    solid_angle = 4 * np.pi * np.sin(angle / 2) ** 2 * u.sr
     return solid_angle
 
 
-- 
2.43.0


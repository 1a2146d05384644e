From a69532ba252e6718c4dba82006d926c389f895a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 01/18] fix: delta_pressure: thickness of the column when the
 surface lies in the top layer

---
 geocat/comp/meteorology.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..c43f0c2 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1247,9 +1247,13 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
         )
     ]  # delta p_k = p_{k+1/2} - p_{k-1/2}
 
-    delta_pressure[end_level] = (
-        surface_pressure - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
-    )  # bottom level
+    if end_level > start_level:
+        delta_pressure[end_level] = (
+            surface_pressure
+            - (pressure_lev[end_level] + pressure_lev[end_level - 1]) / 2
+        )  # bottom level
+    else:  # surface is within the top layer, which spans the whole column
+        delta_pressure[end_level] = surface_pressure - pressure_top
 
     # Return delta_pressure to original order
     if is_pressuredecreasing:
-- 
2.43.0


From 118db3d609c0f1fee23f8bc5154282c3fcb44967 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/18] fix: dewtemp, relhum: reject inputs whose shapes differ

---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index c43f0c2..994259d 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -283,7 +283,7 @@ def dewtemp(
     inputs = [temperature, relative_humidity]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("dewtemp: dimensions of inputs are not the same")
 
     # Get input types
@@ -562,7 +562,7 @@ def relhum(
     inputs = [temperature, mixing_ratio, pressure]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("relhum: dimensions of inputs are not the same")
 
     if not hasattr(temperature, 'clip'):
-- 
2.43.0


From b847e8b03264ebaaf1e0a416c666920dbad85722 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 03/18] fix: relhum: missing temperature gives a missing result
 instead of IndexError

---
 geocat/comp/meteorology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 994259d..7132ea7 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,8 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # missing temperatures stay missing in the result, but need a valid table index
+    it = np.nan_to_num(temperature - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From 79dc8ad4964e1e67caeddf790d714523a0136bb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/18] fix: fourier_filter: frequency resolution follows the
 length of time_axis

---
 geocat/comp/fourier_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..0a4b5cc 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,7 +126,7 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
+    resolution = frequency / np.shape(signal)[time_axis]
     signal = np.swapaxes(signal, time_axis, 0)
     res_fft = np.fft.fft(signal, axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
-- 
2.43.0


From 590ad8239e9476caacc37400def5bf632851b116 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 05/18] fix: fourier_filter: xarray input with time_axis other
 than 0

---
 geocat/comp/fourier_filters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 0a4b5cc..4b0a17d 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -127,8 +127,7 @@ def fourier_filter(
     >>> fig.show()
     """
     resolution = frequency / np.shape(signal)[time_axis]
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From d06945949ab225505ebbcd04d45fb4275b093814 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 06/18] fix: eofunc_eofs: meta=True no longer writes into the
 attrs of the input

---
 geocat/comp/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..de2f180 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -385,7 +385,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
-- 
2.43.0


From f4bd5d84e9c5d563764a9f57fa4e7fafd53df432 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:11 +0000
Subject: [PATCH 07/18] fix: eofunc_eofs, eofunc_pcs: accept a negative
 time_dim

---
 geocat/comp/stats.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index de2f180..6a9d683 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -220,9 +220,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
 
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
         dims_to_transpose = np.arange(data.ndim).tolist()
-        dims_to_transpose.insert(
-            0, dims_to_transpose.pop(dims_to_transpose.index(time_dim))
-        )
+        dims_to_transpose.insert(0, dims_to_transpose.pop(time_dim))
         data = np.transpose(data, axes=dims_to_transpose)
 
         dims = [f"dim_{i}" for i in range(data.ndim)]
@@ -392,6 +390,7 @@ def eofunc_eofs(
     attrs['totalAnomalyVariance'] = solver.totalAnomalyVariance()
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
+    time_dim = time_dim % data.ndim  # may be counted from the last dimension
     if meta:
         dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
         coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
-- 
2.43.0


From 029e31fec6a713447a06586e8ce6068d59cad313 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 08/18] fix: _find_var: search possible_names in order, not in
 hash order

---
 geocat/comp/gc_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..5036ce4 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,16 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        possible_names_expanded = []  # a list, to search in order of preference
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From d805de66c5610abedf4016441d04b50416c58538 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 09/18] fix: climate_anomaly: yearly anomalies of data spanning
 more than a century

---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From 3f714b2291d533448c4a910d3c16396ea060b68b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 10/18] fix: scale_voronoi: return a DataArray for DataArray
 input, as documented

---
 geocat/comp/spherical.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/spherical.py b/geocat/comp/spherical.py
index 35450f6..82ee4e1 100644
--- a/geocat/comp/spherical.py
+++ b/geocat/comp/spherical.py
@@ -223,7 +223,9 @@ def scale_voronoi(
         2-dimensional array containing the area of the spherical voronoi cell for each ``theta`` and ``phi`` pair.
     """
 
-    if type(theta) is xr.DataArray:
+    in_type = type(theta)
+    if in_type is xr.DataArray:
+        theta_dims = theta.dims
         theta = theta.to_numpy()
         phi = phi.to_numpy()
 
@@ -243,7 +245,7 @@ def scale_voronoi(
         ).calculate_areas()
     ).reshape(theta.shape)
 
-    if type(theta) is xr.DataArray:
-        scale = xr.DataArray(scale, dims=theta.dims)
+    if in_type is xr.DataArray:
+        scale = xr.DataArray(scale, dims=theta_dims)
 
     return scale
-- 
2.43.0


From ce8b3938158db8a922a6f2b1541d04a2ad03d263 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 11/18] fix: pearson_r: accept the documented xarray.Dataset
 inputs

---
 geocat/comp/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 6a9d683..a73bf7a 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -183,7 +183,9 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
         Pearson's correlation coefficient
     """
     # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    if not isinstance(a, (xr.DataArray, xr.Dataset)) and not isinstance(
+        b, (xr.DataArray, xr.Dataset)
+    ):
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
-- 
2.43.0


From 2664fb651ebf735a609ffae4eaebec985f0be9a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 12/18] fix: heat_index: missing values no longer defeat the
 humidity range check

---
 geocat/comp/meteorology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 7132ea7..8e3248b 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -398,7 +398,7 @@ def heat_index(
         )
 
     # check relative humidity within valid range 0 to 100
-    if relative_humidity.min() < 0 or relative_humidity.max() > 100:
+    if (relative_humidity < 0).any() or (relative_humidity > 100).any():
         raise ValueError(
             'heat_index: invalid values for relative humidity, expected all between 0 and 100'
         )
-- 
2.43.0


From cdb7ad27d10561c5bfe1931d85bb27abb5d65c3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 13/18] fix: interp_hybrid_to_pressure: values follow the
 requested level order

MetPy returns its results in the order of sorted levels, so with unsorted
new_levels the values were attached to the wrong levels.
---
 geocat/comp/interpolation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..58f04f3 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -664,6 +664,17 @@ def interp_hybrid_to_pressure(
     except ValueError as vexc:
         raise ValueError(vexc.args[0])
 
+    # MetPy returns its results in the order of sorted levels, so interpolate to
+    # sorted levels and restore the requested order
+    steps = np.diff(new_levels)
+    if not (np.all(steps >= 0) or np.all(steps <= 0)):
+        order = np.argsort(new_levels)
+        output = interp_hybrid_to_pressure(data, ps, hyam, hybm, p0,
+                                           np.take(new_levels, order), lev_dim,
+                                           method, extrapolate, variable, t_bot,
+                                           phi_sfc)
+        return output.isel(plev=np.argsort(order))
+
     interp_axis = data.dims.index(lev_dim)
 
     # Calculate pressure levels at the hybrid levels
-- 
2.43.0


From 7c864a2acc146917e538f753b4991916ccb97b07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 14/18] fix: interp_sigma_to_hybrid: output sized by the hybrid
 levels, integer data

With more hybrid than sigma levels the output array was too short and the
assignment failed; integer data truncated the interpolated values.
---
 geocat/comp/interpolation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 58f04f3..4d07905 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -839,6 +839,11 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    # The output has one floating point value per hybrid level, whatever the
+    # number and type of the values at the sigma levels
+    hlev_index = {lev_dim: np.zeros(len(hyam), dtype=int)}
+    out_dtype = np.result_type(data.dtype, np.float32)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -847,7 +852,7 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = data_stacked.isel(hlev_index).astype(out_dtype)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -860,7 +865,7 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
+        output = data.isel(hlev_index).astype(out_dtype)
         output[: len(hyam)] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
-- 
2.43.0


From 0ce61a14e0e387293925d2712fcb35c1cb715314 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 15/18] fix: fourier_filter: cut-offs above the Nyquist
 frequency

---
 geocat/comp/fourier_filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 4b0a17d..0979dc0 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -130,7 +130,9 @@ def fourier_filter(
     res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
-    cfh_index = m.ceil(cutoff_frequency_high / resolution)
+    # no frequency lies above the Nyquist frequency
+    cfh_index = min(m.ceil(cutoff_frequency_high / resolution),
+                    np.shape(signal)[time_axis] // 2 + 1)
     cfhn_index = 1 - cfh_index
     if low_pass:
         if cfl_index > 1:
-- 
2.43.0


From ce2a5a8ee78d71b7f2df92f7fad0ecf187396eb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 16/18] fix: daily and hourly climatologies with a February 29
 need a leap year for their time axis

---
 geocat/comp/climatologies.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..29e2473 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -647,7 +647,15 @@ def climatology_average(
 
     else:
         # Retrieve floor of median year
-        median_yr = np.median(dset[time_dim].dt.year.values)
+        years = dset[time_dim].dt.year.values
+        median_yr = np.round(np.median(years))
+
+        # A daily or hourly climatology with a February 29 needs a leap year to
+        # hold its time coordinate: take the one nearest to the median year
+        leap_days = (dset[time_dim].dt.month == 2) & (dset[time_dim].dt.day == 29)
+        if freq in {'hour', 'day'} and leap_days.any():
+            leap_years = years[leap_days.values]
+            median_yr = leap_years[np.abs(leap_years - median_yr).argmin()]
 
         # Group data by format then calculate average of groups
         dset = (
-- 
2.43.0


From f591819de9b3747686c02f9afbc0df7894686dda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 17/18] fix: pearson_r along an axis accepts lists like it does
 without an axis

---
 geocat/comp/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index a73bf7a..d349fd7 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -196,6 +196,12 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
             b = np.ravel(b)
             if weights is not None:
                 weights = np.ravel(weights)
+        else:
+            # lists are array-like as well
+            a, b, weights = (
+                x if x is None or hasattr(x, 'ndim') else np.asarray(x)
+                for x in (a, b, weights)
+            )
         try:
             return xs_internal._pearson_r(a, b, weights, axis, skipna)
         except ValueError:
-- 
2.43.0


From 3ef54b9713c3fce972186e42e3c559c9d96a2bf1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:54 +0000
Subject: [PATCH 18/18] fix: zonal_meridional_psi with a pressure coordinate
 not called plev

---
 geocat/comp/meteorology.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 8e3248b..a952ab8 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1517,7 +1517,12 @@ def zonal_meridional_psi(
 
     # zonal means
     da_v_zonal = ux_ipress.zonal_mean(lat=lat)
-    da_v_zonal['plev'] = ux_ipress[plev_coordname]
+    da_plev = ux_ipress[plev_coordname]
+    if plev_coordname != 'plev':
+        # the pressure dimension of the result is called 'plev'
+        da_v_zonal = da_v_zonal.rename({plev_coordname: 'plev'})
+        da_plev = da_plev.rename({plev_coordname: 'plev'})
+    da_v_zonal['plev'] = da_plev
     da_PS_zonal = uxds[surface_air_pressure_varname].zonal_mean(lat=lat)
 
     # Validate surface pressure before integration
-- 
2.43.0


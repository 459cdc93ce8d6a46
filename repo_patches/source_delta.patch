From 500caa52712ce438861d28342acf0885dbec3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 001/118] fix: use np.isin so create_obs works where np.in1d no
 longer exists

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a5abab6..c320243 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -127,7 +127,7 @@ def create_obs(
     # from the uvfits antenna table
     all_ants = np.hstack([params["antenna1"], params["antenna2"]])
     all_ants = np.unique(all_ants)
-    if not (np.all(np.in1d(all_ants, layout["antenna_numbers"]))):
+    if not (np.all(np.isin(all_ants, layout["antenna_numbers"]))):
         logger.warning("Antenna arrays contain number(s) not found in antenna table")
 
     # fhd expects antenna1 and antenna2 arrays containing indices that are one-indexed.
-- 
2.43.0


From 86bc16e5b7988380687102a90d0b5a0850fa2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 002/118] fix: copy auto-correlations of the model to the right
 baselines

Cross-correlation indices included the autos, and auto indices pointed into
the flag-filtered antenna list, so any model containing autos either crashed
or put the wrong baselines into the flagged model.
---
 PyFHD/source_modeling/vis_model_transfer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 0c73a24..59cd3c6 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -357,6 +357,10 @@ def flag_model_visibilities(
         )
         include_autos = False
 
+    # No auto-correlations in the data means there is nowhere to put the model's
+    if flaginfo_data.num_autos == 0:
+        include_autos = False
+
     # This is where the fun begins - pyuvdata uses the tile number as written
     # in the 'TILE' column in the metafits file to encode baselines (and so
     # populate params[antenna1] and params[antenna2]). The numbers are MWA
@@ -410,13 +414,16 @@ def flag_model_visibilities(
     # check for where there is non_zeros. This previously check where they didn't
     # match but that resulted in us getting the indexes of the antenna arrays rather
     # than the baseline indexes
-    include_cross_per_time = np.nonzero(include_per_time)[0]
+    include_cross_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time != flaginfo_model.ant2_single_time)
+    )[0]
 
     # To get indexes of auto-correlations to use, ensure ant1 == ant2
     # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.where(
-        flaginfo_model.ant1_single_time[include_per_time]
-        == flaginfo_model.ant2_single_time[include_per_time]
+    include_auto_per_time = np.nonzero(
+        include_per_time
+        & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
     )[0]
 
     # empty holder for the flagged model - this should be the same shape
-- 
2.43.0


From 3ab9439623ca50d787fd8380316e886c4cd8f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 003/118] fix: use a concrete integer dtype in calibration
 (np.integer is rejected by numpy)

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 205ded3..a7884f6 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -49,7 +49,7 @@ def vis_extract_autocorr(
     if autocorr_i.size > 0:
         auto_tile_i = obs["baseline_info"]["tile_a"][autocorr_i] - 1
         # As auto_tile_i is used for indexing we need to make it an integer array
-        auto_tile_i = auto_tile_i.astype(np.integer)
+        auto_tile_i = auto_tile_i.astype(np.int64)
         auto_tile_i_single = np.unique(auto_tile_i)
         # expect it as a list of 2D arrays, so there might be trouble
         if not pyfhd_config["cal_time_average"]:
@@ -361,7 +361,7 @@ def transfer_bandpass(
         time_integration = calfits[0].header["inttime"]
         freq_channel_width = calfits[0].header["chwidth"]
         x_orient = calfits[0].header["xorient"].strip()
-        data_dims = np.empty(naxis, dtype=np.integer)
+        data_dims = np.empty(naxis, dtype=np.int64)
         data_types = naxis * [""]
         for naxis_i in range(naxis):
             # Get the dimensions of the data
-- 
2.43.0


From 3cacccab91bcc4867777129f4d42332ddbdfb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 004/118] fix: evaluate the calibration polynomial fits with
 every coefficient at the fitted channels

---
 PyFHD/calibration/calibration_utils.py | 104 +++++++++++--------------
 1 file changed, 45 insertions(+), 59 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a7884f6..33de672 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -853,6 +853,15 @@ def vis_cal_bandpass(
     return cal_bandpass, cal_remainder
 
 
+def _polyfit_coef(x: NDArray, y: NDArray, deg: int) -> NDArray:
+    """
+    The deg + 1 coefficients (lowest order first) of the polynomial fit of y against x, numpy drops
+    the highest orders when they're exactly 0, so add them back.
+    """
+    coef = np.polynomial.Polynomial.fit(x, y, deg=deg).convert().coef
+    return np.pad(coef, (0, deg + 1 - coef.size))
+
+
 def vis_cal_polyfit(
     obs: dict,
     cal: dict,
@@ -921,11 +930,20 @@ def vis_cal_polyfit(
     # If you wish to find any steps that are outliers beyond 5sigma, and remove them add that code here.
     # The cal_step_fit option isn't in the eor_defaults_wrapper or defined in the FHD dictionary.
 
+    # Pre and post digital gain jump separately for highband MWA data
+    pre_dig_inds = np.where(obs["baseline_info"]["freq"][freq_use] < 187.515e6)
+    digital_gain_jump = pyfhd_config["digital_gain_jump_polyfit"]
+    if digital_gain_jump and not 0 < pre_dig_inds[0].size < freq_use.size:
+        logger.warning(
+            "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+        )
+        digital_gain_jump = False
+
     # Polynomial fitting over the frequency band
     gain_residual = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     # create amp_params with the shape of (n_pol, n_tile, amp_degree + 1)
     # If we're using the digital_gain_jump_polyfit add extra dimension to amp_params
-    if pyfhd_config["digital_gain_jump_polyfit"]:
+    if digital_gain_jump:
         cal["amp_params"] = np.empty(
             (
                 cal["n_pol"],
@@ -948,75 +966,43 @@ def vis_cal_polyfit(
         for tile_i in range(obs["n_tile"]):
             gain = np.squeeze(gain_amp[freq_use, tile_i])
             gain_fit = np.zeros(obs["n_freq"])
-            # Pre and post digital gain jump separately for highband MWA data
-            if pyfhd_config["digital_gain_jump_polyfit"]:
-                pre_dig_inds = np.where(
-                    obs["baseline_info"]["freq"][freq_use] < 187.515e6
+            if digital_gain_jump:
+                f_d = np.max(pre_dig_inds[0])
+                f_end = freq_use.size
+                fit_params1 = _polyfit_coef(
+                    freq_use[0 : f_d + 1],
+                    gain[0 : f_d + 1],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
                 )
-                if pre_dig_inds[0].size > 0:
-                    f_d = np.max(pre_dig_inds[0])
-                    f_end = freq_use.size
-                    fit_params1 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[0 : f_d + 1],
-                            gain[0 : f_d + 1],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
-                    )
-                    fit_params2 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[f_d + 1 : f_end],
-                            gain[f_d + 1 : f_end],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
-                    )
-                    for di in range(pyfhd_config["cal_amp_degree_fit"]):
-                        gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[f_d]) ** di
-                        )
-                        gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
-                            fit_params2[di]
-                            * (
-                                np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
-                                + freq_use[f_d + 1]
-                            )
-                            ** di
-                        )
-                    # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
-                    # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    fit_params = np.vstack([fit_params1, fit_params2])
-                    cal["amp_params"][pol_i, tile_i] = fit_params
-                else:
-                    logger.warning(
-                        "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
-                    )
+                fit_params2 = _polyfit_coef(
+                    freq_use[f_d + 1 : f_end],
+                    gain[f_d + 1 : f_end],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
+                )
+                pre_inds = np.arange(freq_use[0], freq_use[f_d] + 1)
+                post_inds = np.arange(freq_use[f_d + 1], freq_use[f_end - 1] + 1)
+                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                    gain_fit[pre_inds] += fit_params1[di] * pre_inds**di
+                    gain_fit[post_inds] += fit_params2[di] * post_inds**di
+                # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
+                # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
+                fit_params = np.vstack([fit_params1, fit_params2])
+                cal["amp_params"][pol_i, tile_i] = fit_params
             # Fit for amplitude
             else:
-                fit_params = (
-                    np.polynomial.Polynomial.fit(
-                        freq_use, gain, deg=pyfhd_config["cal_amp_degree_fit"]
-                    )
-                    .convert()
-                    .coef
+                fit_params = _polyfit_coef(
+                    freq_use, gain, pyfhd_config["cal_amp_degree_fit"]
                 )
                 cal["amp_params"][pol_i, tile_i, :] = fit_params
-                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
             gain_residual[pol_i, :, tile_i] = gain_amp[:, tile_i] - gain_fit
 
             # Fit for phase
             phase_use = np.unwrap(np.squeeze(gain_phase[freq_use, tile_i]))
-            phase_params = (
-                np.polynomial.Polynomial.fit(
-                    freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
-                )
-                .convert()
-                .coef
+            phase_params = _polyfit_coef(
+                freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
             )
             cal["phase_params"][pol_i, tile_i, :] = phase_params
             phase_fit = np.zeros(obs["n_freq"])
-- 
2.43.0


From c48f1b2556a486fdc853d8970ea72dbb94e55c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 005/118] fix: keep histogram inside its bins for NaN data and
 values at the upper edge

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 561cca7..7ee2044 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -100,10 +100,14 @@ def get_hist(
     # Now loop through the data
     for idx in range(data.size):
         # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        # (written so that NaN, which compares false, is outside)
+        if not (data[idx] >= min and data[idx] <= max):
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # The last bin holds everything up to and including the maximum
+        if bin_i > n:
+            bin_i = n
         # Add to the histogram
         hist[bin_i] += 1
     return hist
@@ -209,11 +213,15 @@ def get_ri(
     counter = 0
     for idx in range(data.size):
         # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        # (written so that NaN, which compares false, is outside)
+        if not (data[idx] >= min and data[idx] <= max):
             counter += 1
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # The last bin holds everything up to and including the maximum
+        if bin_i > n:
+            bin_i = n
         # Record the current index and update the tracking array
         ri[tracker[bin_i]] = idx
         tracker[bin_i] += 1
-- 
2.43.0


From 3f68d544b7f49bce9a84f23a245c7e1d7bfc0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 006/118] fix: match every value in array_match and return no
 index when nothing matches

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 51 ++++++--------------------------
 1 file changed, 9 insertions(+), 42 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 7ee2044..867ce68 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -735,21 +735,21 @@ def array_match(
     array_2: NDArray[np.integer | np.floating | np.complexfloating] | None = None,
 ) -> NDArray[np.int64]:
     """
-    TODO: Description for array match
+    Find the indices at which array_1 (or array_2, if supplied) holds any of the values of value_match
 
     Parameters
     ----------
     array_1: NDArray[np.int\_ | np.float\_ | np.complex\_]
-        TODO: Add Description for Array_1
+        The array to search
     value_match: NDArray[np.int\_ | np.float\_ | np.complex\_]
-        TODO: Add Description for Value_Match
+        The values to look for
     array_2: NDArray[np.int\_ | np.float\_ | np.complex\_] | None, optional
-        TODO: Add Description for Array_2, by default is None
+        A second array, the same size as array_1, to search as well, by default is None
 
     Returns
     -------
     match_indices: NDArray[np.int64]
-        TODO: Add Description for return of array_match
+        The indices of the matches in increasing order, empty if there aren't any
 
     Raises
     ------
@@ -758,44 +758,11 @@ def array_match(
     """
     if value_match is None:
         raise ValueError("Value Match Should be a value not None")
-    # If array_2 has been supplied, compare which mins and maxes to use based on two arrays
+    match = np.isin(array_1, value_match)
+    # If array_2 has been supplied an index matches if either array has one of the values there
     if array_2 is not None and np.size(array_2) > 0:
-        min_use = np.min([np.min(array_1), np.min(array_2)])
-        max_use = np.max([np.max(array_1), np.max(array_2)])
-        # Also compute the histogram for array_2
-        hist2, _, ri2 = histogram(array_2, min=min_use, max=max_use)
-    else:
-        # If the second array wasn't supplied
-        min_use = np.min(array_1)
-        max_use = np.max(array_1)
-        # Supply a second hist
-        hist2 = np.arange(max_use - min_use + 1)
-    # Get the histogram for the first
-    hist1, _, ri1 = histogram(array_1, min=min_use, max=max_use)
-    # Arrays should be the same size, does addition
-    hist_combined = hist1 + hist2
-    bins = np.where(hist_combined > 0)
-
-    # Select the values to be used
-    hist_v1, bins_v1, _ = histogram(bins + min_use)
-    omin = bins_v1[0]
-    omax = bins_v1[-1]
-    hist_v2, _, _ = histogram(value_match, min=omin, max=omax)
-    vals = np.nonzero(np.bitwise_and(hist_v1, hist_v2))[0] + omin - min_use
-    n_match = vals.size
-
-    if n_match == 0:
-        return -1
-
-    ind_arr = np.zeros_like(array_1)
-    for vi in range(n_match):
-        i = vals[vi]
-        if hist1[i] > 0:
-            ind_arr[ri1[ri1[i] : ri1[i + 1]]] = 1
-        if hist2[i] > 0:
-            ind_arr[ri2[ri2[i] : ri2[i + 1]]] = 1
-
-    match_indices = np.nonzero(ind_arr)[0]
+        match |= np.isin(array_2, value_match)
+    match_indices = np.nonzero(match)[0]
     # Return our matching indices
     return match_indices
 
-- 
2.43.0


From fc578c702a53286d45218c17ef368c338cf91dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 007/118] fix: take the middle element in idl_median for an odd
 number of values

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 867ce68..33684dc 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1355,7 +1355,8 @@ def idl_median(
         if even:
             return np.median(x)
         else:
-            med_index = int(np.ceil(len(x) / 2))
+            # IDL takes the upper of the two middle values for an even number of elements
+            med_index = len(x) // 2
 
             return np.sort(x)[med_index]
 
-- 
2.43.0


From c28c689c6668878d051c29670309547d1af9e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 008/118] fix: use every pair of time steps for the even/odd
 split

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 33684dc..687d9ab 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1218,7 +1218,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(obs["n_time"] // 2):
+    for t_i in range(2 * (obs["n_time"] // 2)):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
-- 
2.43.0


From a82ad0034289911c058f011198c7f021de3a2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 009/118] fix: keep cut and unpaired times out of the odd
 samples

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 687d9ab..be22266 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1238,7 +1238,11 @@ def split_vis_weights(
             if bin_i_cut.size > 0:
                 bin_i[bin_i_cut] = -1
 
-    bi_use = [np.where(bin_i % 2 == 0)[0], np.where(bin_i % 2 == 1)[0]]
+    # A cut or unpaired time has a bin of -1 (which NumPy would count as odd)
+    bi_use = [
+        np.where((bin_i >= 0) & (bin_i % 2 == 0))[0],
+        np.where((bin_i >= 0) & (bin_i % 2 == 1))[0],
+    ]
 
     # Here we ensure that both even and odd samples are the same size by
     # ensuring both arrays match the smallest size
-- 
2.43.0


From 4ae274288e0dccb348b79fe53bf84b6125347897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 010/118] fix: leave the visibility weights alone when
 calculating the noise

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index be22266..6cafbb2 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1297,7 +1297,8 @@ def vis_noise_calc(
         return noise_arr
 
     if bi_use is None:
-        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights)
+        # Work on a copy, estimating the noise must not change the weights
+        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights.copy())
     else:
         vis_weights_use = vis_weights
 
-- 
2.43.0


From 1a53a8c2df050b89351c604ed30a4450a2a5c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 011/118] fix: apply the w-term phase in the visibilities'
 (frequency, baseline) order

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 6cafbb2..aedd0df 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -977,10 +977,10 @@ def simple_deproject_w_term(
     """
 
     icomp = 1j
-    zcen = np.outer(params["ww"], obs["baseline_info"]["freq"])
+    zcen = np.outer(obs["baseline_info"]["freq"], params["ww"])
     sign = 1 if direction > 0 else -1
     phase = np.exp(direction * icomp * zcen)
-    vis_arr[: obs["n_pol"], :, :] *= np.tile(phase, (obs["n_pol"], 1))
+    vis_arr[: obs["n_pol"], :, :] *= phase
 
     sign_str = " +1" if sign > 0 else " -1"
     logger.info(f"Applying simple w-term deprojection:{sign_str}")
-- 
2.43.0


From 75dbd63df352c8d9268c9fab73d660f9f9630937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 012/118] fix: rebin single rows of 2D arrays and shapes that
 grow one axis while shrinking the other

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index aedd0df..ff617bc 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -558,6 +558,9 @@ def rebin(
         return a
     if len(old_shape) == 1:
         old_shape = (1, old_shape[0])
+    elif old_shape[0] == 1:
+        # A single row is treated as a 1D array
+        a = a[0]
     # Sample the original array using rebin
     if sample:
         # If its a 1D array then...
@@ -593,11 +596,11 @@ def rebin(
             raise ValueError("Your new shape should be a factor of the original shape")
         # If we are increasing the rows or columns and reducing the other, increase them now and change the old shape
         if shape[0] > old_shape[0]:
-            a = np.tile(a, (shape[0], 1))
-            old_shape = a.shape
+            a = rebin(a, (shape[0], old_shape[1]))
+            old_shape = (shape[0], old_shape[1])
         elif shape[1] > old_shape[1]:
-            a = np.tile(a, (1, shape[1]))
-            old_shape = a.shape
+            a = rebin(a, (old_shape[0], shape[1]))
+            old_shape = (old_shape[0], shape[1])
         # Create the shape we need (rows, rows that can fit in old_shape, cols, cols that can fit into old_shape)
         sh = shape[0], old_shape[0] // shape[0], shape[1], old_shape[1] // shape[1]
         # Create the 4D array
-- 
2.43.0


From 952c542436e3ccde29b4aa814bc7a747e6c9ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 013/118] fix: do not overwrite NaNs in the image given to
 region_grow

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index ff617bc..a185c83 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1462,7 +1462,7 @@ def region_grow(
         high = np.max(roi)
     # Replace all NaNs with Zeros
     nans = np.isnan(image)
-    image[nans] = 0
+    image = np.where(nans, 0, image)
     # Get all the values that are within the threshold
     threshArray = np.zeros_like(image)
     threshArray[np.where((image >= low) & (image <= high))] = 1
-- 
2.43.0


From 52321508f5d48d15c7ab82196101421909d30aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 014/118] fix: load scalar strings (h5py returns them as bytes,
 which have no dtype)

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 99f70d2..391a4bc 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -448,10 +448,10 @@ def load_dataset(
             value = dataset[()]
         else:
             value = dataset[:]
-        if value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
         if isinstance(value, bytes):
             value = value.decode()
+        elif value.dtype.kind == "S":
+            value = _decode_byte_arr(value)
         return value
 
 
-- 
2.43.0


From c19be21d17db2c4ee9d3758aaf458ccfab94eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 015/118] fix: save arrays of strings as UTF-8, which is how
 they are loaded

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 391a4bc..0d89d19 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -133,14 +133,14 @@ def format_array(array: NDArray[Any]) -> NDArray[Any]:
     # Got an error with the vectorized functions on empty arrays
     if array.size == 0 or array.dtype != object:
         if np.issubdtype(array.dtype, np.str_):
-            return array.astype(np.bytes_)
+            return np.char.encode(array, "utf-8")
         else:
             return array
     if np.any(_is_string(array)):
         # This avoids the np.where deprecation warning
         # Also replaces any None values in place, no copies of the array are made
         array[array == None] = ""
-        array = array.astype(bytes)
+        array = np.char.encode(array.astype(str), "utf-8")
     else:
         try:
             if array.dtype == object:
-- 
2.43.0


From c24d1d318f7e3a2d560b29310001f9f563bedcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 016/118] fix: save 0 dimensional arrays, NumPy strings and
 tuples of strings

---
 PyFHD/io/pyfhd_io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 0d89d19..6537b74 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -231,7 +231,10 @@ def save_dataset(
                     value[i] = format_array(arr)
                 value_dtype = variable_lengths[key]
             # If we want it to be chunked do that, always compress it
-            if key in to_chunk:
+            # (except for a 0 dimensional array, HDF5 can't compress those)
+            if value.ndim == 0:
+                h5py_obj.create_dataset(key, data=value, dtype=value_dtype)
+            elif key in to_chunk:
                 h5py_obj.create_dataset(
                     key,
                     shape=to_chunk[key]["shape"],
@@ -248,7 +251,7 @@ def save_dataset(
                     dtype=value_dtype,
                     compression="gzip",
                 )
-        case list():
+        case list() | tuple():
             # Was easier to convert to a NumPy array to get vectorization
             # Given that H5Py converts it into a NumPy array anyway, we can
             # at least control the conversion (if we need to)
@@ -278,8 +281,8 @@ def save_dataset(
             h5py_obj.create_dataset(
                 key, data=value, dtype=data_dtype, compression="gzip"
             )
-        case Path():
-            # If we find a Path object, convert it to a string
+        case Path() | np.str_():
+            # If we find a Path object or NumPy string, convert it to a string
             value = str(value)
             h5py_obj.create_dataset(key, data=value)
         case None:
-- 
2.43.0


From 003131688f68e6ae231adc6b32d6b835c5ff4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 017/118] fix: load files holding a single string array or a
 single sub dictionary

---
 PyFHD/io/pyfhd_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 6537b74..f5f046e 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -520,12 +520,13 @@ def load(
     if lazy_load:
         return h5_file
     try:
-        if len(h5_file.keys()) == 1:
+        keys = list(h5_file.keys())
+        if len(keys) == 1 and isinstance(h5_file[keys[0]], h5py.Dataset):
             # Assume that it contains only one numpy array, in which case read the array
-            key = list(h5_file.keys())[0]
+            key = keys[0]
             if logger:
                 logger.info(f"Loading {key} from {file_name} into an array")
-            array = h5_file[key][:]
+            array = load_dataset(h5_file, key, h5_file[key])
             return array
         else:
             return_dict = {}
-- 
2.43.0


From 5097123c0cc33510d575ba3dc5c4b5ff5e174e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 018/118] fix: never leave a half written file behind when
 saving is interrupted

---
 PyFHD/io/pyfhd_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index f5f046e..e3232cd 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -388,7 +388,10 @@ def save(
     """
     # Create a custom vectorized function to check for complex numbers
     # is_complex_vectorized = np.vectorize(is_complex)
-    with h5py.File(file_name, "w") as h5_file:
+    # Write to a temporary file first, so if PyFHD gets interrupted (or fails) while saving
+    # any file already at file_name is left as it was, rather than being half overwritten.
+    tmp_file = f"{file_name}.tmp"
+    with h5py.File(tmp_file, "w") as h5_file:
         match to_save:
             case np.ndarray():
                 if logger:
@@ -412,6 +415,7 @@ def save(
                     logger.warning(
                         "Not a dict or numpy array, PyFHD won't write other types at this time, refer to PyFHD.io.pyfhd_io.save to see what is supported"
                     )
+    os.replace(tmp_file, file_name)
 
 
 def load_dataset(
-- 
2.43.0


From 6b8f983f357a8d5a6ed1242be84c0a9d50c3484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 019/118] fix: load HDF5 files that were not written by PyFHD's
 save

---
 PyFHD/io/pyfhd_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index e3232cd..690dd31 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -448,7 +448,7 @@ def load_dataset(
     """
     # If the corresponding attribute is True set the current
     # key to None as its an empty dataset
-    if h5py_obj.attrs[key]:
+    if h5py_obj.attrs.get(key, False):
         return None
     else:
         if dataset.shape == ():
-- 
2.43.0


From 00a7c99906d152d1a4058f3887b0e33c740e58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 020/118] fix: notice write errors before replacing a saved
 file

---
 PyFHD/io/pyfhd_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 690dd31..45f5dc9 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -415,6 +415,8 @@ def save(
                     logger.warning(
                         "Not a dict or numpy array, PyFHD won't write other types at this time, refer to PyFHD.io.pyfhd_io.save to see what is supported"
                     )
+        # Write errors (e.g. a full disk) are raised here, but not when the file is closed
+        h5_file.flush()
     os.replace(tmp_file, file_name)
 
 
-- 
2.43.0


From cf37d1143560c011574744746fc42c75da81bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 021/118] fix: keep visibility axes of length one when reading
 uvfits data

---
 PyFHD/data_setup/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c38c33..0157c82 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -316,7 +316,10 @@ def extract_visibilities(
     extract_header : Extracts the header from the UVFITS file and returns the header and data
     """
 
-    data_array = np.squeeze(params_data["DATA"])
+    # Only remove the degenerate (declination, right ascension and IF) axes
+    data_array = params_data["DATA"]
+    degenerate = [i for i in range(1, data_array.ndim - 3) if data_array.shape[i] == 1]
+    data_array = np.squeeze(data_array, axis=tuple(degenerate))
     # Set the number of polarizations
     if pyfhd_config["n_pol"] == 0:
         n_pol = pyfhd_header["n_pol"]
-- 
2.43.0


From 0f9b93176368714c5746b51d8f37b7dec2eea303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 022/118] fix: accept BASELINE or DATE as the first uvfits
 group parameter and report them when missing

---
 PyFHD/data_setup/uvfits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 0157c82..f435f18 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -167,15 +167,17 @@ def extract_header(
     pyfhd_header["ant2_i"] = "ANTENNA2" in param_list
 
     if not pyfhd_header["ant1_i"] or not pyfhd_header["ant2_i"]:
-        pyfhd_header["baseline_i"] = param_list.index("BASELINE")
-        if not pyfhd_header["baseline_i"]:
+        if "BASELINE" in param_list:
+            pyfhd_header["baseline_i"] = param_list.index("BASELINE")
+        else:
             logger.error(
                 "Group parameter BASELINE (or ANTENNA1 and ANTENNA2) not found within uvfits params_header PTYPE keywords"
             )
             params_valid = False
 
-    pyfhd_header["date_i"] = param_list.index("DATE")
-    if not pyfhd_header["date_i"]:
+    if "DATE" in param_list:
+        pyfhd_header["date_i"] = param_list.index("DATE")
+    else:
         logger.error(
             "Group parameter DATE not found within uvfits params_header PTYPE keywords"
         )
-- 
2.43.0


From d07418dd0d7e48dc33f7a76836db5e1b41b99a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 023/118] fix: decode uvfits baselines when the first tile or
 the autos are missing

---
 PyFHD/data_setup/uvfits.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index f435f18..c52d911 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -263,18 +263,17 @@ def create_params(
             params["antenna2"] = params_data["ANTENNA2"]
         # Else calculate it from the baseline array
         else:
-            # Calculate antenna_mod_index to check for bad fits
             params["baseline_arr"] = params_data["BASELINE"]
-            baseline_min = np.min(params["baseline_arr"])
-            exponent = np.log(np.min(baseline_min)) / np.log(2)
-            antenna_mod_index = 2 ** np.floor(exponent)
-            tile_B_test = np.min(baseline_min) % antenna_mod_index
-            if tile_B_test > 1:
-                if baseline_min % 2 == 1:
-                    antenna_mod_index /= 2 ** np.floor(np.log(tile_B_test) / np.log(2))
+            # The uvfits convention is 256 * antenna1 + antenna2, or when there are
+            # more than 255 antennas 2048 * antenna1 + antenna2 + 65536
+            baseline_arr = params["baseline_arr"]
+            antenna_mod_index = 256
+            if np.min(baseline_arr) >= 65536:
+                baseline_arr = baseline_arr - 65536
+                antenna_mod_index = 2048
             # Tile numbers start from 1
-            params["antenna1"] = np.floor(params["baseline_arr"] / antenna_mod_index)
-            params["antenna2"] = np.fix(params["baseline_arr"] % antenna_mod_index)
+            params["antenna1"] = np.floor(baseline_arr / antenna_mod_index)
+            params["antenna2"] = np.fix(baseline_arr % antenna_mod_index)
 
     except KeyError as error:
         logger.error(
-- 
2.43.0


From 1dbd07a936955398630c9c734cc6fb0c20a35449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 024/118] fix: use the documented defaults when antenna table
 or site information is missing

---
 PyFHD/data_setup/uvfits.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index c52d911..2abb294 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -111,7 +111,7 @@ def extract_header(
             f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. If lon/lat/alt are not in the UVFITS things will fail."
         )
         # Can also do MWA or Murchison Widefield Array
-        location = EarthLocation("mwa")
+        location = EarthLocation.of_site("mwa")
 
     try:
         pyfhd_header["lon"] = params_header["lon"]
@@ -498,6 +498,7 @@ def create_layout(
             logger.warning(
                 "Number of Leap Seconds is missing and the time system isn't IAT so we can't know the leap seconds, setting as -1"
             )
+            layout["nleap_sec"] = -1
 
     # Polarization Type
     try:
@@ -536,10 +537,10 @@ def create_layout(
     try:
         layout["antenna_numbers"] = antenna_data["nosta"]
     except KeyError:
-        layout.warning(
+        logger.warning(
             "Antenna Numbers missing replacing with an array of numbers of range 1: n_antenna"
         )
-        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"])
+        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"] + 1)
 
     # Antenna Coordinates
     try:
-- 
2.43.0


From d79ee805d1ab499675f2377c5e462b85c77f0d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 025/118] fix: exit with an error status when the uvfits data
 cannot be used

---
 PyFHD/data_setup/uvfits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 2abb294..283f1e4 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -6,6 +6,7 @@ from astropy.io.fits.fitsrec import FITS_rec
 from astropy.io.fits.header import Header
 from pathlib import Path
 import logging
+import sys
 from astropy.coordinates import EarthLocation
 import astropy
 from PyFHD.io.pyfhd_io import save
@@ -279,7 +280,7 @@ def create_params(
         logger.error(
             f"Validation efforts failed, key not found in data, Traceback : {error}"
         )
-        exit()
+        sys.exit(1)
 
     return params
 
@@ -329,7 +330,7 @@ def extract_visibilities(
 
     if data_array.ndim > 4:
         logger.error("No current support for PyFHD to support spectral dimensions yet")
-        exit()
+        sys.exit(1)
     else:
         polarizations = np.arange(n_pol)
         vis_arr = data_array[
-- 
2.43.0


From 2343b1e5209e0e0b5d704375bf6a59247f0b992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 026/118] fix: let FoV determine the uv pixel size as
 documented

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c320243..6c61b30 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -162,9 +162,9 @@ def create_obs(
     max_baseline = max(np.max(np.abs(kx_arr)), np.max(np.abs(ky_arr)))
 
     # Determine the imaging parameters to use
-    if pyfhd_config["FoV"] is not None:
+    if pyfhd_config["FoV"]:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
-    if pyfhd_config["kbinsize"] is None:
+    elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
     else:
         obs["kpix"] = pyfhd_config["kbinsize"]
-- 
2.43.0


From 65f8ed0db7a995a390a4d051c7901436be1c6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 027/118] fix: derive the image dimension and pixel size when
 dimension is not configured

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 6c61b30..dc43b28 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -172,7 +172,7 @@ def create_obs(
     # Determine observation resolution/extent parameters given number of pixels in x direction (dimension)
     if pyfhd_config["dimension"] is None and pyfhd_config["elements"] is None:
         obs["dimension"] = 2 ** int(
-            (log10((2 * max_baseline) / pyfhd_config["kpix"]) / log10(2))
+            (log10((2 * max_baseline) / obs["kpix"]) / log10(2))
         )
         obs["elements"] = obs["dimension"]
     elif pyfhd_config["dimension"] is not None and pyfhd_config["elements"] is None:
@@ -187,7 +187,7 @@ def create_obs(
     # Ensure both dimension and elements are ints to prevent issues down the pipeline
     obs["dimension"] = int(obs["dimension"])
     obs["elements"] = int(obs["elements"])
-    obs["degpix"] = (180 / pi) / (obs["kpix"] * pyfhd_config["dimension"])
+    obs["degpix"] = (180 / pi) / (obs["kpix"] * obs["dimension"])
 
     # Set the max and min baseline
     max_baseline_inds = np.where(
-- 
2.43.0


From d27cc833b629dc7b76e2eb3661a78928ec2e6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 028/118] fix: map every antenna number to its own index, not
 through other antennas

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index dc43b28..80be9cf 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -95,8 +95,8 @@ def create_obs(
 
     antenna_flag = True
     if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
-        baseline_info["tile_a"] = params["antenna1"]
-        baseline_info["tile_b"] = params["antenna2"]
+        baseline_info["tile_a"] = np.array(params["antenna1"])
+        baseline_info["tile_b"] = np.array(params["antenna2"])
         antenna_flag = False
     if antenna_flag:
         # 256 tile upper limit is hard-coded in CASA format
-- 
2.43.0


From e43768d19c6a1991ab2426c23e4116c45497a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 029/118] fix: cut the requested seconds from the start and end
 with time_cut

---
 PyFHD/data_setup/obs.py          | 16 +++++-----------
 PyFHD/pyfhd_tools/pyfhd_setup.py |  3 ++-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 80be9cf..e3edeb9 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -208,21 +208,15 @@ def create_obs(
     # time cut is specified in seconds to cut (rounded up to next time integration point).
     # Specify negative time_cut to cut time off the end. Specify a vector to cut at both the start and end
     if pyfhd_config["time_cut"] is not None:
-        time_cut = pyfhd_config["time_cut"]
-        for ti in time_cut:
+        time_cut = np.atleast_1d(pyfhd_config["time_cut"]).astype(np.float64)
+        for ti in range(time_cut.size):
+            n_cut = int(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]))
             if time_cut[ti] < 0:
-                ti_start = min(
-                    obs["n_time"]
-                    - max(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]), 0),
-                    obs["n_time"] - 1,
-                )
+                ti_start = max(obs["n_time"] - n_cut, 0)
                 ti_end = obs["n_time"] - 1
             else:
                 ti_start = 0
-                ti_end = min(
-                    np.ceil(np.abs(time_cut[ti])) / meta["time_res"] - 1,
-                    obs["n_time"] - 1,
-                )
+                ti_end = min(n_cut - 1, obs["n_time"] - 1)
             if ti_end >= ti_start:
                 baseline_info["time_use"][ti_start : ti_end + 1] = 0
     obs["n_time_flag"] = obs["n_time"] - np.sum(baseline_info["time_use"])
diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index c84f8a2..e77de3c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -514,7 +514,8 @@ def pyfhd_parser():
     )
     flag.add_argument(
         "--time-cut",
-        type=list,
+        type=float,
+        nargs="+",
         default=None,
         help="Seconds to cut (rounded up to next time integration step) from the beginning of the observation. Can also specify a negative time to cut off the end of the observation. Specify a vector to cut at both the start and end.",
     )
-- 
2.43.0


From 744c2d0e72278ca364c95a6dec3d9004fe28121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 030/118] fix: stop with an error status when the metafits
 flags all tiles

---
 PyFHD/data_setup/obs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index e3edeb9..0852cf0 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -1,5 +1,6 @@
 import numpy as np
 import logging
+import sys
 from math import pi, log10
 from PyFHD.pyfhd_tools.pyfhd_utils import (
     idl_argunique,
@@ -313,12 +314,12 @@ def read_metafits(
         meta["tile_names"] = data["tile"][single_i]
         meta["tile_height"] = data["height"][single_i] - pyfhd_header["alt"]
         meta["tile_flag"] = data["flag"][single_i]
-        if np.sum(meta["tile_flag"]) == meta["tile_flag"].size - 1:
+        if np.sum(meta["tile_flag"]) >= meta["tile_flag"].size - 1:
             if pyfhd_config["run_simulation"]:
                 logger.warning("All tiles flagged in metadata")
             else:
                 logger.error("All tiles flagged in metadata")
-                exit()
+                sys.exit(1)
         meta["obsra"] = hdr["RA"]
         meta["obsdec"] = hdr["DEC"]
         meta["phasera"] = hdr["RAPHASE"]
-- 
2.43.0


From 3d18c18580986c0c3c5e0ec22d41f9b011021d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 031/118] fix: allow observations without a metafits file

---
 PyFHD/data_setup/obs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 0852cf0..a501c8f 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -330,6 +330,7 @@ def read_metafits(
         logger.warning(
             "METAFITS file has not been found, Calculating obs meta settings from the uvfits header instead"
         )
+        hdr, data = {}, None
         # Simulate the flagging of tiles by taking where tiles don't exist
         tile_A1 = params["antenna1"]
         tile_B1 = params["antenna2"]
-- 
2.43.0


From 66fa44f8f67cc73635af5d0959d0441eda694432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 032/118] fix: keep the last frequency bin in update_obs

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a501c8f..19a4bcb 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -521,7 +521,7 @@ def update_obs(
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
-    for bin in range(freq_hist.size - 1):
+    for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
     # Adjust the obs dictionary based on the new dimension and kbinsize
-- 
2.43.0


From 0f832de36702448967db6346631d73c5649b9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 033/118] fix: do not alter the observation when making an
 updated copy of it

---
 PyFHD/data_setup/obs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 19a4bcb..09f4f2a 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -1,5 +1,6 @@
 import numpy as np
 import logging
+from copy import deepcopy
 import sys
 from math import pi, log10
 from PyFHD.pyfhd_tools.pyfhd_utils import (
@@ -524,6 +525,8 @@ def update_obs(
     for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
+    # Leave the observation dictionary given as it was
+    obs = deepcopy(obs)
     # Adjust the obs dictionary based on the new dimension and kbinsize
     obs["dimension"] = dimension
     obs["elements"] = dimension
-- 
2.43.0


From 66714d81b1e4fdcdf2465a8a005de9ca2cabec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 034/118] fix: add both DATE group parameters of a uvfits file
 together

---
 PyFHD/data_setup/uvfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 283f1e4..04db4e2 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -257,6 +257,9 @@ def create_params(
         params["ww"] = params_data["WW"].astype(np.float64)
         # Astropy has already normalized the values by PZEROx, time in Julian
         params["time"] = params_data["DATE"]
+        # When DATE is given twice, Astropy names the second _DATE and the time is their sum
+        if "_DATE" in params_data.dtype.names:
+            params["time"] = params["time"] + params_data["_DATE"]
         # Get baseline and antenna arrays
         # The antenna arrays already exist then take those
         if pyfhd_header["ant1_i"] and pyfhd_header["ant2_i"]:
-- 
2.43.0


From a38c3c9c570d26e5066cfb5ef8df3cdb307c0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 035/118] fix: allow observations of a single time step

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 09f4f2a..5b38a02 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -67,7 +67,7 @@ def create_obs(
     if obs["n_time"] > 1:
         bin_width[0 : obs["n_time"]] = b0i + 1
     else:
-        bin_width = time.size
+        bin_width[0] = time.size
     b0i_range = np.arange(1, obs["n_time"])
     bin_width[b0i_range] = b0i[b0i_range] - b0i[b0i_range - 1]
     baseline_info["bin_offset"] = np.zeros(obs["n_time"], dtype=np.int64)
-- 
2.43.0


From dca9e399521419fde13946fcbc8ea892879f4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 036/118] fix: give the parallactic angle its quadrant

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index a185c83..d6ccffb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -949,7 +949,7 @@ def parallactic_angle(latitude: float, hour_angle: float, dec: float) -> float:
     x_term = np.cos(np.radians(dec)) * np.tan(np.radians(latitude)) - np.sin(
         np.radians(dec)
     ) * np.cos(np.radians(hour_angle))
-    return np.degrees(np.arctan(y_term / x_term))
+    return np.degrees(np.arctan2(y_term, x_term))
 
 
 def simple_deproject_w_term(
-- 
2.43.0


From 217d20e61bd55e4d482ae2c9e4a6f63090124394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 037/118] fix: flag the named tiles, and only those, in
 vis_flag_tiles

---
 PyFHD/flagging/flagging.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index d876691..4438c01 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -1,7 +1,7 @@
 import numpy as np
 from numpy.typing import NDArray, ArrayLike
 from logging import Logger
-from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, histogram
+from PyFHD.pyfhd_tools.pyfhd_utils import idl_median
 
 
 def vis_flag_tiles(
@@ -30,34 +30,21 @@ def vis_flag_tiles(
     flagged_vis_weight_arr: NDArray[np.float64]
         A vis_weight_arr where the tiles to flag have been set to 0
     """
-    tile_flag_list_use = np.array([], dtype=np.int64)
+    tile_names = np.char.strip(np.asarray(obs["baseline_info"]["tile_names"]).astype(str))
+    tile_flag_list_use = []
     for flag in tiles_to_flag:
-        if type(flag) == str and flag.strip() in obs["baseline_info"]["tile_names"]:
+        flag_idx = np.where(tile_names == str(flag).strip())[0]
+        if flag_idx.size > 0:
             logger.info(f"Manually flagging tile {flag}")
-            flag_idx = np.where(obs["baseline_info"]["tile_names"] == flag.strip())[0][
-                0
-            ]
-            tile_flag_list_use.append(flag_idx + 1)
+            tile_flag_list_use.append(flag_idx[0] + 1)
         else:
             logger.warning(
                 f"{flag} wasn't found in obs['baseline_info']['tile_names'], skipping it"
             )
-    hist_a, _, ra = histogram(obs["baseline_info"]["tile_a"], min=1)
-    hist_b, _, rb = histogram(obs["baseline_info"]["tile_b"], min=1)
-    hist_c, _, _ = histogram(tile_flag_list_use, min=1)
-    # hist_A and hist_b should be the same size
-    hist_ab = hist_a + hist_b
-    n_bin = min(np.size(hist_ab), np.size(hist_c))
-    tile_cut_i = np.where((hist_ab[0:n_bin] > 0) | (hist_c[0:n_bin] > 0))[0]
-    if np.size(tile_cut_i) > 0:
-        for cut_idx in range(np.size(tile_cut_i)):
-            ti = tile_cut_i[cut_idx]
-            na = ra[ra[ti + 1] - 1] - ra[ra[ti]]
-            if na > 0:
-                vis_weight_arr[:, :, ra[ra[ti] : ra[ti + 1] - 1]] = 0
-            nb = rb[rb[ti + 1] - 1] - rb[rb[ti]]
-            if nb > 0:
-                vis_weight_arr[:, :, rb[rb[ti] : rb[ti + 1] - 1]] = 0
+    bi_cut = np.isin(obs["baseline_info"]["tile_a"], tile_flag_list_use) | np.isin(
+        obs["baseline_info"]["tile_b"], tile_flag_list_use
+    )
+    vis_weight_arr[:, :, bi_cut] = 0
     return vis_weight_arr
 
 
-- 
2.43.0


From 7a6b9aeb129a31649878698b7c8c0e64c05fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 038/118] fix: flag every baseline of the cut times in
 vis_flag_basic

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 4438c01..b27b883 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -176,7 +176,7 @@ def vis_flag_basic(
         time_bin = np.zeros(np.size(obs["baseline_info"]["tile_a"]))
         for ti in range(obs["n_time"]):
             if obs["baseline_info"]["time_use"][ti] <= 0:
-                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1] - 1] = 0
+                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1]] = 0
 
     tile_use_indexes = np.where((tile_use) & (obs["baseline_info"]["tile_use"]))[0]
     tile_use_zeros = np.zeros_like(obs["baseline_info"]["tile_use"])
-- 
2.43.0


From 57f37f13ae7e091f71fc4789e655ce261b94c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 039/118] fix: flag coarse channel edges for any channel width

---
 PyFHD/flagging/flagging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index b27b883..f7816b8 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -114,9 +114,9 @@ def vis_flag_basic(
     # If you wish to implement flagging for mwa when it had 32 tiles, do that here
     # Flagging based on channel width
     if pyfhd_config["flag_frequencies"]:
-        freq_avg = 768 // obs["n_freq"]
+        freq_avg = 768 / obs["n_freq"]
         channel_edge_flag_width = np.ceil(2 / freq_avg)
-        coarse_channel_width = 32 // freq_avg
+        coarse_channel_width = max(int(np.round(32 / freq_avg)), 1)
         fine_channel_i = np.arange(obs["n_freq"]) % coarse_channel_width
         channel_edge_flag = np.where(
             np.minimum(fine_channel_i, (coarse_channel_width - 1) - fine_channel_i)
-- 
2.43.0


From c153d1a505689601aa49450aba724e46463959c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 040/118] fix: make statistical flagging run and exclude
 outliers from its second pass

---
 PyFHD/flagging/flagging.py | 10 +++++-----
 PyFHD/pyfhd.py             |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index f7816b8..8b672ba 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -240,7 +240,7 @@ def vis_flag(
     if cut_baselines_i.size > 0:
         vis_weights[: obs["n_pol"], :, cut_baselines_i] = 0
 
-    tile_fom = np.empty(n_tiles_use)
+    tile_fom = np.zeros(n_tiles_use)
     for tile_i in range(n_tiles_use):
         tile_ai = np.where((obs["baseline_info"]["tile_a"] - 1) == tile_i)
         tile_bi = np.where((obs["baseline_info"]["tile_b"] - 1) == tile_i)
@@ -279,10 +279,10 @@ def vis_flag(
 
     # We actually want the complements of the where from IDL translation, adjusted conditions accordingly
     tile_cut0 = np.where(
-        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) | (tile_fom != 0)
+        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) & (tile_fom != 0)
     )[0]
     freq_cut0 = np.where(
-        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) | (freq_fom != 0)
+        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) & (freq_fom != 0)
     )[0]
     tile_mean2 = idl_median(tile_fom[tile_cut0])
     tile_dev2 = np.std(tile_fom[tile_cut0])
@@ -329,7 +329,7 @@ def vis_flag(
     time_mean = idl_median(time_fom[time_nonzero])
     time_dev = np.std(time_fom[time_nonzero])
     time_cut0 = np.where(
-        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) | (time_fom != 0)
+        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) & (time_fom != 0)
     )
     time_mean2 = idl_median(time_fom[time_cut0])
     time_dev2 = np.std(time_fom[time_cut0])
@@ -337,7 +337,7 @@ def vis_flag(
         (np.abs(time_mean2 - time_fom) > 2 * flag_nsigma * time_dev2) | (time_fom == 0)
     )[0]
     for ti in range(time_cut.size):
-        ti_cut = np.where(time_bin == time_cut[ti])
+        ti_cut = np.where(time_bin == time_cut[ti])[0]
         if ti_cut.size > 0:
             vis_weights[: obs["n_pol"], :, ti_cut] = 0
 
diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 063bbb3..a851d98 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -304,7 +304,9 @@ def main():
 
             if pyfhd_config["flag_visibilities"]:
                 flag_start = time.time()
-                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params)
+                vis_weights, obs = vis_flag(
+                    vis_arr, vis_weights, obs, params, logger
+                )
                 flag_end = time.time()
                 _print_time_diff(flag_start, flag_end, "Visibilities Flagged", logger)
 
-- 
2.43.0


From 24bf9f78216fd118f61246ab2216fe314c6cef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 041/118] fix: update the flag counts when every visibility is
 flagged

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d6ccffb..d1c68a5 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1175,6 +1175,10 @@ def vis_weights_update(
         xmin[flag_i] = -1
         ymin[flag_i] = -1
 
+    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
+    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
+    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
+
     if min(np.max(xmin), np.max(ymin)) < 0:
         obs["n_vis"] = 0
         return vis_weights, obs
@@ -1182,10 +1186,6 @@ def vis_weights_update(
     bin_n, _, _ = histogram(xmin + ymin * obs["dimension"], min=0)
     obs["n_vis"] = np.sum(bin_n)
 
-    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
-    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
-    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
-
     return vis_weights, obs
 
 
-- 
2.43.0


From 16c2641e2940634e4b488b9fab3cf545ae1672a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 042/118] fix: keep the last pair of times in the even/odd
 split when the first time is cut

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d1c68a5..d1d457a 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1221,7 +1221,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(2 * (obs["n_time"] // 2)):
+    for t_i in range(obs["n_time"]):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
-- 
2.43.0


From 458680154424efaf8323fd883e39e9850f8937aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 043/118] fix: extract the auto-correlations of a single time
 step with cal_time_average

---
 PyFHD/calibration/calibration_utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 33de672..3a8bdb3 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -83,9 +83,7 @@ def vis_extract_autocorr(
                         )
 
                     else:
-                        auto_single[:, tile_i] = auto_vals[:, baseline_i][
-                            np.arange(obs["n_freq"]), :
-                        ]
+                        auto_single[:, tile_i] = auto_vals[:, baseline_i[0]]
                 auto_vals = auto_single
             auto_corr[pol_i, :, :] = auto_vals
         if pyfhd_config["cal_time_average"]:
-- 
2.43.0


From 7a88a76536a0292800d52f06a6b7bb1b42e122ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 044/118] fix: fit cable reflections from files, nominal modes
 and delay spectra

---
 PyFHD/calibration/calibration_utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 3a8bdb3..6033382 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1031,12 +1031,11 @@ def vis_cal_polyfit(
             tile_phase_Y = cable_reflections[10]
 
             # Modes in fourier transform units
-            mode_i_arr = np.zeros((cal["n_pol"], obs["n_tile"]))
-            mode_i_arr[0, :] = tile_mode_X * tile_ref_flag
-            mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
+            mode_i_arr = np.vstack([tile_mode_X, tile_mode_Y])[: cal["n_pol"]]
+            mode_i_arr = mode_i_arr * tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
-            phase_arr = np.vstack[[tile_phase_X, tile_phase_Y]]
+            phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
 
         elif pyfhd_config["cal_reflection_mode_theory"]:
             logger.info(
@@ -1080,7 +1079,7 @@ def vis_cal_polyfit(
             for pol_i in range(cal["n_pol"]):
                 for ti in range(tile_use.size):
                     tile_i = tile_use[ti]
-                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, tile_i]))
+                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, :, tile_i]))
                     mode_test += spec0[spec_inds]
             psf_mask = np.zeros(obs["n_freq"] // 2)
 
@@ -1114,7 +1113,7 @@ def vis_cal_polyfit(
                 tile_ref_flag[cable_cut] = 0
             mode_i_arr *= tile_ref_flag
 
-        cal["mode_params"] = np.empty([cal["n_pol"], obs["n_tile"], 3])
+        cal["mode_params"] = np.zeros([cal["n_pol"], obs["n_tile"], 3])
         for pol_i in range(cal["n_pol"]):
             # Divide the polyfit to reveal the residual cable reflections better
             gain_arr = og_gain_arr[pol_i] / cal["gain"][pol_i]
@@ -1219,7 +1218,7 @@ def vis_cal_polyfit(
                             np.exp(1j * 2 * np.pi / obs["n_freq"] * mode_i * freq_use)
                             * gain_arr[freq_use, tile_i]
                         )
-                        amp_use = np.abs(mode_fit) / freq_use[0].size
+                        amp_use = np.abs(mode_fit) / freq_use.size
                         phase_use = np.arctan2(mode_fit.imag, mode_fit.real)
 
                     gain_mode_fit = amp_use * np.exp(
-- 
2.43.0


From 53d20d7a50da40052a7fca03e1f83f716bf1088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 045/118] fix: allow polynomial calibration fits without a
 bandpass

---
 PyFHD/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 565a3c5..6084529 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -125,7 +125,7 @@ def calibrate(
         if pyfhd_config["auto_ratio_calibration"]:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
-        cal = vis_cal_polyfit(cal, obs, None, pyfhd_config, logger)
+        cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
     if pyfhd_config["calibration_auto_fit"]:
-- 
2.43.0


From 096e0d5e9df0fcd5efc92a40209483d5d0aa1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 046/118] fix: keep uninitialised memory out of the
 auto-correlation fit parameters

---
 PyFHD/calibration/calibration_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 6033382..aebcea3 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1291,8 +1291,8 @@ def vis_cal_auto_fit(
         vis_auto[: cal["n_pol"]] * weight_invert(vis_auto_model[: cal["n_pol"]])
     )
     gain_cross = cal["gain"]
-    fit_slope = np.empty((cal["n_pol"], obs["n_tile"]))
-    fit_offset = np.empty_like(fit_slope)
+    fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
+    fit_offset = np.zeros_like(fit_slope)
 
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
@@ -1328,7 +1328,7 @@ def vis_cal_auto_fit(
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
     cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
-    cal["auto_params"] = np.empty([cal["n_pol"], cal["n_pol"], obs["n_tile"]])
+    cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
     return cal
-- 
2.43.0


From 131448fdf77208314d586f5234dabf8226b1e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 047/118] fix: apply the phase between the X and Y
 polarizations to the cross polarizations

---
 PyFHD/calibration/calibration_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index aebcea3..6f1c590 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1418,10 +1418,10 @@ def vis_calibration_apply(
             # Use the xx flags (yy should be identitical at this point)
 
             # this is num baselines per time step
-            n_baselines = int(len(tile_a_i) / obs["n_times"])
+            n_baselines = int(len(tile_a_i) / obs["n_time"])
             # reshape from (n_freq, n_baselines*n_times) to (n_freq, n_times, n_baselines). Turns out due to the row major vs col major difference
             # between IDL and python, this shape also changes
-            new_shape = (obs["n_freq"], obs["n_times"], n_baselines)
+            new_shape = (obs["n_freq"], obs["n_time"], n_baselines)
             weights_use = np.reshape(vis_weights[0, :, :], new_shape)
             # carried over from FHD code
             weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
@@ -1458,8 +1458,8 @@ def vis_calibration_apply(
 
             cal["cross_phase"] = cross_phase
 
-        vis_arr[2, :, :] *= np.exp(1j * 0)
-        vis_arr[3, :, :] *= np.exp(-1j * 0)
+            vis_arr[2, :, :] *= np.exp(1j * cross_phase)
+            vis_arr[3, :, :] *= np.exp(-1j * cross_phase)
 
     return vis_arr, cal
 
-- 
2.43.0


From b958de0d40ab1e588bdc7123264bcfd23845b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 048/118] fix: find the auto-correlation of the reference
 antenna when not every tile has one

---
 PyFHD/calibration/calibration_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 6f1c590..f016d2c 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1567,11 +1567,15 @@ def cal_auto_ratio_divide(
         visibilities normalized via a reference tile.
     """
 
-    auto_ratio = np.empty([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # Tiles without auto-correlations keep their gains
+    auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # The auto-correlations are in the order of auto_tile_i, which isn't every tile
+    ref_i = np.nonzero(auto_tile_i == cal["ref_antenna"])[0]
+    ref_i = ref_i[-1] if ref_i.size > 0 else 0
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, auto_tile_i[cal["ref_antenna"]]]
+        v0 = vis_auto[pol_i, :, ref_i]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From ae910038a235fcc65b7bf38c68fdf5c59854d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 049/118] fix: calibrate observations without auto-correlations

---
 PyFHD/calibration/calibrate.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 6084529..e31f50e 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -71,8 +71,13 @@ def calibrate(
     vis_auto, auto_tile_i = vis_extract_autocorr(obs, vis_arr, pyfhd_config)
     # Calculate auto-correlation visibilities
     vis_auto_model, auto_tile_i = vis_extract_autocorr(obs, vis_model_arr, pyfhd_config)
+    has_autos = auto_tile_i.size > 0
+    if not has_autos:
+        logger.warning(
+            "There are no auto-correlations, calibrating with cross-correlations only"
+        )
     # Initalize the gain
-    if pyfhd_config["calibration_auto_initialize"]:
+    if pyfhd_config["calibration_auto_initialize"] and has_autos:
         cal["gain"] = vis_cal_auto_init(
             obs, cal, vis_arr, vis_model_arr, vis_auto, vis_auto_model, auto_tile_i
         )
@@ -101,7 +106,7 @@ def calibrate(
     # Perform bandpass (amp + phase per fine freq) and polynomial fitting (low order amp + phase fit plus cable reflection fit)
     if pyfhd_config["bandpass_calibrate"]:
         logger.info("You have chosen to perform a bandpass calculation and calibration")
-        if pyfhd_config["auto_ratio_calibration"]:
+        if pyfhd_config["auto_ratio_calibration"] and has_autos:
             cal, auto_ratio = cal_auto_ratio_divide(obs, cal, vis_auto, auto_tile_i)
         else:
             auto_ratio = None
@@ -122,13 +127,13 @@ def calibrate(
         else:
             cal = cal_bandpass
 
-        if pyfhd_config["auto_ratio_calibration"]:
+        if pyfhd_config["auto_ratio_calibration"] and has_autos:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
         cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
-    if pyfhd_config["calibration_auto_fit"]:
+    if pyfhd_config["calibration_auto_fit"] and has_autos:
         # Get amp from auto-correlation visibilities for plotting (or optionally for the calibration solution itself)
         cal_auto = vis_cal_auto_fit(obs, cal, vis_auto, vis_auto_model, auto_tile_i)
         # These subtractions replace vis_cal_subtract
@@ -138,7 +143,7 @@ def calibrate(
         cal_res_gain = cal_base["gain"] - cal["gain"]
 
     # If calibration_auto_fit was set then replace cal with cal_auto, usually for diagnostic purposes
-    if pyfhd_config["calibration_auto_fit"]:
+    if pyfhd_config["calibration_auto_fit"] and has_autos:
         cal = cal_auto
     # Apply Calibration
     logger.info("Applying the calibration")
-- 
2.43.0


From 8727fbe5a1a73d5259fbb2811ec3bc2c910fd5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 050/118] fix: flag every channel whose calibration solution is
 NaN, not just the last one

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 616ec74..4f65a8e 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -80,16 +80,16 @@ def vis_calibrate_subroutine(
     # maximum iterations to perform for the linear least-squares solver
     max_cal_iter = pyfhd_config["max_cal_iter"]
     # Leave a warning if its less than 5 iterations, or an Error if its less than 1
-    if max_cal_iter < 5:
+    if max_cal_iter < 1:
+        raise ValueError(
+            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
+        )
+    elif max_cal_iter < 5:
         warnings.warn(
             "At Least 5 calibrations iterations is recommended.\nYou're currently using {} iterations".format(
                 int(max_cal_iter)
             )
         )
-    elif max_cal_iter < 1:
-        raise ValueError(
-            "max_cal_iter should be 1 or more. A max_cal_iter of 5 or more is recommended"
-        )
     conv_thresh = pyfhd_config["cal_convergence_threshold"]
     use_adaptive_gain = pyfhd_config["cal_adaptive_calibration_gain"]
     base_gain = pyfhd_config["cal_base_gain"]
@@ -430,13 +430,12 @@ def vis_calibrate_subroutine(
                 )
             del A_ind_arr
             gain_arr[fi, tile_use] = gain_curr
-        nan_i = np.where(np.isnan(gain_curr))[0]
-        if nan_i.size > 0:
+        nan_i = np.where(np.isnan(gain_arr))
+        if nan_i[0].size > 0:
             # any gains with NANs -> all tiles for that freq will have NANs
-            freq_nan_i = nan_i % n_freq
-            freq_nan_i = freq_nan_i[np.unique(freq_nan_i)]
-            vis_weight_ptr_use[pol_i][:, freq_nan_i] = 0
-            weight[:, freq_nan_i] = 0
+            freq_nan_i = np.unique(nan_i[0])
+            vis_weight_ptr_use[pol_i][freq_nan_i, :] = 0
+            weight[freq_nan_i, :] = 0
             gain_arr[nan_i] = 0
         if tile_flag.size > 0:
             # set flagged tiles to NAN to remove from calculations
-- 
2.43.0


From dc963619246f147fca26665e80973580677af487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 051/118] fix: report calibrations that reach the maximum
 iterations

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 4f65a8e..371facc 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -424,9 +424,9 @@ def vis_calibrate_subroutine(
                     gain_curr - gain_old
                 ) * weight_invert(np.abs(gain_old))
                 conv_iter_arr[fi, tile_use] = i
-            if i == max_cal_iter:
+            if i == max_cal_iter - 1:
                 logger.info(
-                    f"Calibration reach max iterations before converging for pol_i: {pol_i} and freq_i: {fi}. Convergence was: {conv_test[i - 1, fii]} and the threshold was: {conv_thresh}"
+                    f"Calibration reach max iterations before converging for pol_i: {pol_i} and freq_i: {fi}. Convergence was: {conv_test[fii, i]} and the threshold was: {conv_thresh}"
                 )
             del A_ind_arr
             gain_arr[fi, tile_use] = gain_curr
-- 
2.43.0


From 10741412f562b780d08c15f5dc1416fb36b7669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 052/118] fix: calibrate when every tile has the same number of
 baselines

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 371facc..5260eb5 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -287,9 +287,7 @@ def vis_calibrate_subroutine(
                     A_ind_arr.append(-1)
                 # NEED SOMETHING MORE IN CASE INDIVIDUAL TILES ARE FLAGGED FOR ONLY A FEW FREQUENCIES!!
                 n_arr[tile_i] = inds.size
-            # I suspect a list of lists maybe faster than the object array, check during optimization
-            # Although I doubt it will make a huge difference.
-            A_ind_arr = np.array(A_ind_arr, dtype=object)
+            # Keep this a list, an object array of arrays of the same size isn't an array of arrays
             # For tiles which don't satisfy the minimum number of solutions, pre-emptively set them to 0
             # in order to prevent certain failure in meeting strict convergence threshold
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
-- 
2.43.0


From 1b4c08e5262f8f332308efd2e2c1d95cc1003153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 053/118] fix: give up channels in which the reference tile
 cannot be solved instead of crashing

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 5260eb5..38b3130 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -293,6 +293,10 @@ def vis_calibrate_subroutine(
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
             if inds_min_cal.size > 0:
                 gain_curr[inds_min_cal] = 0
+            if not no_ref_tile and n_arr[ref_tile_use] < min_cal_solutions:
+                # Without the reference tile the phases of this channel are undefined
+                gain_arr[fi, tile_use] = np.nan
+                continue
             gain_new = np.zeros(tile_use.size, dtype=np.complex128)
             convergence_list = np.zeros(max_cal_iter)
             conv_gain_list = np.zeros(max_cal_iter)
-- 
2.43.0


From 7f0f9c752bbcaf8a841f7e1d5398aee51dd637ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 054/118] fix: a degree of 0 for the polynomial fits of the
 calibration is a constant, not the default degree

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index f016d2c..a609b49 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -920,9 +920,9 @@ def vis_cal_polyfit(
     tile_use = np.where(obs["baseline_info"]["tile_use"])[0]
 
     # If the amp_degree or phase_degree weren't used, then apply the defaults
-    if not pyfhd_config["cal_amp_degree_fit"]:
+    if pyfhd_config["cal_amp_degree_fit"] is None:
         pyfhd_config["cal_amp_degree_fit"] = 2
-    if not pyfhd_config["cal_phase_degree_fit"]:
+    if pyfhd_config["cal_phase_degree_fit"] is None:
         pyfhd_config["cal_phase_degree_fit"] = 1
 
     # If you wish to find any steps that are outliers beyond 5sigma, and remove them add that code here.
-- 
2.43.0


From 4a919f528ce78736172dc33ba6b976551665c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 055/118] fix: digital gain jump polynomial fits of any degree,
 not just 2

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a609b49..06ef7a1 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -946,7 +946,7 @@ def vis_cal_polyfit(
             (
                 cal["n_pol"],
                 obs["n_tile"],
-                pyfhd_config["cal_amp_degree_fit"],
+                2,
                 pyfhd_config["cal_amp_degree_fit"],
             )
         )
-- 
2.43.0


From 274e9d25f5ff954deb00caf4d1720f45ef1acb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 056/118] fix: auto_scale is the mean over the tiles when the
 auto-correlations aren't averaged in time

---
 PyFHD/calibration/calibration_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 06ef7a1..45a1345 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1327,7 +1327,8 @@ def vis_cal_auto_fit(
             ) * np.exp(1j * phase_cross_single)
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
-    cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
+    # Without time averaging each tile is in auto_tile_i once for every time step
+    cal["auto_scale"] = np.sum(fit_slope, axis=1) / np.unique(auto_tile_i).size
     cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
-- 
2.43.0


From 66710f1a51316c57287d8f6703ba4f91d6ab7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 057/118] fix: vis_baseline_hist when only some model
 visibilities of a bin are zero

---
 PyFHD/calibration/calibration_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 45a1345..7c065fa 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1513,6 +1513,7 @@ def vis_baseline_hist(
                 wh_noflag = np.where(np.abs(model_vals) > 0)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
+                    model_vals = model_vals[wh_noflag]
                 else:
                     continue
                 # if Keyword_Set(calibration_visibilities_subtract) THEN BEGIN
-- 
2.43.0


From 4af8d3afee9afa4aaa3e9f97482874dc59edfa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 058/118] fix: gridding takes the frequency and baseline of
 each visibility from the right axis

---
 PyFHD/gridding/visibility_grid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4632878..c3f3278 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -255,12 +255,12 @@ def visibility_grid(
         ymin_use = ymin.flat[ind0]
 
         # Find the frequency group per index
-        freq_i = inds % n_freq_use
+        freq_i = inds // bi_use.size
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
         vis_n = bin_n[bin_i[bi]]
-        baseline_inds = bi_use_reduced[((inds / n_f_use) % n_baselines).astype(int)]
+        baseline_inds = bi_use_reduced[inds % bi_use.size]
 
         if interp_flag:
             # Calculate the interpolated kernel on the uv-grid given the derivatives to baseline locations
@@ -364,10 +364,7 @@ def visibility_grid(
                     model_box = model_use.flat[inds]
                 vis_box = vis_arr_use.flat[inds]
                 psf_weight = np.ones(vis_n)
-                # IDL had integer / integer i.e. 2015 / 336 == 5, used flooring divider instead in python
-                # ALso do take note that each were very close always within 0.01 of their next number.
-                # e.g. 2015 / 336 = 5.99, should ceiling be be used instead?
-                bt_index = inds // n_freq_use
+                bt_index = inds % bi_use.size
 
             box_matrix = np.zeros((vis_n, psf_dim3), dtype=arr_type)
             if pyfhd_config["beam_per_baseline"]:
-- 
2.43.0


From 957876deff905d00bb01d9e7ebd74c735603926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 059/118] fix: spectral gridding of a model, and of
 visibilities sharing a kernel

---
 PyFHD/gridding/visibility_grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index c3f3278..9a69dbb 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -315,7 +315,12 @@ def visibility_grid(
             n_xyf_bin = xyf_ui.size
 
             # There might be a better selection criteria to determine which is most efficient
-            if vis_n > 1.1 * n_xyf_bin and not pyfhd_config["beam_per_baseline"]:
+            # The spectral terms need the frequency of every visibility
+            if (
+                vis_n > 1.1 * n_xyf_bin
+                and not pyfhd_config["beam_per_baseline"]
+                and not pyfhd_config["grid_spectral"]
+            ):
                 # If there are any baselines which use the same beam kernel and the same discretized location
                 # given the hyperresolution, then reduce the number of gridding operations to only
                 # non-repeated baselines
@@ -435,7 +440,7 @@ def visibility_grid(
                 )
                 spectral_model_A[
                     ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
-                ] += term_Am_box
+                ].flat += term_Am_box
 
         if model is not None:
             # If model visibilities are being gridded, calculate the product of the model vis and the beam kernel
-- 
2.43.0


From b429db8fd3666da0791d3ed3800b8fd59a7eea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 060/118] fix: u runs along dimension and v along elements when
 locating baselines on the grid

---
 PyFHD/gridding/gridding_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 69438e2..02b5c26 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -225,12 +225,12 @@ def baseline_grid_locations(
         baselines_dict["dx1dy1_arr"] = dx_arr * dy_arr
 
     # The minimum pixel in the uv-grid (bottom left of the kernel) that each baseline contributes to
-    xmin = (np.floor(xcen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
-    ymin = (np.floor(ycen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    xmin = (np.floor(xcen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    ymin = (np.floor(ycen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
 
     # Set the minimum pixel value of baselines which fall outside of the uv-grid tom -1 to exclude them
-    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= elements - 1))
-    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= dimension - 1))
+    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= dimension - 1))
+    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= elements - 1))
     if range_test_x_i[0].size > 0:
         xmin[range_test_x_i] = -1
         ymin[range_test_x_i] = -1
-- 
2.43.0


From 3489ff4986e6a1c7edfc90729bb7f6a51a0cd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 061/118] fix: dirty_image_generate leaves the plane passed in
 alone and takes rectangular planes

---
 PyFHD/gridding/gridding_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 02b5c26..1afadeb 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -362,7 +362,8 @@ def dirty_image_generate(
 
     # dimension is columns, elements is rows
     elements, dimension = dirty_image_uv.shape
-    di_uv_use = dirty_image_uv
+    # A copy, the plane passed in is not to be changed
+    di_uv_use = dirty_image_uv.copy()
     # If the baseline threshold has been set
     if baseline_threshold is not None:
         if width_smooth is None:
@@ -391,8 +392,8 @@ def dirty_image_generate(
         box_averages = convolve(mask_bt, Box2DKernel(kernel_width), mode="valid")
         # Since IDL SMOOTH edges by default are the edges of the array used, ignore edges (its the reason why we used a valid convolve)
         start = int(kernel_width // 2)
-        end = int(mask_bt.shape[1] - (kernel_width // 2))
-        mask_bt[start:end, start:end] = box_averages
+        end_row, end_col = (int(size - (kernel_width // 2)) for size in mask_bt.shape)
+        mask_bt[start:end_row, start:end_col] = box_averages
         # Apply boxed mask to the dirty image
         di_uv_use *= mask_bt
 
-- 
2.43.0


From 297c878ff35ada343e22ad8ffc96bd7f000db537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 062/118] fix: filter_uv_uniform calls visibility_count with
 the arguments it takes

---
 PyFHD/gridding/filters.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/PyFHD/gridding/filters.py b/PyFHD/gridding/filters.py
index 450aeff..e435cea 100644
--- a/PyFHD/gridding/filters.py
+++ b/PyFHD/gridding/filters.py
@@ -16,6 +16,7 @@ def filter_uv_uniform(
     fi_use: NDArray[np.integer] | None = None,
     bi_use: NDArray[np.integer] | None = None,
     mask_mirror_indices: bool = False,
+    psf: dict | None = None,
 ) -> tuple[NDArray[np.complex128], NDArray[np.float64]]:
     """
     Perform uniform weighting in {u,v} space.
@@ -42,6 +43,8 @@ def filter_uv_uniform(
         Baseline index array for gridding, i.e even vs odd time stamps, by default None
     mask_mirror_indices : bool, optional
         Exclude baselines mirrored along the v-axis, by default False
+    psf : dict | None, optional
+        Beam metadata dictionary, needed with obs and params when vis_count is None, by default None
 
     Returns
     -------
@@ -53,7 +56,7 @@ def filter_uv_uniform(
     Raises
     ------
     TypeError
-        In the case obs or params is None and vis_count is also None
+        In the case obs, params or psf is None and vis_count is also None
     """
 
     # If you need the name, grab it from pyfhd_config where needed
@@ -61,16 +64,16 @@ def filter_uv_uniform(
     # This does not make use of fine-grained flagging, but relies on coarse flags from the obs structure
     # (i.e. a list of tiles completely flagged, and of frequencies completely flagged)
     if vis_count is None:
-        if obs is not None or params is not None:
+        if obs is not None and params is not None and psf is not None:
             vis_count = gridding_utils.visibility_count(
                 obs,
+                psf,
                 params,
                 weights,
-                pyfhd_config,
                 logger,
-                fi_use,
-                bi_use,
-                mask_mirror_indices,
+                fi_use=fi_use,
+                bi_use=bi_use,
+                mask_mirror_indices=mask_mirror_indices,
             )
         elif weights is not None and np.size(weights) == np.size(image_uv):
             if np.max(weights) == 0:
@@ -78,7 +81,9 @@ def filter_uv_uniform(
             else:
                 vis_count = np.abs(weights) / np.min(np.abs(weights[weights > 0]))
         else:
-            raise TypeError("obs and params must not be None when vis_count is None")
+            raise TypeError(
+                "obs, params and psf must not be None when vis_count is None"
+            )
 
     # Get the parts of the filter we're using
     filter_use = weight_invert(vis_count, threshold=1)
-- 
2.43.0


From 00e0f747350489345ecfc671c43a9d6a64779fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 063/118] fix: distances from the centre of a rectangular plane
 in dirty_image_generate

---
 PyFHD/gridding/gridding_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 1afadeb..c89d14c 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -369,8 +369,8 @@ def dirty_image_generate(
         if width_smooth is None:
             width_smooth = np.floor(np.sqrt(dimension * elements) / 100)
         rarray = np.sqrt(
-            (meshgrid(dimension, 1) - dimension / 2) ** 2
-            + (meshgrid(elements, 2) - elements / 2) ** 2
+            (meshgrid(dimension, elements, 1) - dimension / 2) ** 2
+            + (meshgrid(dimension, elements, 2) - elements / 2) ** 2
         )
         # Get all the values that meet the threshold
         if baseline_threshold >= 0:
-- 
2.43.0


From 4e1778261a82fec636a2e2bb548a8bb15ca2f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 064/118] fix: healpix_cnv_apply adds every contribution of an
 image pixel to a HEALPix pixel

---
 PyFHD/healpix/healpix_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b46edc8..ff12838 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -50,7 +50,10 @@ def healpix_cnv_apply(
         i_use = hpx_cnv["i_use"][i]
         # Transpose is always True when used inside healpix_cnv_apply when using
         # sprsax2, so we can ignore the transpose keyword
-        hpx_map[hpx_cnv["ija"][i]] += hpx_cnv["sa"][i] * image_vector[i_use]
+        # The same HEALPix pixel can appear more than once for an image pixel
+        np.add.at(
+            hpx_map, hpx_cnv["ija"][i], hpx_cnv["sa"][i] * image_vector[i_use]
+        )
     return hpx_map
 
 
-- 
2.43.0


From a670fa8e68c9569da3426e1cf4775100bd3483ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 065/118] fix: HEALPix pixels outside the image no longer take
 values from the neighbouring rows

---
 PyFHD/healpix/healpix_utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index ff12838..7faf862 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -224,6 +224,16 @@ def healpix_cnv_generate(
     x_frac = 1 - (xv_hpx - np.floor(xv_hpx))
     y_frac = 1 - (yv_hpx - np.floor(yv_hpx))
 
+    # Pixels outside of the image take nothing from it, without this they would
+    # wrap around into the neighbouring rows
+    inside = (
+        (xv_hpx >= 0)
+        & (xv_hpx <= obs["dimension"] - 1)
+        & (yv_hpx >= 0)
+        & (yv_hpx <= obs["elements"] - 1)
+    )
+    xv_hpx = np.where(inside, xv_hpx, -1)
+    yv_hpx = np.where(inside, yv_hpx, -1)
     v_floor = np.floor(xv_hpx) + obs["dimension"] * np.floor(yv_hpx)
     v_ceil = np.ceil(xv_hpx) + obs["dimension"] * np.ceil(yv_hpx)
     # Differences in precision occur here compared to IDL, unsolvable ones as we're using
@@ -231,7 +241,9 @@ def healpix_cnv_generate(
     # numbers are "better" compared to IDL, as a result the v_floor and v_ceil arrays are one off
     # compared to IDL, making min_bin off by one
     min_bin = max(np.nanmin(v_floor), 0)
-    max_bin = min(np.nanmax(v_ceil), obs["dimension"] * obs["elements"] - 1)
+    max_bin = max(
+        min(np.nanmax(v_ceil), obs["dimension"] * obs["elements"] - 1), min_bin
+    )
     h00, _, ri00 = histogram(v_floor, min=min_bin, max=max_bin)
     h01, _, ri01 = histogram(
         np.floor(xv_hpx) + obs["dimension"] * np.ceil(yv_hpx), min=min_bin, max=max_bin
-- 
2.43.0


From b687d28d963fb8b11d97a34710e85df10d6d24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 066/118] fix: healpix_cnv_generate selects the HEALPix pixels
 around the field when no pixel list is given

---
 PyFHD/healpix/healpix_utils.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 7faf862..ed0a87e 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -166,19 +166,22 @@ def healpix_cnv_generate(
         )
         nside = 2 ** (np.ceil(np.log(np.sqrt(pix_sky / 12)) / np.log(2)))
 
+    nside = int(nside)
+
     # If you wish to implement the keyword divide_pixel_area implement it here and
     # add it as an option inside pyfhd_config
 
     if hpx_inds is not None:
-        pix_coords = np.vstack(pix2vec(int(nside), hpx_inds)).T
+        pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
         pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         # This assume the refraction fix on FHD has been implemented
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
     else:
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
-        hpx_inds = query_disc(nside, cen_coords, hpx_radius)
+        # query_disc expects the radius in radians
+        hpx_inds = query_disc(nside, cen_coords, np.radians(hpx_radius))
         pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
-        pix_dec, pix_ra = vec2ang(pix_coords, lonlat=True)
+        pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
         pix_i_use = np.where(
@@ -186,19 +189,25 @@ def healpix_cnv_generate(
             & (xv_hpx < obs["dimension"] - 1)
             & (yv_hpx > 0)
             & (yv_hpx < obs["elements"] - 1)
-        )
+        )[0]
         xv_hpx = xv_hpx[pix_i_use]
         yv_hpx = yv_hpx[pix_i_use]
-        hpx_mask00 = mask[np.floor(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask01 = mask[np.floor(xv_hpx), np.ceil(yv_hpx)]
-        hpx_mask10 = mask[np.ceil(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask11 = mask[np.ceil(xv_hpx), np.ceil(yv_hpx)]
+        x_floor = np.floor(xv_hpx).astype(np.int64)
+        x_ceil = np.ceil(xv_hpx).astype(np.int64)
+        y_floor = np.floor(yv_hpx).astype(np.int64)
+        y_ceil = np.ceil(yv_hpx).astype(np.int64)
+        hpx_mask00 = mask[y_floor, x_floor]
+        hpx_mask01 = mask[y_ceil, x_floor]
+        hpx_mask10 = mask[y_floor, x_ceil]
+        hpx_mask11 = mask[y_ceil, x_ceil]
         hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11
-        pix_i_use2 = np.nonzero(hpx_mask)
+        pix_i_use2 = np.nonzero(hpx_mask)[0]
         xv_hpx = xv_hpx[pix_i_use2]
         yv_hpx = yv_hpx[pix_i_use2]
         pix_i_use = pix_i_use[pix_i_use2]
         hpx_inds = hpx_inds[pix_i_use]
+        pix_ra = pix_ra[pix_i_use]
+        pix_dec = pix_dec[pix_i_use]
 
     # Test for pixels past the horizon. We don't need to be precise with this, so turn off precession, etc..
     # Get the location from instrument name
-- 
2.43.0


From ce7e58d4c9355039665de0e548a732111ee0621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 067/118] fix: beam_image_cube finds the channels of the
 frequencies it is given

---
 PyFHD/healpix/healpix_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index ed0a87e..1abbb52 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -376,9 +376,12 @@ def beam_image_cube(
         n_freq_bin = freq_i_arr.size
 
     if np.median(freq_i_arr) > obs["n_freq"]:
-        freq_i_use = np.interp(
-            np.arange(obs["n_freq"]), obs["baseline_info"]["freq"], freq_i_arr
-        )
+        # Frequencies were given, find the channels they belong to
+        freq_i_use = np.rint(
+            np.interp(
+                freq_i_arr, obs["baseline_info"]["freq"], np.arange(obs["n_freq"])
+            )
+        ).astype(np.int64)
     else:
         freq_i_use = freq_i_arr
 
-- 
2.43.0


From 928f539660967118b7f8485ff96735c0e0411bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 068/118] fix: vis_model_freq_split finds the unflagged
 baselines along the baseline axis

---
 PyFHD/healpix/healpix_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 1abbb52..acfb085 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -539,12 +539,11 @@ def vis_model_freq_split(
     if bi_use is None:
         if obs["n_pol"] > 1:
             flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)
-            # Double check the axis used
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
         else:
             flag_test = np.maximum(vis_weights[0], 0)
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
-- 
2.43.0


From 724cd45f8a57570d9a1f8154694aea099e684192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 069/118] fix: vis_model_freq_split counts the visibilities of
 this polarization and time split only

---
 PyFHD/healpix/healpix_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index acfb085..1355795 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -547,6 +547,8 @@ def vis_model_freq_split(
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
+    # Channels where nothing is gridded must not keep the count of an earlier run
+    obs["nf_vis"] = np.zeros(obs["n_freq"], dtype=np.int64)
     for fi in range(nf):
         fi_use = np.where((freq_bin_i2 == fi) & (obs["baseline_info"]["freq_use"] > 0))[
             0
-- 
2.43.0


From b9b33acfa1f141da8bdf900a227cd5155a072031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 070/118] fix: vis_model_freq_split keeps the imaginary part of
 the uv planes when not imaging

---
 PyFHD/healpix/healpix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 1355795..63b88cf 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -525,10 +525,12 @@ def vis_model_freq_split(
         model_uv_arr = np.zeros(
             [nf, obs["dimension"], obs["dimension"]], dtype=np.complex128
         )
-    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
+    # Without the FFT the uv planes are returned, which are complex
+    arr_type = np.float64 if fft else np.complex128
+    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     vis_n_arr = np.zeros([nf])
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
-- 
2.43.0


From df39ee64070a77776a7690596cb673c46e71c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 071/118] fix: beam_image builds the image of the requested
 polarization from the uv beam

---
 PyFHD/beam_setup/beam_utils.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a8d7244..cdccf7c 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -125,10 +125,11 @@ def beam_image(
         freq_norm = freq_norm[:]
         pix_horizon = pix_horizon[0]
     dimension = elements = obs["dimension"]
-    xl = dimension / 2 - psf_dim / 2 + 1
-    xh = dimension / 2 - psf_dim / 2 + psf_dim
-    yl = elements / 2 - psf_dim / 2 + 1
-    yh = elements / 2 - psf_dim / 2 + psf_dim
+    psf_dim = int(psf_dim)
+    xl = dimension // 2 - psf_dim // 2 + 1
+    xh = dimension // 2 - psf_dim // 2 + psf_dim
+    yl = elements // 2 - psf_dim // 2 + 1
+    yh = elements // 2 - psf_dim // 2 + psf_dim
 
     group_n, _, ri_id = histogram(group_id, min=0)
     gi_use = np.nonzero(group_n)
@@ -185,15 +186,15 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
                     beam_single = np.abs(beam_single)
                 beam_base_uv1 = np.zeros([dimension, elements], np.complex128)
-                beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_single
+                beam_base_uv1[yl : yh + 1, xl : xh + 1] = beam_single
                 beam_base_single = np.fft.fftshift(
-                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1))
+                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
                 )
                 beam_base += (
                     nf_bin * (beam_base_single * np.conjugate(beam_base_single)).real
@@ -228,7 +229,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
             beam_single /= np.sum(group_n[gi_use])
             beam_base_uv += beam_single
@@ -236,8 +237,10 @@ def beam_image(
 
         if beam_gaussian_params is None:
             beam_base_uv1 = np.zeros([dimension, elements], dtype=np.complex128)
-            beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_base_uv
-            beam_base = np.fft.fftshift(np.fft.ifftn(np.fft.fftshift(beam_base_uv1)))
+            beam_base_uv1[yl : yh + 1, xl : xh + 1] = beam_base_uv
+            beam_base = np.fft.fftshift(
+                np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
+            )
         else:
             beam_base = beam_base_uv
 
-- 
2.43.0


From 454b7a173ba871720b43ea0f671b6b8fd496f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 072/118] fix: beam_image does not carry the beam of one
 frequency bin over to the next

---
 PyFHD/beam_setup/beam_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index cdccf7c..c4e0c34 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -166,6 +166,7 @@ def beam_image(
         for bin_i in range(nbin):
             fbin = fbin_use[bin_i]
             nf_bin = np.count_nonzero(freq_bin_use == fbin)
+            beam_single[:, :] = 0
             if beam_gaussian_params is not None:
                 for gi in range(n_groups):
                     # beam_gaussian_params needs to be copied here rather than
-- 
2.43.0


From c8e028e056a4adbef38947ca311ce8e60e66354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 073/118] fix: beam_image accepts a single frequency when not
 squaring

---
 PyFHD/beam_setup/beam_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index c4e0c34..93185f6 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -202,6 +202,7 @@ def beam_image(
                 )
             n_bin_use += nf_bin * freq_norm[fbin]
     else:
+        freq_i_use = np.atleast_1d(freq_i_use)
         nf_use = freq_i_use.size
         if beam_gaussian_params is not None:
             beam_base_uv = np.zeros([dimension, elements])
-- 
2.43.0


From 1401b9a5c96b75fb9a43eba790adec36b85e0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 074/118] fix: gaussian_decomp leaves the parameters it is
 given alone

---
 PyFHD/beam_setup/beam_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 93185f6..02b0652 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -15,7 +15,8 @@ def gaussian_decomp(
     decomp_beam = np.zeros([x.size, y.size])
     i = 1j
     # Expand the p vector into readable names
-    var = np.reshape(p, [p.size // 5, 5])
+    # (a copy, as the parameters are put on the new grid in place below)
+    var = np.reshape(p, [p.size // 5, 5]).copy()
     amp = var[:, 0]
     offset_x = var[:, 1]
     sigma_x = var[:, 2]
-- 
2.43.0


From 2c11f7d60a55160995d9aec29d5064709ce86f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 075/118] fix: HEALPix export without the even/odd split uses
 all the baselines

---
 PyFHD/healpix/export.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 26a72c9..4001216 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -54,7 +54,11 @@ def healpix_snapshot_cube_generate(
     logger : Logger
         _description_
     """
-    if pyfhd_config["split_ps_export"]:
+    # Even and odd cubes need at least two times
+    split_export = pyfhd_config["split_ps_export"] and obs["n_time"] > 1
+    if pyfhd_config["split_ps_export"] and not split_export:
+        logger.warning("Only one time in the observation, exporting a single cube")
+    if split_export:
         cube_name = ["hpx_even", "hpx_odd"]
     else:
         cube_name = ["healpix_cube"]
@@ -124,7 +128,7 @@ def healpix_snapshot_cube_generate(
 
     vis_weights, obs_out = vis_weights_update(vis_weights, obs_out, psf, params)
 
-    if pyfhd_config["split_ps_export"]:
+    if split_export:
         n_iter = 2
         vis_weights_use, bi_use = split_vis_weights(obs_out, vis_weights)
         obs_out["vis_noise"] = vis_noise_calc(
@@ -135,7 +139,9 @@ def healpix_snapshot_cube_generate(
         n_iter = 1
         uvf_name = [""]
         obs_out["vis_noise"] = vis_noise_calc(obs_out, vis_arr, vis_weights)
-        bi_use = np.zeros(1, dtype=np.int64)
+        vis_weights_use = vis_weights
+        # Every unflagged baseline is used
+        bi_use = [None]
 
     # Looks like this is set to False by default?
     residual_flag = obs_out["residual"]
-- 
2.43.0


From 44b986e140087cc304a892ff5f0904b89b249df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 076/118] fix: radec_to_pixel accepts arrays holding a single
 position

---
 PyFHD/pyfhd_tools/unit_conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/unit_conv.py b/PyFHD/pyfhd_tools/unit_conv.py
index 0fd9a00..b9ad94e 100644
--- a/PyFHD/pyfhd_tools/unit_conv.py
+++ b/PyFHD/pyfhd_tools/unit_conv.py
@@ -147,8 +147,8 @@ def radec_to_pixel(ra: float, dec: float, astr: dict) -> tuple[float, float]:
     x, y = wcs_astr.world_to_pixel(
         SkyCoord(ra=ra * u.deg, dec=dec * u.deg, frame=astr["radecsys"].lower())
     )
-    # AstroPy returns values as an array, cast to float
-    if np.size(x) == 1:
+    # AstroPy returns values as an array, cast to float when a single position was given
+    if np.ndim(x) == 0:
         return float(x), float(y)
     else:
         return x, y
-- 
2.43.0


From a04cc9520d9a09a9e09cefe410c0ff6af70c49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 077/118] fix: a model ahead of the data in time is matched to
 the right time steps

---
 PyFHD/source_modeling/vis_model_transfer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 59cd3c6..498238c 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -270,9 +270,9 @@ def flag_model_visibilities(
     time_offsets = []
     for time in flaginfo_data.unique_times:
         # convert from julian to seconds via 24*60*60
-        time_offsets.append(
-            np.min(np.abs(flaginfo_model.unique_times - time)) * (24.0 * 60 * 60)
-        )
+        # Keep the sign, as the model can be ahead of or behind the data
+        differences = (time - flaginfo_model.unique_times) * (24.0 * 60 * 60)
+        time_offsets.append(differences[np.argmin(np.abs(differences))])
 
     # The highest time resolution data we'll be dealing with. If the offset is
     # less than half of this, could be error in calculations rather than an
@@ -288,8 +288,8 @@ def flag_model_visibilities(
     # that add the `rounded_offset` (our calculated QUACK time) to the model
     # to work out which time steps are closest between model and data
     if (
-        rounded_offset >= min_integration / 2.0
-        and rounded_offset <= obs["time_res"] / 2.0
+        abs(rounded_offset) >= min_integration / 2.0
+        and abs(rounded_offset) <= obs["time_res"] / 2.0
     ):
         flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)
 
-- 
2.43.0


From 462d0250f8684db008a714eb1bf044f9796b4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 078/118] fix: model import errors exit with a failure status
 and name the model file

---
 PyFHD/source_modeling/vis_model_transfer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 498238c..bbc25d4 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -44,7 +44,7 @@ def vis_model_transfer(
         return import_vis_model_from_uvfits(pyfhd_config, obs, logger)
     else:
         logger.error("You chose a file type PyFHD can't import, existing")
-        sys.exit()
+        sys.exit(1)
 
 
 def import_vis_model_from_sav(
@@ -116,7 +116,7 @@ def import_vis_model_from_sav(
         logger.error(
             f"PyFHD failed to load in the model visibilities while trying to transfer in file: {path} as the file wasn't found. PyFHD is exiting execution"
         )
-        exit()
+        sys.exit(1)
     return vis_model_arr, params_model
 
 
@@ -155,7 +155,7 @@ def import_vis_model_from_uvfits(
             f"contain {header_model['n_freq']} freqs. Please supply "
             "model visibilities that match the data. Exiting now."
         )
-        exit()
+        sys.exit(1)
 
     params_model = create_params(header_model, params_data_model, logger)
 
@@ -310,13 +310,13 @@ def flag_model_visibilities(
     if flaginfo_data.num_times != len(np.unique(model_times_to_use)):
 
         data_path = pyfhd_config["input_path"], pyfhd_config["obs_id"] + ".uvfits"
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        model_path = pyfhd_config["model_file_path"]
         logger.error(
             f"Could not match the time steps in the data uvfits: {data_path}"
             f" and model uvfits {model_path}. Please check the model "
             "and try again. Exiting now."
         )
-        exit()
+        sys.exit(1)
 
     # Now to flag the model - some models have no flagged tiles (antennas),
     # whereas the data might have flagged tiles (and so missing baselines).
@@ -326,14 +326,14 @@ def flag_model_visibilities(
     # If less antennas in the model than the data, we can't calibrate the whole
     # dataset so just error for now
     if flaginfo_model.num_ants < flaginfo_data.num_ants:
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        model_path = pyfhd_config["model_file_path"]
         logger.error(
             f"There are less antennas (tiles) in the model "
             f"{model_path} than in the data, so cannot calibrate the "
             "whole dataset. Please check the model "
             "and try again. Exiting now."
         )
-        exit()
+        sys.exit(1)
 
     # Test to see if there are auto-correlations in data
     # If they are in the data, but not the model, we need to reshape the
-- 
2.43.0


From 06e4e88edaf005257b057e6c99e6009ac8ae4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 079/118] fix: splitting the cross polarisation keeps its
 imaginary part and the inputs

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d1d457a..0e2d0ff 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1543,11 +1543,14 @@ def crosspol_split_real_imaginary(
     pol_names : list[str]|None]
         _description_
     """
-    crosspol_image: NDArray[np.complex128] = image[2]
+    # Copies, as the image and the names passed in are not to be changed
+    crosspol_image: NDArray[np.complex128] = image[2].copy()
+    image = image.copy()
     image[2] = crosspol_image.real
     image[3] = crosspol_image.imag
 
     if pol_names is not None:
+        pol_names = [str(pol_name) for pol_name in pol_names]
         crosspol_name: str = pol_names[2]
         pol_names[2] = f"{crosspol_name}_real"
         pol_names[3] = f"{crosspol_name}_imag"
-- 
2.43.0


From 33badd1e6932424206d3808b61e72317e380a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 080/118] fix: quickview images can be padded and keep the
 imaginary cross polarisation

---
 PyFHD/io/pyfhd_quickview.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 4d18bf6..630e2af 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -244,8 +244,12 @@ def quickview(
     beam_i = np.nonzero(beam_mask)
 
     # Generate our dirty images of the uv planes
-    instr_dirty_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
-    instr_model_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
+    # The cross polarizations are complex, and the images can be padded
+    instr_dirty_arr = np.empty(
+        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]],
+        dtype=np.complex128 if obs["n_pol"] >= 4 else np.float64,
+    )
+    instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
     for pol_i in range(obs["n_pol"]):
         complex_flag = pol_i > 1
@@ -295,6 +299,9 @@ def quickview(
         )
         instr_model_arr, _ = crosspol_split_real_imaginary(instr_model_arr)
         instr_residual_arr, _ = crosspol_split_real_imaginary(instr_residual_arr)
+        instr_dirty_arr = instr_dirty_arr.real
+        instr_model_arr = instr_model_arr.real
+        instr_residual_arr = instr_residual_arr.real
         # The weights should have been saved at this point and we only need them like this from here
         weights_uv, _ = crosspol_split_real_imaginary(weights_uv)
 
-- 
2.43.0


From a62e77d705828e40874080e5b54f7724198243f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 081/118] fix: each uv weights file holds the weights of its
 own polarisation

---
 PyFHD/io/pyfhd_quickview.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 630e2af..65f3f71 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -361,10 +361,10 @@ def quickview(
     fits_file_uv.header.set("CD1_2", 0.0, "Wavelengths / Pixel")
     fits_file_uv.header.set("CD2_2", obs["kpix"], "Wavelengths / Pixel")
     fits_file_uv.header.set(
-        "CRPIX1", obs_out["dimension"] / 2 + 1, "Reference Pixel in X"
+        "CRPIX1", obs["dimension"] / 2 + 1, "Reference Pixel in X"
     )
     fits_file_uv.header.set(
-        "CRPIX2", obs_out["elements"] / 2 + 1, "Reference Pixel in Y"
+        "CRPIX2", obs["elements"] / 2 + 1, "Reference Pixel in Y"
     )
     fits_file_uv.header.set("CRVAL1", 0.0, "Wavelengths (u)")
     fits_file_uv.header.set("CRVAL2", 0.0, "Wavelengths (v)")
@@ -417,7 +417,7 @@ def quickview(
             Path(fits_output, f"{pyfhd_config['obs_id']}_beam_{pol_names[pol_i]}.fits"),
             overwrite=True,
         )
-        fits_file_uv.data = np.abs(weights_uv) * obs["n_vis"]
+        fits_file_uv.data = np.abs(weights_uv[pol_i]) * obs["n_vis"]
         fits_file_uv.writeto(
             Path(
                 fits_output,
-- 
2.43.0


From 16951a84d7c50e364380ab0c3e4221506ab50bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 082/118] fix: uv planes are padded by fractional factors too

---
 PyFHD/gridding/gridding_utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index c89d14c..e98ee08 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -462,8 +462,17 @@ def dirty_image_generate(
         # di_uv1 = np.zeros((dimension_new, dimension_new), dtype = "complex")
         # di_uv1[dimension_new // 2 - elements // 2 : dimension_new // 2 + elements // 2,
         #        dimension_new // 2 - dimension // 2 : dimension_new // 2 + dimension // 2] = di_uv_use
+        # Keep the centre of the plane in the centre of the padded plane
+        elements_new = int(elements * max(pad_uv_image, 1))
+        dimension_new = int(dimension * max(pad_uv_image, 1))
+        pad_rows = elements_new // 2 - elements // 2
+        pad_cols = dimension_new // 2 - dimension // 2
         di_uv1 = np.pad(
-            di_uv_use, (np.max([dimension, elements]) // 2) * (int(pad_uv_image) - 1)
+            di_uv_use,
+            (
+                (pad_rows, elements_new - elements - pad_rows),
+                (pad_cols, dimension_new - dimension - pad_cols),
+            ),
         )
         di_uv_use = di_uv1 * (pad_uv_image**2)
 
-- 
2.43.0


From 1d57cad0481cf3ee73ebfeb4f6c6fa0f39f1a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 083/118] fix: a model with some of the auto-correlations keeps
 its rows in step

---
 PyFHD/source_modeling/vis_model_transfer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index bbc25d4..7046081 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -194,10 +194,8 @@ class _FlaggingInfoCounter(object):
         self.auto_locs = params["antenna1"] == params["antenna2"]
         self.num_autos = np.count_nonzero(self.auto_locs)
 
-        if self.num_autos == 0:
-            self.num_autos_per_time = 0
-        else:
-            self.num_autos_per_time = self.num_ants
+        # Not every antenna has to have its auto-correlation
+        self.num_autos_per_time = self.num_autos // self.num_times
 
         # indexes of the cross-correlations
         self.cross_locs = params["antenna1"] != params["antenna2"]
-- 
2.43.0


From 01f4ad2dd91a7d1e7b7969315aa16fc264d904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 084/118] fix: a model without all the tiles of the data is
 refused

---
 PyFHD/source_modeling/vis_model_transfer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 7046081..b07fc8f 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -424,6 +424,14 @@ def flag_model_visibilities(
         & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
     )[0]
 
+    # The model needs all of the baselines of the data
+    if include_cross_per_time.size != flaginfo_data.cross_locs_per_time.size:
+        logger.error(
+            "The tiles in the model do not match the tiles in the data. "
+            "Please check the model and try again. Exiting now."
+        )
+        sys.exit(1)
+
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
         (obs["n_pol"], obs["n_freq"], flaginfo_data.num_visis), dtype=np.complex128
-- 
2.43.0


From 9afebe7cc7e3932bb31a30b8cfa8118f6fffc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 085/118] fix: a run can be started from a calibration
 checkpoint

---
 PyFHD/pyfhd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index a851d98..c59eb91 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -340,7 +340,7 @@ def main():
                 )
     else:
         # Load the calibration checkpoint
-        if pyfhd_config["calibration_checkpoint"]:
+        if pyfhd_config["calibrate_checkpoint"]:
             cal_checkpoint = load(pyfhd_config["calibrate_checkpoint"], logger=logger)
             obs = cal_checkpoint["obs"]
             params = cal_checkpoint["params"]
-- 
2.43.0


From 1ad3999dfa1c35956e539a397b27750df7ccb48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 086/118] fix: the raw weights can be saved without the
 visibilities

---
 PyFHD/pyfhd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index c59eb91..c5b218a 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -132,11 +132,12 @@ def main():
         )
 
         # Save the raw visibilities and weights if the option is set
-        if pyfhd_config["save_visibilities"]:
+        if pyfhd_config["save_visibilities"] or pyfhd_config["save_weights"]:
             pyfhd_config["visibilities_path"] = Path(
                 pyfhd_config["output_dir"], "visibilities"
             )
             pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+        if pyfhd_config["save_visibilities"]:
             raw_vis_arr_path = Path(
                 pyfhd_config["visibilities_path"],
                 f"{pyfhd_config['obs_id']}_raw_vis_arr.h5",
-- 
2.43.0


From 291f46d961d1f95ecb48fa53dbe912db865250d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 087/118] fix: a run without calibration reaches the end

---
 PyFHD/pyfhd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index c5b218a..4b647a4 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -214,6 +214,8 @@ def main():
         # only one value
         pyfhd_config["beam_per_baseline"] = False
 
+    # Without calibration there is no cal dictionary
+    cal = None
     # Check if the calibrate checkpoint has been used, if not run the calibration steps
     if pyfhd_config["calibrate_checkpoint"] is None:
         if pyfhd_config["deproject_w_term"] is not None:
-- 
2.43.0


From f1499d9ab7d8ce3c24bacc8f47965bac03c89754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 088/118] fix: a run without gridding reaches the end and makes
 no images

---
 PyFHD/io/pyfhd_quickview.py | 5 +++++
 PyFHD/pyfhd.py              | 1 +
 2 files changed, 6 insertions(+)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 65f3f71..0454515 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -190,6 +190,11 @@ def quickview(
         logger.info(f"Saving the calibrated weights to {weights_path}")
         save(weights_path, vis_weights, "weights", logger=logger)
 
+    # Without recalculating the grid or a gridding checkpoint there is nothing to image
+    if image_uv is None:
+        logger.warning("No gridded uv planes available, no images will be created")
+        return
+
     obs_out = update_obs(
         obs, int(obs["dimension"] * pyfhd_config["pad_uv_image"]), obs["kpix"]
     )
diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 4b647a4..d9e8824 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -490,6 +490,7 @@ def main():
         grid_end = time.time()
         _print_time_diff(grid_start, grid_end, "Visibilities gridded", logger)
     else:
+        image_uv = weights_uv = variance_uv = uniform_filter_uv = model_uv = None
         if pyfhd_config["gridding_checkpoint"]:
             grid_checkpoint = load(pyfhd_config["gridding_checkpoint"], logger=logger)
             image_uv = grid_checkpoint["image_uv"]
-- 
2.43.0


From 6ab200482380275e367709437d95ab952aa2d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 089/118] fix: the gridding checkpoint holds the number of
 visibilities gridded

---
 PyFHD/pyfhd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index d9e8824..91fd38b 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -472,6 +472,7 @@ def main():
                 "weights_uv": weights_uv,
                 "variance_uv": variance_uv,
                 "uniform_filter_uv": uniform_filter_uv,
+                "nf_vis": obs["nf_vis"],
             }
             if vis_model_arr is not None:
                 checkpoint["model_uv"] = model_uv
@@ -497,6 +498,8 @@ def main():
             weights_uv = grid_checkpoint["weights_uv"]
             variance_uv = grid_checkpoint["variance_uv"]
             uniform_filter_uv = grid_checkpoint["uniform_filter_uv"]
+            if "nf_vis" in grid_checkpoint:
+                obs["nf_vis"] = grid_checkpoint["nf_vis"]
             if "model_uv" in grid_checkpoint:
                 model_uv = grid_checkpoint["model_uv"]
             logger.info(
-- 
2.43.0


From 70d45e79dfe38f2aaf51649565ec0b8640e87543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 090/118] fix: tile names to flag are kept whole

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index e77de3c..06d7d1f 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -483,7 +483,7 @@ def pyfhd_parser():
         "-ft",
         "--flag-tiles",
         default=[],
-        type=list,
+        type=str,
         action="append",
         help="A list of tile names to manually flag. I repeat, a list of tile names, NOT tile indices",
     )
@@ -868,7 +868,8 @@ def pyfhd_parser():
     )
     sim.add_argument(
         "--tile-flag-list",
-        type=list,
+        type=str,
+        action="append",
         help="A string array of tile names to manually flag tiles. Note that this is an array of tile names, not tile indices!",
     )
     sim.add_argument(
@@ -929,7 +930,7 @@ def pyfhd_parser():
     )
     healpix.add_argument(
         "--ps-tile-flag-list",
-        type=list,
+        type=str,
         default=[],
         action="append",
         help="A list of tile names to manually flag in the healpix export. I repeat, a list of tile names, NOT tile indices.",
-- 
2.43.0


From b506943b6dd620c1b48e41582a421915c05d6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 091/118] fix: invalid options end the run with a failure
 status

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 06d7d1f..a0d9420 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -6,6 +6,7 @@ import subprocess
 import logging
 from typing import Tuple
 import os
+import sys
 from PyFHD.pyfhd_tools.git_helper import retrieve_gitdict
 from importlib.metadata import version
 from glob import glob
@@ -1586,7 +1587,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         # Close the handlers in the log
         for handler in logger.handlers:
             handler.close()
-        exit()
+        sys.exit(1)
 
     if warnings:
         logger.warning(
-- 
2.43.0


From 20dbbd8d032c40ac07200bca8f1600c925478e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 092/118] fix: allowing sidelobe sources without model
 visibilities is reported as an error

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index a0d9420..9e38ffb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1455,7 +1455,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     # allow_sidelobe_model_sources depends on model_visibilities (Error)
     if (
         pyfhd_config["allow_sidelobe_model_sources"]
-        and not pyfhd_config["model_visibilities"]
+        and not pyfhd_config.get("model_visibilities")
     ):
         logger.error(
             "allow_sidelobe_model_sources shouldn't be True when model_visibilities is not, check if you meant to turn on model_visibilities"
-- 
2.43.0


From 67ad29fe4b4de19fafd0cde0ae66b4fc4a7362bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 093/118] fix: missing sav files of the model are found before
 the run starts

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 9e38ffb..0b44df4 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1467,7 +1467,11 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     if pyfhd_config["model_file_path"]:
         errors += _check_file_exists(pyfhd_config, "model_file_path")
 
-    if pyfhd_config["model_file_path"] == "sav":
+    # (a model isn't read when the run starts from a calibration checkpoint)
+    if (
+        pyfhd_config["model_file_type"] == "sav"
+        and pyfhd_config["calibrate_checkpoint"] is None
+    ):
         # We're expecting to find a params file, then a vis_model_XX and vis_model_YY at the very least
         if not Path.exists(
             Path(
@@ -1485,7 +1489,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
             file_path for file_path in files_in_model_path if regex.match(file_path)
         ]
         if len(matching_files) <= 2:
-            errors + 1
+            errors += 1
             logger.error(
                 f"You are missing some required files to read in the model visibilities from sav files, here is the list of found sav files: {matching_files}."
             )
-- 
2.43.0


From d4f3b4d8cda2b3e762e39ada1abd61f5f9bef3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 094/118] fix: enhancing the EoR signal needs EoR visibilities,
 not their absence

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 0b44df4..e28cdec 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1527,7 +1527,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "eor_vis_filepath")
 
     # enhance_eor depends on eor_vis_filepath when its not 1
-    if pyfhd_config["enhance_eor"] > 1 and pyfhd_config["eor_vis_filepath"]:
+    if pyfhd_config["enhance_eor"] != 1 and not pyfhd_config["eor_vis_filepath"]:
         logger.error(
             "enhance_eor is only used when importing general visibilities for a simulation, it should stay as 1 when eor_vis_filepath is not being used"
         )
-- 
2.43.0


From f4d57b153bc051f680591e96ef9af8a41a1e4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 095/118] fix: the parents of the output path are created too

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index e28cdec..b921c0b 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1215,7 +1215,7 @@ def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
             f"Output path specified by `--output-path={pyfhd_config['output_path']}` does not exist. Attempting to create now."
         )
         output_dir = Path(pyfhd_config["output_path"])
-        Path.mkdir(output_dir)
+        Path.mkdir(output_dir, parents=True)
         print(f"Successfully created directory: {pyfhd_config['output_path']}")
 
     # Create the output directory path. If the user has selected a description,
-- 
2.43.0


From 997ccbc982c43ad7512c9c4de00803ff7bd27cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 096/118] fix: export-images can be turned off, and the
 products asked for are saved all the same

---
 PyFHD/io/pyfhd_quickview.py      |  3 +++
 PyFHD/pyfhd.py                   | 31 +++++++++++++++----------------
 PyFHD/pyfhd_tools/pyfhd_setup.py |  2 +-
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 0454515..cdb3ab6 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -195,6 +195,9 @@ def quickview(
         logger.warning("No gridded uv planes available, no images will be created")
         return
 
+    if not pyfhd_config.get("export_images", True):
+        return
+
     obs_out = update_obs(
         obs, int(obs["dimension"] * pyfhd_config["pad_uv_image"]), obs["kpix"]
     )
diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 91fd38b..c6d6c1a 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -508,22 +508,21 @@ def main():
 
     # Call quickview to save the all the variables if set in the config. Also create dirty images and save
     # FITS files with the dirty images on a per polarization basis
-    if pyfhd_config["export_images"]:
-        quickview(
-            obs,
-            psf,
-            params,
-            cal,
-            vis_arr,
-            vis_weights,
-            image_uv,
-            weights_uv,
-            variance_uv,
-            uniform_filter_uv,
-            model_uv,
-            pyfhd_config,
-            logger,
-        )
+    quickview(
+        obs,
+        psf,
+        params,
+        cal,
+        vis_arr,
+        vis_weights,
+        image_uv,
+        weights_uv,
+        variance_uv,
+        uniform_filter_uv,
+        model_uv,
+        pyfhd_config,
+        logger,
+    )
 
     # Create the healpix HDF5 cubes and save them to disk
     if pyfhd_config["snapshot_healpix_export"]:
diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index b921c0b..a6b8edf 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -731,7 +731,7 @@ def pyfhd_parser():
     export.add_argument(
         "--export-images",
         help="Export fits files and images of the sky.",
-        action="store_true",
+        action=argparse.BooleanOptionalAction,
         default=True,
     )
     export.add_argument(
-- 
2.43.0


From 749c4571defe9f10152dd40bf2969a005749735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 097/118] fix: a log file is written unless it's turned off, as
 documented

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index a6b8edf..564c7b8 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -137,8 +137,15 @@ def pyfhd_parser():
     )
     parser.add_argument(
         "-l",
-        "--log-file",
+        dest="log_file",
         action="store_true",
+        default=True,
+        help=argparse.SUPPRESS,
+    )
+    parser.add_argument(
+        "--log-file",
+        action=argparse.BooleanOptionalAction,
+        default=True,
         help="Logging in a log file is enabled by default, set to False in the config to disable logging to a file.",
     )
     parser.add_argument(
-- 
2.43.0


From 59c7af648b4a9f89965ef3352645bb123d0a9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 098/118] fix: the collated configuration is accepted and
 reproduces the run

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 61 +++++++++++++-------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 564c7b8..6188463 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -3,6 +3,7 @@ import configargparse
 import argparse
 import time
 import subprocess
+import json
 import logging
 from typing import Tuple
 import os
@@ -181,6 +182,7 @@ def pyfhd_parser():
         help="A proxy for the field of view in degrees. FoV is actually used to determine kbinsize, which will be set to !RaDeg/FoV.\nThis means that the pixel size at phase center times dimension is approximately equal to FoV, which is not equal to the actual field of view owing to larger pixel sizes away from phase center.\nIf set to 0, then kbinsize determines the UV resolution.",
     )
     parser.add_argument(
+        "--deproject-w-term",
         "--deproject_w_term",
         type=float,
         default=None,
@@ -195,7 +197,7 @@ def pyfhd_parser():
     parser.add_argument(
         "--memory-threshold",
         type=int,
-        default=1e8,
+        default=100000000,
         help="Set a memory threshold for each chunk in set in bytes. By default it is set at ~100MB",
     )
     parser.add_argument(
@@ -1080,44 +1082,31 @@ def write_collated_yaml_config(
     ) as outfile:
         outfile.write(f"# input options used for run {pyfhd_config['log_name']}\n")
         outfile.write("# git hash for this run: {}\n".format(pyfhd_config["commit"]))
-        for key in pyfhd_config.keys():
-            # These either a direct argument or are variables set internally to
-            # each run,so should not appear in the yaml
-            if key in [
-                "top_level_dir",
-                "log_name",
-                "log_time",
-                "commit",
-                "obs_id",
-                "config_file",
+        # Only the options of the parser can be fed back, under the names the parser
+        # knows them by; everything else in the config is set internally by each run.
+        # Where an option can be spelled in more than one way, the first one is used.
+        yaml_keys = {}
+        for action in pyfhd_parser()._actions:
+            long_options = [opt for opt in action.option_strings if opt[:2] == "--"]
+            if long_options and action.dest not in [
+                "config",
                 "grid_psf_file_sav",
                 "grid_psf_file_npz",
             ]:
-                pass
-            else:
-                yaml_key = key.replace("_", "-")
-                if pyfhd_config[key] == None:
-                    outfile.write(f"{yaml_key} : ~\n")
-                elif type(pyfhd_config[key]) == float or type(pyfhd_config[key]) == int:
-                    outfile.write(f"{yaml_key} : {pyfhd_config[key]}\n")
-                elif type(pyfhd_config[key]) == bool:
-                    outfile.write(f"{yaml_key} : {pyfhd_config[key]}\n")
-                # If it's a list, write it out as a list of strings
-                # (Unless it's empty)
-                elif type(pyfhd_config[key]) == list:
-                    if len(pyfhd_config[key]) == 0:
-                        pass
-                    else:
-                        line = f"{key} : ["
-                        line += f"'{pyfhd_config[key][0]}'"
-                        for item in pyfhd_config[key][1:]:
-                            line += f", '{item}'"
-                        line += "]\n"
-                        # for item in pyfhd_config[key]:
-                        #     outfile.write(f"{key} : {item}\n")
-                        outfile.write(line)
-                else:
-                    outfile.write(f"{yaml_key} : '{pyfhd_config[key]}'\n")
+                yaml_keys.setdefault(action.dest, long_options[0][2:])
+        for key, yaml_key in yaml_keys.items():
+            if key not in pyfhd_config:
+                continue
+            value = pyfhd_config[key]
+            if isinstance(value, (list, tuple)):
+                # Leave out empty lists
+                if len(value) == 0:
+                    continue
+                value = [str(item) for item in value]
+            elif value is not None and not isinstance(value, (bool, int, float)):
+                value = str(value)
+            # Values in JSON are valid YAML, whatever the characters of a string are
+            outfile.write(f"{yaml_key} : {json.dumps(value, ensure_ascii=False)}\n")
 
 
 def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
-- 
2.43.0


From 67413f472ef7d94820dcdd7b9f475539407a45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 099/118] fix: the configuration files shipped hold only known
 options

---
 PyFHD/templates/pyfhd.yaml                       | 10 ++++------
 input/1088285600_example/1088285600_example.yaml |  2 +-
 pyfhd.yaml                                       |  2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/PyFHD/templates/pyfhd.yaml b/PyFHD/templates/pyfhd.yaml
index 961601a..c0eb4ce 100644
--- a/PyFHD/templates/pyfhd.yaml
+++ b/PyFHD/templates/pyfhd.yaml
@@ -3,7 +3,7 @@
 input-path : './input'
 recalculate-all : false
 silent : false
-disable-log : false
+log-file : true
 conserve-memory : false
 instrument : 'mwa'
 memory-threshold : 100000000
@@ -37,7 +37,7 @@ cal-phase-degree-fit : 1
 cal-reflection-hyperresolve : true
 cal-reflection-mode-theory : 150
 cal-reflection-mode-delay : false
-cal-reflection-mode-file : ~
+cal-reflection-mode-file : false
 min-cal-baseline : 50.
 vis-baseline-hist : true
 bandpass-calibrate : true
@@ -59,7 +59,6 @@ time-cut: ~
 
 # Gridding
 recalculate-grid : false
-recalculate-mapfn : false
 image-filter : 'filter_uv_uniform'
 
 # Deconvolution
@@ -82,7 +81,6 @@ ring-radius-multi : 10.
 description : ~
 
 # Model
-model-visibilities : false
 diffuse-model : ~
 model-catalog-file-path  :  ~ # 'GLEAM_v2_plus_rlb2019.sav' (FHD Default)
 allow-sidelobe-model-sources : false
@@ -98,6 +96,6 @@ remove-sim-flags : false
 
 # HEALPIX
 ps-kbinsize : 0.5
-ps-kspan : 600.
-restrict-hpx-inds : ~
+ps-kspan : 600
+restrict-healpix-inds : false
 split-ps-export : true
\ No newline at end of file
diff --git a/input/1088285600_example/1088285600_example.yaml b/input/1088285600_example/1088285600_example.yaml
index fec5502..c8ef435 100644
--- a/input/1088285600_example/1088285600_example.yaml
+++ b/input/1088285600_example/1088285600_example.yaml
@@ -18,7 +18,7 @@ deproject-w-term : ~
 # Checkpointing
 save-checkpoints: true
 obs-checkpoint: ~
-calibration-checkpoint: ~
+calibrate-checkpoint: ~
 gridding-checkpoint: ~
 
 # Instrument
diff --git a/pyfhd.yaml b/pyfhd.yaml
index b2f2275..dafcb29 100644
--- a/pyfhd.yaml
+++ b/pyfhd.yaml
@@ -18,7 +18,7 @@ deproject-w-term : ~
 # Checkpointing
 save-checkpoints: true
 obs-checkpoint: ~
-calibration-checkpoint: ~
+calibrate-checkpoint: ~
 gridding-checkpoint: ~
 
 # Instrument
-- 
2.43.0


From 19462bfbbc96d08ae948a89bed68b6d59e061be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 100/118] fix: only sav files named after the observation
 count, not those in a directory named after it

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 6188463..4225ebb 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1482,7 +1482,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         pattern = rf".*{re.escape(pyfhd_config['obs_id'])}.*\.sav$"
         regex = re.compile(pattern)
         matching_files = [
-            file_path for file_path in files_in_model_path if regex.match(file_path)
+            file_path
+            for file_path in files_in_model_path
+            if regex.match(Path(file_path).name)
         ]
         if len(matching_files) <= 2:
             errors += 1
-- 
2.43.0


From bfa474684838a4be5a1340c64fe72cc612f6cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 101/118] fix: model visibilities are matched to the data by
 the pair of tiles, not every pair needs a baseline

---
 PyFHD/source_modeling/vis_model_transfer.py | 133 ++++++++------------
 1 file changed, 49 insertions(+), 84 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index b07fc8f..05a2c38 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -197,29 +197,42 @@ class _FlaggingInfoCounter(object):
         # Not every antenna has to have its auto-correlation
         self.num_autos_per_time = self.num_autos // self.num_times
 
-        # indexes of the cross-correlations
-        self.cross_locs = params["antenna1"] != params["antenna2"]
+        # number of visibilities per time step, every baseline is there at every
+        # time step, although not every pair of antennas has to have a baseline
+        self.num_visi_per_time_step = self.num_visis // self.num_times
 
-        # how many cross-correlations there should be per time step
-        self.num_cross_per_time = int((self.num_ants * (self.num_ants - 1)) / 2)
-
-        # number of visibilities per time step
-        self.num_visi_per_time_step = self.num_cross_per_time + self.num_autos_per_time
+        self.ant1_single_time = params["antenna1"][: self.num_visi_per_time_step]
+        self.ant2_single_time = params["antenna2"][: self.num_visi_per_time_step]
 
         # within a single time step, where the cross-correlations are indexed
         # can use this while iterating over time to select the crosses only
-        self.cross_locs_per_time = np.where(
-            self.cross_locs[: self.num_visi_per_time_step]
+        self.cross_locs_per_time = np.nonzero(
+            self.ant1_single_time != self.ant2_single_time
         )[0]
 
-        # within a single time step, where the cross-correlations are indexed
-        # can use this while iterating over time to select the crosses only
-        self.auto_locs_per_time = np.where(
-            self.auto_locs[: self.num_visi_per_time_step]
+        # within a single time step, where the auto-correlations are indexed
+        # can use this while iterating over time to select the autos only
+        self.auto_locs_per_time = np.nonzero(
+            self.ant1_single_time == self.ant2_single_time
         )[0]
 
-        self.ant1_single_time = params["antenna1"][: self.num_visi_per_time_step]
-        self.ant2_single_time = params["antenna2"][: self.num_visi_per_time_step]
+    def baselines(self, tile_names: NDArray[np.integer]) -> list[tuple[int, int]]:
+        """
+        The tile indexes (one-indexed) of the two antennas of each visibility of a
+        single time step, no matter if the antennas are numbered by the tile index
+        or by the tile names in `tile_names`.
+        """
+        index = {ant_name: ant_name for ant_name in range(1, len(tile_names) + 1)}
+        # The numbers are tile names if there is one greater than the number of tiles
+        if np.max(self.ant_names) > len(tile_names):
+            index = {
+                int(ant_name): ant_ind + 1 for ant_ind, ant_name in enumerate(tile_names)
+            }
+        # An unknown number can only match itself
+        return [
+            (index.get(int(ant1), -int(ant1)), index.get(int(ant2), -int(ant2)))
+            for ant1, ant2 in zip(self.ant1_single_time, self.ant2_single_time)
+        ]
 
 
 def flag_model_visibilities(
@@ -368,69 +381,37 @@ def flag_model_visibilities(
     # the index of any flagged tiles in the data. All tile names are read in
     # from the metafits
 
-    flag_indexes = []
-
-    # if the data just have tile indexes, the maximum should be the number
-    # of tiles - use that to work out if we have Birli of pyuvdata input
-
-    # we should have a pyuvdata input in this case as a tile name is greater
-    # than the number of tiles
-    if np.max(flaginfo_data.ant_names) > len(obs["baseline_info"]["tile_names"]):
+    tile_names = obs["baseline_info"]["tile_names"]
+    baselines_data = flaginfo_data.baselines(tile_names)
+    baselines_model = flaginfo_model.baselines(tile_names)
 
-        # Loop over all possible antenna (tile) names, and if they're not in the
-        # list of antennas in this data set, append to flag_indexes
-        for ant_ind, ant_name in enumerate(obs["baseline_info"]["tile_names"]):
-            if ant_name not in flaginfo_data.ant_names:
-                flag_indexes.append(ant_ind + 1)
-
-    # tiles are named by their index (1 indexed as per uvfits standard)
-    else:
-        for ant_name in range(1, len(obs["baseline_info"]["tile_names"]) + 1):
-            if ant_name not in flaginfo_data.ant_names:
-                flag_indexes.append(ant_name)
+    flag_indexes = [
+        tile_ind
+        for tile_ind in range(1, len(tile_names) + 1)
+        if not any(tile_ind in baseline for baseline in baselines_data)
+    ]
 
     if len(flag_indexes) > 0:
         logger.info(
             f"Found flagged tiles {flag_indexes} in the data, flagging from the model"
         )
 
-    # This gives us true/false if the visibilities should be included
-    # for a single time step based on antenna1 and antenna2
-    include_per_time_ant1 = np.isin(
-        flaginfo_model.ant1_single_time, flag_indexes, invert=True
-    )
-    include_per_time_ant2 = np.isin(
-        flaginfo_model.ant2_single_time, flag_indexes, invert=True
-    )
-
-    # Doing a logic union combines info from ant1 and ant2
-    include_per_time = include_per_time_ant1 & include_per_time_ant2
-
-    # To get indexes of cross-correlations to use, ensure ant1 != ant2
-    # These are now indexes of unflagged cross-correlations to grab from model
-    # However we need the actual indexes, so we use include_per_time and
-    # check for where there is non_zeros. This previously check where they didn't
-    # match but that resulted in us getting the indexes of the antenna arrays rather
-    # than the baseline indexes
-    include_cross_per_time = np.nonzero(
-        include_per_time
-        & (flaginfo_model.ant1_single_time != flaginfo_model.ant2_single_time)
-    )[0]
-
-    # To get indexes of auto-correlations to use, ensure ant1 == ant2
-    # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.nonzero(
-        include_per_time
-        & (flaginfo_model.ant1_single_time == flaginfo_model.ant2_single_time)
-    )[0]
+    # Where the visibility of each baseline is within a time step of the model
+    model_inds = {baseline: i for i, baseline in enumerate(baselines_model)}
 
     # The model needs all of the baselines of the data
-    if include_cross_per_time.size != flaginfo_data.cross_locs_per_time.size:
+    locs_to_match = flaginfo_data.cross_locs_per_time
+    if include_autos:
+        locs_to_match = np.append(locs_to_match, flaginfo_data.auto_locs_per_time)
+    if any(baselines_data[loc] not in model_inds for loc in locs_to_match):
         logger.error(
             "The tiles in the model do not match the tiles in the data. "
             "Please check the model and try again. Exiting now."
         )
         sys.exit(1)
+    model_locs_to_match = np.array(
+        [model_inds[baselines_data[loc]] for loc in locs_to_match], dtype=int
+    )
 
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
@@ -441,31 +422,15 @@ def flag_model_visibilities(
     # that aren't to be flagged
     for t_data_ind, t_model_ind in enumerate(model_times_to_use):
 
-        # Subset of cross-corrs from flagged model to select for this time step
-        t_flag_inds = (
-            t_data_ind * flaginfo_data.num_visi_per_time_step
-            + flaginfo_data.cross_locs_per_time
-        )
-        # Subset of cross-corrs from full model to select for this time step
+        # Subset from flagged model to select for this time step
+        t_flag_inds = t_data_ind * flaginfo_data.num_visi_per_time_step + locs_to_match
+        # Subset from full model to select for this time step
         t_model_inds = (
-            t_model_ind * flaginfo_model.num_visi_per_time_step + include_cross_per_time
+            t_model_ind * flaginfo_model.num_visi_per_time_step + model_locs_to_match
         )
         # Stick it in the flagged model
         vis_model_arr_flagged[:, :, t_flag_inds] = vis_model_arr[:, :, t_model_inds]
 
-        # If we're doing autocorrelations, jam them in as well
-        if include_autos:
-            t_flag_inds = (
-                t_data_ind * flaginfo_data.num_visi_per_time_step
-                + flaginfo_data.auto_locs_per_time
-            )
-            t_model_inds = (
-                t_model_ind * flaginfo_model.num_visi_per_time_step
-                + include_auto_per_time
-            )
-
-            vis_model_arr_flagged[:, :, t_flag_inds] = vis_model_arr[:, :, t_model_inds]
-
     return vis_model_arr_flagged
 
 
-- 
2.43.0


From e4fed2b59b253925e3e7671775709a000515bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 102/118] fix: scalars of a lazily loaded beam file can be read

---
 PyFHD/beam_setup/beam_utils.py    |  4 ++--
 PyFHD/gridding/gridding_utils.py  | 10 +++++-----
 PyFHD/gridding/visibility_grid.py |  4 ++--
 PyFHD/pyfhd_tools/pyfhd_utils.py  |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 02b0652..5054dfa 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -122,9 +122,9 @@ def beam_image(
     rbin = 0
     # If we lazy loaded psf, get actual numbers out of the datasets
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
         freq_norm = freq_norm[:]
-        pix_horizon = pix_horizon[0]
+        pix_horizon = pix_horizon[()].item()
     dimension = elements = obs["dimension"]
     psf_dim = int(psf_dim)
     xl = dimension // 2 - psf_dim // 2 + 1
diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index e98ee08..c97cc37 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -144,8 +144,8 @@ def baseline_grid_locations(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
 
     # Frequency information of the visibilities
     if fill_model_visibilities:
@@ -602,8 +602,8 @@ def grid_beam_per_baseline(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
     # Loop over all visibilities that fall within the chosen visibility box
     for ii in range(vis_n):
         # Pixel center offset phases
@@ -747,7 +747,7 @@ def visibility_count(
     elements = int(obs["elements"])
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
 
     baselines_dict = baseline_grid_locations(
         obs,
diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 9a69dbb..9419452 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -146,8 +146,8 @@ def visibility_grid(
     psf_resolution = psf["resolution"]
     group_arr = psf["id"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = psf_dim[()].item()
+        psf_resolution = psf_resolution[()].item()
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
     n_samples = obs["n_time"]
diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 0e2d0ff..0662c13 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1118,7 +1118,7 @@ def vis_weights_update(
         ky_arr[conj_i] = -ky_arr[conj_i]
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = psf_dim[()].item()
     xcen = np.outer(obs["baseline_info"]["freq"], kx_arr)
     xmin = np.floor(xcen) + obs["dimension"] / 2 - (psf_dim / 2 - 1)
     ycen = np.outer(obs["baseline_info"]["freq"], ky_arr)
-- 
2.43.0


From d2d2aa33075bf489ebe586306655cd06c803736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 103/118] fix: flagged visibilities are left out of the
 baseline histogram of calibration residuals

---
 PyFHD/calibration/calibrate.py         | 4 +++-
 PyFHD/calibration/calibration_utils.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index e31f50e..a6af034 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -154,7 +154,9 @@ def calibrate(
 
     # Save the ratio and sigma average variance related to vis_cal
     logger.info("Saving the ratio and sigma average variance")
-    cal["vis_baseline_hist"] = vis_baseline_hist(obs, params, vis_cal, vis_model_arr)
+    cal["vis_baseline_hist"] = vis_baseline_hist(
+        obs, params, vis_cal, vis_model_arr, vis_weights
+    )
 
     # Calculate statistics to put into the calibration dictionary for output purposes
     logger.info("Calculating statistics from calibration")
diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 7c065fa..a9ee4ae 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1470,6 +1470,7 @@ def vis_baseline_hist(
     params: dict,
     vis_cal: NDArray[np.complex128],
     vis_model_arr: NDArray[np.complex128],
+    vis_weights: NDArray[np.float64] | None = None,
 ) -> dict:
     """
     Create diagnostic histograms of both the mean and sigma for the percent difference between calibrated
@@ -1485,6 +1486,8 @@ def vis_baseline_hist(
         Calibrated data visibilities
     vis_model_arr : NDArray[np.complex128]
         Simulated model visibilites
+    vis_weights : NDArray[np.float64] | None, optional
+        Weights (flags) of the visibilities, flagged visibilities are left out, by default None
 
     Returns
     -------
@@ -1510,7 +1513,10 @@ def vis_baseline_hist(
             if dist_hist[bin_i] > 0:
                 inds = dist_ri[dist_ri[bin_i] : dist_ri[bin_i + 1]]
                 model_vals = (vis_model_arr[pol_i]).flatten()[inds]
-                wh_noflag = np.where(np.abs(model_vals) > 0)[0]
+                noflag = np.abs(model_vals) > 0
+                if vis_weights is not None:
+                    noflag &= (vis_weights[pol_i]).flatten()[inds] > 0
+                wh_noflag = np.where(noflag)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
                     model_vals = model_vals[wh_noflag]
-- 
2.43.0


From 58e5c3647ec4e524262ece593cf68043c6d4e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 104/118] fix: calfits files with a spectral window axis can be
 transferred

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a9ee4ae..58c0fd0 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -403,7 +403,7 @@ def transfer_bandpass(
                         "Calfits file includes more than one spectral window. Note that this feature is not yet supported in PyFHD."
                     )
                 # Remove spectral window dimension for compatibility
-                data_array = np.mean(data_array, axis=0)
+                data_array = np.mean(data_array, axis=1)
             else:
                 raise RuntimeWarning(
                     "Calfits file does not appear to adhere to standard. Please see github:pyuvdata/docs/references"
-- 
2.43.0


From 0b3c8a5cfa91ef1da7fdae2a65b89c8c948929a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 105/118] fix: exchange the polarisations of a calfits file,
 don't copy one onto the other

---
 PyFHD/calibration/calibration_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 58c0fd0..51333f0 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -437,15 +437,9 @@ def transfer_bandpass(
 
         # Switch the pol convention to FHD standard if necessary
         if x_orient == "north" or x_orient == "south":
-            data_array[:, :, :, 0, :], data_array[:, :, :, 1, :] = (
-                data_array[:, :, :, 1, :],
-                data_array[:, :, :, 0, :],
-            )
+            data_array[:, :, :, 0:2, :] = data_array[:, :, :, [1, 0], :]
             if obs["n_pol"] > 2:
-                data_array[:, :, :, 2, :], data_array[:, :, :, 3, :] = (
-                    data_array[:, :, :, 3, :],
-                    data_array[:, :, :, 2, :],
-                )
+                data_array[:, :, :, 2:4, :] = data_array[:, :, :, [3, 2], :]
 
         # Check to see if the calibraton and observation frequency resolution match
         if freq_channel_width != obs["freq_res"]:
-- 
2.43.0


From 6535a0251cfe8ac458b1c045e2b3204557dbd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 106/118] fix: a calfits file of other frequencies is refused,
 whatever its channel width

---
 PyFHD/calibration/calibration_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 51333f0..db8473f 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -441,6 +441,15 @@ def transfer_bandpass(
             if obs["n_pol"] > 2:
                 data_array[:, :, :, 2:4, :] = data_array[:, :, :, [3, 2], :]
 
+        if freq_start != obs["baseline_info"]["freq"][0]:
+            raise RuntimeWarning(
+                "Calfits input freq start is not equal to observation freq start"
+            )
+        # Check that the channels of the file cover those of the observation
+        if n_freq * freq_channel_width < obs["n_freq"] * obs["freq_res"]:
+            raise RuntimeWarning(
+                "Calfits input does not cover the frequencies of the observation"
+            )
         # Check to see if the calibraton and observation frequency resolution match
         if freq_channel_width != obs["freq_res"]:
             freq_factor = obs["freq_res"] / freq_channel_width
@@ -452,10 +461,6 @@ def transfer_bandpass(
                 raise RuntimeWarning(
                     f"Calfits input freq channel width is not easily castable to the observation, different by a factor of {freq_factor}"
                 )
-            if freq_start != obs["baseline_info"]["freq"][0]:
-                raise RuntimeWarning(
-                    "Calfits input freq start is not equal to observation freq start"
-                )
             # Downselect the data array
             if freq_factor > 1:
                 logger.warning(
-- 
2.43.0


From c5bef7ccbe950e6e167a842cbd1445e89ce566a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 107/118] fix: average the channels of a finer calfits file,
 without those flagged

---
 PyFHD/calibration/calibration_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index db8473f..91a0f57 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -467,22 +467,22 @@ def transfer_bandpass(
                     f"Calfits input freq channel width is different by a factor of {freq_factor}. Avergaing Down."
                 )
                 # Set flagged indices to NAN to remove them from mean calculation
-                flag_inds = np.where(np.abs(np.squeeze(data_array[:, :, :, :, 2])) == 1)
-                data_array[flag_inds][0] = np.nan
-                data_array[flag_inds][1] = np.nan
+                flag_inds = np.where(np.abs(data_array[:, :, :, :, 2]) == 1)
+                data_array[flag_inds] = np.nan
+                freq_factor = int(freq_factor)
                 for channel_i in range(obs["n_freq"]):
                     data_array[:, channel_i, :, :, :] = np.nanmean(
                         data_array[
                             :,
-                            max(
-                                channel_i * freq_factor - np.floor(freq_factor / 2), 0
-                            ) : channel_i
+                            max(channel_i * freq_factor - freq_factor // 2, 0) : channel_i
                             * freq_factor
-                            + np.floor(freq_factor / 2.0),
+                            + freq_factor // 2
+                            + 1,
                             :,
                             :,
                             :,
-                        ]
+                        ],
+                        axis=1,
                     )
                 data_array = data_array[:, 0 : obs["n_freq"], :, :, :]
             elif freq_factor < 1:
-- 
2.43.0


From f729d0a6f2f7edc2b0f23fe420b860bc3d31ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 108/118] fix: interpolate the channels of a coarser calfits
 file

---
 PyFHD/calibration/calibration_utils.py | 43 +++++++-------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 91a0f57..28d10b7 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -489,39 +489,18 @@ def transfer_bandpass(
                 logger.warning(
                     f"Calfits input freq channel width is different by a factor of {freq_factor}. Using linear interpolation"
                 )
-                # The IDL code has 5 nested loops, and I can't think of the vectorization right now in a reasonable ampount of time
-                # Someone please vectorize laster if you can
-                data_array_temp = np.zeros(
-                    (data_dims[4], obs["n_freq"], n_time, n_jones, 2)
+                # The channels of the observation in units of the channels of the file, those
+                # after the last channel of the file take its value
+                channels = np.minimum(
+                    np.arange(obs["n_freq"]) * freq_factor, n_freq - 1
+                )
+                lower = np.floor(channels).astype(int)
+                upper = np.minimum(lower + 1, n_freq - 1)
+                fraction = (channels - lower).reshape((1, -1, 1, 1, 1))
+                data_array = (
+                    data_array[:, lower] * (1 - fraction)
+                    + data_array[:, upper] * fraction
                 )
-                for data_i in range(2):
-                    for jones_i in range(n_jones):
-                        for times_i in range(n_time):
-                            for tile_i in range(data_dims[4]):
-                                for channel_i in range(obs["n_freq"] - 1):
-                                    start_idx = int(channel_i * (1.0 / freq_factor))
-                                    end_idx = int((channel_i + 1) * (1.0 / freq_factor))
-                                    data_array_temp[
-                                        tile_i,
-                                        start_idx:end_idx,
-                                        times_i,
-                                        jones_i,
-                                        data_i,
-                                    ] = np.interp(
-                                        np.arange(start_idx, end_idx, 1.0),
-                                        np.arange(channel_i, channel_i + 1, 1.0),
-                                        data_array[
-                                            data_i,
-                                            jones_i,
-                                            times_i,
-                                            channel_i : channel_i + 1,
-                                            tile_i,
-                                        ],
-                                    )
-                data_array_temp[:, obs["n_freq"] - 1, :, :, :] = data_array[
-                    :, n_freq - 1, :, :, :
-                ]
-                data_array = np.copy(data_array_temp)
 
         # Check to see what time range this needs to be applied to, and if pointings are necessary
         if n_time != 1:
-- 
2.43.0


From 6e25f90f4275e4bd29b6eb323b523024e19e76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 109/118] fix: select or average the times of a calfits file

---
 PyFHD/calibration/calibration_utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 28d10b7..2a634bf 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -599,24 +599,20 @@ def transfer_bandpass(
                 # select pointing index in calfits that matches observation
                 obs_pointing_index = abs(pointing_calfits_start - obs_pointing)
                 # choose the corresponding pointing from the calfits data array
-                data_array = data_array[:, :, obs_pointing_index, :, :]
+                data_array = data_array[:, :, [obs_pointing_index], :, :]
             elif np.floor(time_delt) == np.floor(obs["time_res"]):
                 # Calibration fits are per-timeres
                 logger.info(
                     "Averaging calfits to observation length, an FHD requirement at this time."
                 )
-                data_array_temp = np.zeros(
-                    [data_dims[4], obs.n_freq, 1, data_dims[1], data_dims[0]]
-                )
-                data_array_temp[:, :, 0, :, :] = np.mean(data_array, axis=2)
-                data_array = np.copy(data_array_temp)
+                data_array = np.mean(data_array, axis=2, keepdims=True)
             else:
                 # Calibration fits are for a random set of times
                 logger.info(
                     "Finding closest match in time between calfits and obs. Obs metadata assumed to report start time, calfits metadata assumed to report center time."
                 )
                 time_delta = time_integration / (60 * 60 * 24)
-                time_array = np.full(n_time, time_start + time_delta)
+                time_array = time_start + np.arange(n_time) * time_delta
                 obs_julian_date = (
                     obs["astr"]["mjdobs"]
                     + 2400000.5
@@ -630,7 +626,7 @@ def transfer_bandpass(
                     )
                 # find the closest index between calfits and observation
                 time_index = np.argmin(np.abs(obs_julian_date - time_array))
-                data_array = data_array[:, :, time_index, :, :]
+                data_array = data_array[:, :, [time_index], :, :]
 
         # Check number of tiles
         if n_ant_data != obs["n_tile"]:
-- 
2.43.0


From 820fd3b5797a1fc9009f48bc274c45ed39680eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 110/118] fix: a transferred bandpass has the axes, phases and
 entries of the calibration

---
 PyFHD/calibration/calibration_utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 2a634bf..1f48242 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -635,15 +635,13 @@ def transfer_bandpass(
             )
 
         # Now that the checks are done, return the cal structure
-        cal_bandpass["n_pol"] = min(obs["n_pol"], 2)
+        cal_bandpass = deepcopy(cal)
         cal_bandpass["conv_thresh"] = 1e-7
-        cal_bandpass["gain"] = np.full(
-            (cal_bandpass["n_pol"], obs["n_tile"], obs["n_freq"]),
-            pyfhd_config["cal_gain_init"],
+        # The file has the tiles first, the gains have them last
+        cal_bandpass["gain"] = np.transpose(
+            data_array[:, 0 : obs["n_freq"], 0, 0 : cal["n_pol"], 0]
+            + 1j * data_array[:, 0 : obs["n_freq"], 0, 0 : cal["n_pol"], 1]
         )
-        cal_bandpass["gain"][0 : obs["n_pol"], :, :] = np.squeeze(
-            data_array[:, :, 0, 0 : obs["n_pol"], 0]
-        ) + 1j * np.squeeze(data_array[:, :, 0, 0 : obs["n_pol"], 1])
         logger.info("Calfits File has been read and cal_bandpass has been created")
     except FileNotFoundError as e:
         logger.error(
-- 
2.43.0


From 93ecea4b27183e8fed29ba9487256abcd53f099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 111/118] fix: files that aren't calfits files are refused, not
 a reason to crash

---
 PyFHD/calibration/calibration_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1f48242..b15cc9a 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -648,6 +648,11 @@ def transfer_bandpass(
             f"{pyfhd_config['cal_bp_transfer']} file wasn't found, skipping calibration bandpass transfer"
         )
         return {}, {}
+    except (KeyError, IndexError) as e:
+        logger.error(
+            f"{pyfhd_config['cal_bp_transfer']} isn't a calfits file, skipping calibration bandpass transfer: {e}"
+        )
+        return {}, {}
     except RuntimeWarning as e:
         logger.error(e)
         return {}, {}
-- 
2.43.0


From bfc610e2a27629af5492109e641fed0fd7314899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 112/118] fix: exchange the polarisations of a calfits file
 before any are left out

---
 PyFHD/calibration/calibration_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index b15cc9a..dff976d 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -419,6 +419,12 @@ def transfer_bandpass(
         n_freq = data_array.shape[1]
         n_time = data_array.shape[2]
 
+        # Switch the pol convention to FHD standard if necessary
+        if x_orient == "north" or x_orient == "south":
+            data_array[:, :, :, 0:2, :] = data_array[:, :, :, [1, 0], :]
+            if data_dims[1] > 2:
+                data_array[:, :, :, 2:4, :] = data_array[:, :, :, [3, 2], :]
+
         # Check whether the number of polarizations specified matches the observation analysis run
         jones_type_matrix = np.zeros(data_dims[1])
         for jones_i in range(1, data_dims[1]):
@@ -435,12 +441,6 @@ def transfer_bandpass(
                 "Not enough polarizations defined in the calibration fits file."
             )
 
-        # Switch the pol convention to FHD standard if necessary
-        if x_orient == "north" or x_orient == "south":
-            data_array[:, :, :, 0:2, :] = data_array[:, :, :, [1, 0], :]
-            if obs["n_pol"] > 2:
-                data_array[:, :, :, 2:4, :] = data_array[:, :, :, [3, 2], :]
-
         if freq_start != obs["baseline_info"]["freq"][0]:
             raise RuntimeWarning(
                 "Calfits input freq start is not equal to observation freq start"
-- 
2.43.0


From b1617b66c3bd9935e82eb90dbeca6f1daf67903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 113/118] fix: files that aren't FITS files are refused as a
 bandpass, not a reason to crash

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index dff976d..a6cac16 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -648,7 +648,7 @@ def transfer_bandpass(
             f"{pyfhd_config['cal_bp_transfer']} file wasn't found, skipping calibration bandpass transfer"
         )
         return {}, {}
-    except (KeyError, IndexError) as e:
+    except (KeyError, IndexError, OSError) as e:
         logger.error(
             f"{pyfhd_config['cal_bp_transfer']} isn't a calfits file, skipping calibration bandpass transfer: {e}"
         )
-- 
2.43.0


From 7c2510750fa835df0c850f00ee388818d2078e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 114/118] fix: rows of variable length arrays are saved as the
 type they are stored as, instead of their raw bytes being read as it

---
 PyFHD/io/pyfhd_io.py | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 45f5dc9..a2d35ae 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -162,6 +162,44 @@ def format_array(array: NDArray[Any]) -> NDArray[Any]:
     return array
 
 
+def format_rows(
+    value: NDArray[Any] | list | tuple, vlen_dtype: DTypeLike
+) -> NDArray[Any]:
+    """
+    Formats each row of a variable length array, see `PyFHD.io.pyfhd_io.format_array`, as
+    the type of the variable length array, as h5py doesn't convert the rows itself.
+
+    Parameters
+    ----------
+    value : NDArray[Any] | list | tuple
+        The rows of the variable length array
+    vlen_dtype : DTypeLike
+        The variable length type the rows will be saved as
+
+    Returns
+    -------
+    rows : NDArray[Any]
+        An object array of the rows
+
+    Raises
+    ------
+    ValueError
+        If a row has more than one dimension, HDF5 can't store those
+    """
+    row_dtype = h5py.check_vlen_dtype(np.dtype(vlen_dtype))
+    rows = np.empty(len(value), dtype=object)
+    for i, row in enumerate(value):
+        row = format_array(np.atleast_1d(row))
+        if row.ndim > 1:
+            raise ValueError(
+                "The rows of a variable length array have to be one dimensional"
+            )
+        if row_dtype is not None and np.dtype(row_dtype).kind in "biufc":
+            row = row.astype(row_dtype)
+        rows[i] = row
+    return rows
+
+
 def save_dataset(
     h5py_obj: h5py.File | h5py.Group,
     key: str,
@@ -227,9 +265,8 @@ def save_dataset(
             else:
                 # Since we're dealing with variable length arrays, we need to use a special dtype
                 # and process each array individually
-                for i, arr in enumerate(value):
-                    value[i] = format_array(arr)
                 value_dtype = variable_lengths[key]
+                value = format_rows(value, value_dtype)
             # If we want it to be chunked do that, always compress it
             # (except for a 0 dimensional array, HDF5 can't compress those)
             if value.ndim == 0:
@@ -256,10 +293,8 @@ def save_dataset(
             # Given that H5Py converts it into a NumPy array anyway, we can
             # at least control the conversion (if we need to)
             if key in variable_lengths:
-                value = np.array(value, dtype=object)
-                for i, arr in enumerate(value):
-                    value[i] = format_array(arr)
                 data_dtype = variable_lengths[key]
+                value = format_rows(value, data_dtype)
             else:
                 try:
                     value = np.array(value)
@@ -270,10 +305,12 @@ def save_dataset(
                         logger.warning(
                             f"Failed to save {key} as an array as the list couldn't turn into a NumPy array, trying to save as a variable length array. Please add {key} to the variable_lengths dictionary in the save function in future."
                         )
-                        value = np.array(value, dtype=object)
-                        for i, arr in enumerate(value):
-                            value[i] = format_array(arr)
-                        data_dtype = h5py.vlen_dtype(dtype_picker(value[0].dtype))
+                        # One type which can hold all of the rows
+                        row_dtype = np.result_type(
+                            *[format_array(np.asarray(arr)) for arr in value]
+                        )
+                        data_dtype = h5py.vlen_dtype(dtype_picker(row_dtype))
+                        value = format_rows(value, data_dtype)
                     else:
                         logger.info(
                             f"You received an error not related to the array being inhomogeneous, Here's the error: {e}"
-- 
2.43.0


From 9305855c87ed6a84505ede1948969739259323a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 115/118] fix: IDL pointer arrays starting with a null pointer
 and string arrays of several dimensions can be converted

---
 PyFHD/io/pyfhd_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index a2d35ae..cd41944 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -631,7 +631,7 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
         # We found a single array with only None
         elif type(data[key]) == np.ndarray and isinstance(data[key][0], type(None)):
             # Get all the None values and turn them into NaNs
-            none_values = np.where(data[key] == None)
+            none_values = np.nonzero(_is_none(data[key]))
             if np.size(none_values) > 0:
                 data[key][none_values] = np.nan
             # If all of the values were None, then set the array dtype to float64
@@ -640,7 +640,7 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
                 data[key] = data[key].astype(np.float64)
         # Assume we found a string array since it's bytes, convert to a string list
         elif type(data[key]) == np.ndarray and isinstance(data[key].flat[0], bytes):
-            data[key] = [x.decode().strip() for x in data[key]]
+            data[key] = np.char.strip(_decode_byte_arr(data[key]).astype(str)).tolist()
         # Found only bytes, assume it's a string, convert the string
         elif isinstance(data[key], bytes):
             data[key] = data[key].decode()
-- 
2.43.0


From 30924ae509f065d2c4e11bfcd71a15fd3ddd4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:03 +0000
Subject: [PATCH 116/118] fix: calibration plots are made for any number of
 tiles, not only for whole pages of 128

---
 PyFHD/plotting/calibration.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyFHD/plotting/calibration.py b/PyFHD/plotting/calibration.py
index bec9810..7d7e6d7 100644
--- a/PyFHD/plotting/calibration.py
+++ b/PyFHD/plotting/calibration.py
@@ -87,7 +87,7 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
     # Multiple pages will be required beyond 128 stations
     n_rows = 8
     n_cols = 16
-    n_pages = obs["n_tile"] // (n_cols * n_rows)
+    n_pages = int(np.ceil(obs["n_tile"] / (n_cols * n_rows)))
 
     # Create dictionary for the subplot grid to create reliable, static plots
     gridspec_kw = {
@@ -103,10 +103,9 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
         for page_i in range(n_pages):
 
             # Calculate number of stations for this page
-            if obs["n_tile"] // (n_cols * n_rows * (page_i + 1)) == 0:
-                page_tiles = obs["n_tile"] - (n_cols * n_rows * (page_i + 1))
-            else:
-                page_tiles = n_cols * n_rows
+            page_tiles = min(
+                obs["n_tile"] - (n_cols * n_rows * page_i), n_cols * n_rows
+            )
 
             # Define the subplots, add extra rows on the figsize to account for labels
             fig_amp, ax_amp = plt.subplots(
@@ -151,11 +150,11 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
                 row = (tile_i - page_i * (n_cols * n_rows)) // n_cols
 
                 ax_amp[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
                 ax_phase[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
 
-- 
2.43.0


From 11baaa410405f45cc0d47f0effe3f0e37229eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:06 +0000
Subject: [PATCH 117/118] fix: integer weights are inverted to their
 reciprocals, not to zeros and the largest negative integer

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 0662c13..dd8b8de 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -682,10 +682,12 @@ def weight_invert(
     # IDL is able to treat one number as an array (because every number is aprrently an array of size 1?)
     # As such we need to check if it's a number less than or equal to 0 and make a zeros array of size 1
     if np.isscalar(weights):
-        result = np.zeros(1, dtype=type(weights))
         weights = np.array([weights], dtype=type(weights))
+    # The inverse of an integer isn't one
+    if np.issubdtype(weights.dtype, np.inexact):
+        result = np.zeros_like(weights)
     else:
-        result = np.zeros_like(weights, dtype=weights.dtype)
+        result = np.zeros(weights.shape, dtype=np.float64)
     weights_use = weights
     if use_abs or np.iscomplexobj(weights_use):
         """
-- 
2.43.0


From bb17efb61b48795bce6400132b8c53dab7954983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:17 +0000
Subject: [PATCH 118/118] fix: the cubes' and re-derived groups of frequencies
 are those of the beam when the last one is smaller

---
 PyFHD/data_setup/obs.py | 5 ++---
 PyFHD/healpix/export.py | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 5b38a02..4b002ed 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -516,9 +516,8 @@ def update_obs(
         The new updated obs dictionary
     """
     if beam_nfreq_avg is None:
-        beam_nfreq_avg = np.round(
-            obs["n_freq"] / (np.max(obs["baseline_info"]["fbin_i"]) + 1)
-        )
+        # The last group of frequencies may be smaller than the others
+        beam_nfreq_avg = np.max(np.bincount(obs["baseline_info"]["fbin_i"]))
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 4001216..9db1c13 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -89,7 +89,8 @@ def healpix_snapshot_cube_generate(
         fbin_i = psf["fbin_i"]
         if isinstance(psf, h5py.File):
             fbin_i = fbin_i[:]
-        ps_nfreq_avg = np.round(obs["n_freq"] / np.max(fbin_i + 1))
+        # The last group of frequencies may be smaller than the others
+        ps_nfreq_avg = np.max(np.bincount(fbin_i))
     else:
         ps_nfreq_avg = pyfhd_config["ps_nfreq_avg"]
 
-- 
2.43.0


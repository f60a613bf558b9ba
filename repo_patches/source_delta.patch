From b1fa3d6f547b4453bdd731253b39252db1bdc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 01/41] fix: do not truncate the omegalm dict provided by the
 user

---
 gw_eccentricity/eccDefinition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..6f91ae9 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,10 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            # make a copy of the dict so that the user's dict is not modified
+            # when the data is truncated
+            amp_phase_omega_dict.update(
+                {"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
-- 
2.43.0


From f1ac2c1e4cabba3d84eef8516a4de4fad5e7d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 02/41] fix: do not shift the time array provided by the user
 in Fits methods

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..1d33e33 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -182,7 +182,10 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # axis such that merger occurs at t=0.
         # After the peaks are found, the time is reshifted to to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # NOTE: self.t is the same array as the one provided by the user. Hence,
+        # it should not be modified in place.
+        original_t = self.t
+        self.t = self.t - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -450,7 +453,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
 
         # Now that we are done with finding peaks, we shift the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = original_t
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From fa767b83e3d9d58b6abe38846b3b656f9474c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 03/41] fix: coprecessing transform of zeroecc amplm/phaselm,
 and do not modify the user's dict

---
 gw_eccentricity/eccDefinition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6f91ae9..673c756 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -959,7 +959,10 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # add only the modes for the given tag to a copy of data_dict so
+            # that neither the user's dictionary nor the modes for the other
+            # tag get modified.
+            data_dict = {**data_dict, "hlm" + tag: hlm_dict["hlm" + tag]}
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From 65d098c5d0c9148aea347c5fccaa709e4c054de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 04/41] fix: do not modify the extra_kwargs provided by the
 user for precessing systems

---
 gw_eccentricity/eccDefinition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 673c756..cdb3996 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -477,8 +477,8 @@ class eccDefinition:
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
             # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # Use a copy so that the dict provided by the user is not modified.
+            extra_kwargs = {} if extra_kwargs is None else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From d48fad4bff094fb37097f5930181bc72879b5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/41] fix: use_only_these_many_orbits with fref_in when the
 merger is not at t=0

---
 gw_eccentricity/eccDefinition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index cdb3996..8e87f46 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1982,7 +1982,9 @@ class eccDefinition:
             left = left_indices[0] if len(left_indices) > 1 else 0
             right = right_indices[0] if len(right_indices) > 1 else -1
             
-        time = self.t[left:right]
+        # The fit assumes the merger to be at t=0. So we use the time measured
+        # from the merger and add back t_merger before returning.
+        time = self.t[left:right] - self.t_merger
         omega = self.omega_gw[left:right]
         # downsample to minimize the computation for the fitting process
         if len(time) >= 1000:
@@ -1994,7 +1996,7 @@ class eccDefinition:
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
         idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
-        return time[idx]
+        return time[idx] + self.t_merger
         
     def get_amp_phase_omega_gw_segments(self):
         """Get the relevant data segment for eccentricity measurement.
-- 
2.43.0


From ac53473e363efb04c63fb1f2b57a22751541a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 06/41] fix: use_only_these_many_orbits with unsorted tref_in
 or fref_in

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 8e87f46..44be83c 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2058,13 +2058,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = min(self.tref_in), max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From 140669f31ea55ec3196eda72b4996feb10635a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 07/41] fix: measure at fref_in equal to the minimum allowed
 reference frequency

---
 gw_eccentricity/eccDefinition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 44be83c..20da8e3 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3343,6 +3343,12 @@ class eccDefinition:
                                   self.t_for_omega_gw_average,
                                   spline_kwargs=self.general_interp_kwargs,
                                   check_kwargs=False)
+            # fref_out is within the bounds of omega_gw_average. Make sure that
+            # due to round-off tref_in does not fall outside the times where
+            # omega_gw_average is available.
+            tref_in = np.clip(tref_in,
+                              self.t_for_omega_gw_average[0],
+                              self.t_for_omega_gw_average[-1])
             # check if tref_in is monotonically increasing
             if any(np.diff(tref_in) <= 0):
                 debug_message(f"tref_in from fref_in using method {method} is"
-- 
2.43.0


From 40f51525bfaa3871eac1bb59a78c46dbbaf0f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 08/41] fix: check for extrapolated zeroecc data and residual
 panels in diagnostic plots

---
 gw_eccentricity/eccDefinition.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 20da8e3..28fffbc 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2445,10 +2445,11 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        # t_zeroecc_shifted is available only when the residual data is computed.
+        if hasattr(self, "t_zeroecc_shifted") and (max(self.tref_out)
+                                                   > self.t_zeroecc_shifted[-1]):
             raise Exception("tref_out is in extrapolated region.\n"
-                            f"Last element in tref_out = {self.tref_out[-1]}\n"
+                            f"Last element in tref_out = {max(self.tref_out)}\n"
                             "Last element in t_zeroecc = "
                             f"{self.t_zeroecc_shifted[-1]}.\nThis might happen"
                             " when 'num_orbits_to_exclude_before_merger' is "
@@ -3523,7 +3524,7 @@ class eccDefinition:
                          self.plot_decc_dt,
                          self.plot_phase_diff_ratio_between_extrema,
                          self.plot_omega_gw_average]
-        if "hlm_zeroecc" in self.dataDict:
+        if hasattr(self, "res_amp_gw"):
             # add residual amp_gw plot
             if self.method != "ResidualAmplitude":
                 list_of_plots.append(self.plot_residual_amp_gw)
-- 
2.43.0


From a3b98b21ca38f8659017b1cd06244dd31eeb1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 09/41] fix: precessing=True for data without any mode
 asymmetry

---
 gw_eccentricity/spin_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..ffc7811 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -181,6 +181,10 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
             f"Unknown data type: {data_type}. Allowed types are: ['omega', 'amp']")
     combination_sign = 1 if data_type == "amp" else -1
     asymmetry = 0.5 * (data_copr_22 - combination_sign * data_copr_2m2)
+    # If the modes are symmetric up to numerical noise, for example, for a
+    # nonprecessing system, then there is nothing to filter.
+    if np.max(np.abs(asymmetry)) <= 1e-8 * np.max(np.abs(data_copr_22)):
+        return False
     secular_trend = _pn_fit_for_secular_trend(t, data_copr_22, data_type, t_merger)
     residual = data_copr_22 - secular_trend(t)
 
-- 
2.43.0


From 6f05b8bd7d120d68be2585ab3257f12eec8bbec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 10/41] fix: make truncate_waveform_by_flow work with the
 current eccDefinition

---
 gw_eccentricity/truncate_waveform_by_flow.py | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/truncate_waveform_by_flow.py b/gw_eccentricity/truncate_waveform_by_flow.py
index 87306e1..91cc4f6 100644
--- a/gw_eccentricity/truncate_waveform_by_flow.py
+++ b/gw_eccentricity/truncate_waveform_by_flow.py
@@ -72,7 +72,9 @@ def truncate_waveform_by_flow(dataDict=None,
     available_methods = get_available_methods(return_dict=True)
 
     if method in available_methods:
+        # tref_in is not used here but one needs to be provided.
         gwecc_object = available_methods[method](dataDict,
+                                                 tref_in=dataDict["t"][0],
                                                  extra_kwargs=extra_kwargs)
         # Get the pericenters
         pericenters = gwecc_object.find_extrema("pericenters")
@@ -83,11 +85,22 @@ def truncate_waveform_by_flow(dataDict=None,
             pericenters, 1.5, "pericenters")
         gwecc_object.pericenters_location = gwecc_object.drop_extrema_if_too_close(
             pericenters, extrema_type="pericenters")
+        # Only the pericenters are used here. The number of apocenters, which
+        # is the same up to one, is needed to guess the degree of rational fit.
+        gwecc_object.apocenters_location = gwecc_object.pericenters_location
+        t_pericenters = gwecc_object.t[gwecc_object.pericenters_location]
+        gwecc_object.t_for_checks = gwecc_object.t[
+            np.logical_and(gwecc_object.t >= t_pericenters[0],
+                           gwecc_object.t <= t_pericenters[-1])]
         # Build the interpolants of omega22 at the extrema
-        gwecc_object.omega22_pericenters_interp = gwecc_object.interp_extrema("pericenters")
+        gwecc_object.omega22_pericenters_interp \
+            = gwecc_object.get_omega_gw_extrema_interpolant("pericenters")
+    else:
+        raise Exception(f"Invalid method {method}, has to be one of"
+                        f" {list(available_methods.keys())}")
     # If m_max is not provided, get the highest available m from the dataDict
     if m_max is None:
-        modes = gwecc_object.dataDict["hlm"].keys()
+        modes = dataDict["hlm"].keys()
         m_max = max([m for (l, m) in modes])
     # Find time where omega22_apocenter_interp(tlow) = 2 * pi * flow
     tmin = gwecc_object.t[gwecc_object.pericenters_location[0]]
@@ -101,6 +114,10 @@ def truncate_waveform_by_flow(dataDict=None,
     idx_low = np.where(
         gwecc_object.f22_pericenters_interp * (m_max/2) >= flow)[0][0]
     tlow = gwecc_object.t_pericenters_interp[idx_low]
+    # If the frequency is already >= flow at the first pericenter, then
+    # frequencies >= flow may occur before it, so we keep everything.
+    if idx_low == 0:
+        tlow = gwecc_object.t[0]
 
     truncatedDict = copy.deepcopy(dataDict)
     for mode in truncatedDict["hlm"]:
-- 
2.43.0


From 4bc0d3d624c4172bef87184988990e944350b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 11/41] fix: errors in mean anomaly when the two values
 straddle zero

---
 gw_eccentricity/compare_methods.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/compare_methods.py b/gw_eccentricity/compare_methods.py
index 4717f95..c2409e4 100644
--- a/gw_eccentricity/compare_methods.py
+++ b/gw_eccentricity/compare_methods.py
@@ -92,10 +92,11 @@ def compute_errors_between_methods(gwecc_obj1,
     # Compute errors in mean anomaly at common tref_out
     mean_ano_ref_1_common = gwecc_obj1.mean_anomaly[common_idx1]
     mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]
-    # We need to unwrap the mean anomaly since zero and
-    # 2pi should be treated as the same and hence should give zero errors.
+    # zero and 2pi should be treated as the same and hence should give zero
+    # errors. Therefore, we take the difference modulo 2pi, such that it lies
+    # within [-pi, pi).
     mean_ano_errors = np.abs(
-        np.unwrap(mean_ano_ref_1_common)
-        - np.unwrap(mean_ano_ref_2_common))
+        (mean_ano_ref_1_common - mean_ano_ref_2_common + np.pi)
+        % (2 * np.pi) - np.pi)
     return tref_out_1_common, ecc_errors, mean_ano_errors, ecc_ref_1_common,\
         ecc_ref_2_common, mean_ano_ref_1_common, mean_ano_ref_2_common
-- 
2.43.0


From 28122ed3dcffcd762dfba4728800e11f0cd01ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 12/41] fix: pass mean_ano to LAL in load_LAL_waveform

---
 gw_eccentricity/load_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..35f2821 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -305,6 +305,7 @@ def load_LAL_waveform_using_hack(approximant, q, chi1, chi2, ecc, mean_ano,
     # h = hp -1j * hc
     t, h = generate_LAL_waveform(approximant, q, chi1, chi2,
                                  deltaTOverM, Momega0, eccentricity=ecc,
+                                 meanPerAno=mean_ano,
                                  phi_ref=phi_ref, inclination=inclination,
                                  physicalUnits=physicalUnits, M=M, D=D)
 
-- 
2.43.0


From cd0fbfd49d10859ac2abf6c99904d02244401f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 13/41] fix: do not extrapolate NR data beyond its end due to
 round-off in the time grid

---
 gw_eccentricity/load_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 35f2821..af494ac 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1212,6 +1212,8 @@ def get_modes_dict_from_sxs_catalog_old_format(**kwargs):
         if idx == 0:
             time = mode_data[:, 0]
             t = np.arange(time[0], time[-1], kwargs["deltaTOverM"])
+            # due to round-off, arange may go beyond time[-1]
+            t = t[t <= time[-1]]
         hlm = mode_data[:, 1] + 1j * mode_data[:, 2]
         # See comments under `get_modes_dict_from_sxs_catalog_format` on why we
         # interpolate real and imaginary parts instead of the amplitude and
@@ -1260,6 +1262,8 @@ def get_modes_dict_from_sxs_catalog_format(**kwargs):
     # Create a time array with step = dt, to interpolate the waveform
     # modes on this uniform time array.
     t = np.arange(time[0], time[-1], kwargs["deltaTOverM"])
+    # due to round-off, arange may go beyond time[-1]
+    t = t[t <= time[-1]]
     modes_dict = {}
     for mode in kwargs["mode_array"]:
         ell, m = mode
@@ -1838,6 +1842,8 @@ def load_lvcnr_hack(**kwargs):
     tend = min(t_for_amp22[-1], t_for_phase22[-1])
 
     t_interp = np.arange(tstart, tend, kwargs["deltaTOverM"])
+    # due to round-off, arange may go beyond tend
+    t_interp = t_interp[t_interp <= tend]
 
     # NOTE: The data were downsampled using romspline
     # (https://arxiv.org/abs/1611.07529), which uses higher order splines as
-- 
2.43.0


From 75ddf8766e7b48e687b3149fbe3072336f9191f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 14/41] fix: do not print rational fit details when
 debug_level=-1

---
 gw_eccentricity/eccDefinition.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 28fffbc..399e5bb 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1219,10 +1219,11 @@ class eccDefinition:
         debugging purpose. These variables may vary from method to method.
         """
         if self.omega_gw_extrema_interpolation_method == "rational_fit":
-            # set verbose to debug_level. If verbose is True, then it prints
-            # information of each iteration for rational fits for a given
-            # degree.
-            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level
+            # set verbose to True if debug_level >= 1. If verbose is True, then
+            # it prints information of each iteration for rational fits for a
+            # given degree.
+            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = (
+                self.debug_level >= 1)
             # keep history of rational fit degree and nonmonotonicity of the
             # corresponding fits
             self.rational_fit_nonmonotonicity_history = {
-- 
2.43.0


From 3b54828da7aba9ab52ca0e57807c7c2e33870528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 15/41] fix: keep all of the zeroecc waveform when it starts
 within 10 samples of the NR one

---
 gw_eccentricity/load_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index af494ac..e67f764 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1414,8 +1414,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # Finally we want to return zeroecc data only about the length of the
     # eccentric waveform and truncate the rest of the waveform to avoid
     # wasting computing resources
-    start_zeroecc_idx = np.argmin(
-        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10
+    start_zeroecc_idx = max(
+        0, np.argmin(np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10)
     for key in hlm_zeroecc.keys():
         hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]
 
-- 
2.43.0


From a609dfe706d8381de2b0922097b4b484257fdde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 16/41] fix: do not extrapolate the crossing timescale in the
 spin filter

---
 gw_eccentricity/spin_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index ffc7811..5b32ee3 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -60,7 +60,10 @@ def _build_delta_T_interpolant(t_mid, delta_t):
     function
         Interpolant function for delta T.
     """
-    return interp1d(t_mid, delta_t, kind='cubic', fill_value='extrapolate')
+    # Use the nearest value outside the range of t_mid. A cubic extrapolation may
+    # give a delta T that is not positive, resulting in an empty segment.
+    return interp1d(t_mid, delta_t, kind='cubic', bounds_error=False,
+                    fill_value=(delta_t[0], delta_t[-1]))
 
 
 def _pn_model(t, t_merger, A, power):
-- 
2.43.0


From b31aa819b1cc3fb80f27204b55d39c3a591b1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 17/41] fix: do not print spin filter details when
 debug_level=-1

---
 gw_eccentricity/spin_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 5b32ee3..8775b5a 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -582,7 +582,8 @@ class FilterSpinInducedOscillations:
         # get the cutoff frequency from amplitude spectrum
         f_cutoff, f_ecc, f_spin, freq_spectrum, amp_spectrum = _get_fcut_fecc_fspin(
             t_seg, residual_windowed, f_spin_guess, f_spin_lo_frac,
-            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac, self.debug_level)
+            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac,
+            verbose=self.debug_level > 0)
         
         # lowpass filter to remove the faster spin-induced oscillation
         fd = np.fft.rfft(residual_no_window)
-- 
2.43.0


From 4410374d67d0d91d1f0e455f3268188e882a6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 18/41] fix: respect debug_level when warning about too few
 extrema

---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 399e5bb..6360556 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1859,7 +1859,7 @@ class eccDefinition:
                     "Instead the eccentricity and mean anomaly will be set to "
                     "zero.",
                     important=True,
-                    debug_level=0)
+                    debug_level=self.debug_level)
             else:
                 recommended_methods = ["ResidualAmplitude", "AmplitudeFits"]
                 if self.method not in recommended_methods:
-- 
2.43.0


From d10a5e2127683269f17795646f0e70c079ac4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 19/41] fix: explain that omega_gw_zeroecc averaging needs
 zeroecc data

---
 gw_eccentricity/eccDefinition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6360556..632c2c1 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3186,6 +3186,11 @@ class eccDefinition:
 
     def compute_omega_gw_zeroecc(self, t):
         """Find omega_gw from zeroecc data."""
+        if "omegalm_zeroecc" not in self.dataDict:
+            raise Exception(
+                "omega_gw averaging method `omega_gw_zeroecc` must have "
+                "zeroecc data in dataDict. Provide 't_zeroecc' and "
+                "'hlm_zeroecc'.")
         return interpolate(
             t, self.t_zeroecc_shifted, self.omega_gw_zeroecc,
             spline_kwargs=self.general_interp_kwargs, check_kwargs=False)
-- 
2.43.0


From 46f5fe70d37f14b00ddfd0558d5fc7afd4320ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 20/41] fix: do not test the rational fit outside its range due
 to round-off

---
 gw_eccentricity/eccDefinition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 632c2c1..b6eabad 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1585,6 +1585,8 @@ class eccDefinition:
 
      # Generate test points once — fixed for the duration of this method
      x_test = np.arange(x[0], x[-1], self.t[1] - self.t[0])
+     # due to round-off the last point can be outside the range of x
+     x_test = x_test[x_test <= x[-1]]
 
      # Initial fit
      rat_fit = get_rational_fit(x, y, rational_fit_kwargs=kwargs, check_kwargs=False)
-- 
2.43.0


From 79a9315bfb6990a20932990a2b2068fe1404ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 21/41] fix: use the last sample in use_only_these_many_orbits
 segments at the end of the data

---
 gw_eccentricity/eccDefinition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index b6eabad..3f99ca1 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2126,9 +2126,10 @@ class eccDefinition:
                 + width_each_side
                 + additional_orbits_to_add_on_the_right * FOUR_PI_K
             ))[0]
-        self.segment_end_index = right_indices[0] if len(right_indices) > 0 else -1
+        self.segment_end_index = (
+            right_indices[0] if len(right_indices) > 0 else len(self.phase_gw))
         # adjust left side if near right boundary
-        if self.segment_end_index == -1:
+        if self.segment_end_index == len(self.phase_gw):
             additional_orbits_to_add_on_the_left = self._compute_additional_orbits(
                 "right", phase_right, -1, orbits_between, FOUR_PI_K)
             # update start index
-- 
2.43.0


From d2f3f24171b58d456d15e082b41a8bca9a4754a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 22/41] fix: time_deriv_4thOrder truncated the derivative of
 integer data

---
 gw_eccentricity/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d7f78a7..0a3e61b 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -155,7 +155,8 @@ def time_deriv_4thOrder(y, dt):
         Fourth order time derivative of y.
     """
     # Use a 5 point stencil
-    res = 0*y
+    # (floating point, so that derivatives of integers are not truncated)
+    res = 0.0*y
     # First do the interior
     res[2:-2] = (y[:-4] - 8*y[1:-3] + 8*y[3:-1] - y[4:])/12.
 
-- 
2.43.0


From 7cb0b675550aa7b568d05634d1790b5dff45f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 23/41] fix: drop the extremum before a gap near the start, as
 documented

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 3f99ca1..0da4abf 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1405,11 +1405,11 @@ class eccDefinition:
                 f"{phase_diff_previous/(4*np.pi):.2f}*4pi\n"
                 f"phase_gw difference between the next pair of {extrema_type}="
                 f"{phase_diff_current/(4*np.pi):.2f}*4pi\n"
-                f"{extrema_type} before {last_pair_indices[1]}, i.e., t < t="
-                f"{last_pair_times[-1]} are therefore dropped.",
+                f"{extrema_type} before {last_pair_indices[0]}, i.e., t < t="
+                f"{last_pair_times[0]} are therefore dropped.",
                 self.debug_level, important=False)
             extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+                                                extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From 3485390637cf80821b698b59553b95a13ed15000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 24/41] fix: drop the first of two too close extrema near the
 start, as documented

---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 0da4abf..5bf07f3 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1460,7 +1460,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1469,12 +1469,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From 98a83b7c5749232b1f17cddd05fd32700acec59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 25/41] fix: derive the circular EMRI file from the file name,
 not its directory

---
 gw_eccentricity/load_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e67f764..2aae719 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1968,7 +1968,9 @@ def load_EMRI_waveform(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         if kwargs["filepath_zero_ecc"] is None:
-            idx = kwargs["filepath"].find("e0")
+            # look for the eccentricity in the name of the file only
+            idx = kwargs["filepath"].find(
+                "e0", kwargs["filepath"].rfind("/") + 1)
             kwargs["filepath_zero_ecc"] = (
                 kwargs["filepath"][:idx] + "e0.000.h5")
         kwargs_zero_ecc = {
-- 
2.43.0


From 76a2250d249e3fd1cf42315eb47d65163982d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 26/41] fix: add the labels of the orbit averaged omega_gw at
 the extrema

---
 gw_eccentricity/plot_settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/plot_settings.py b/gw_eccentricity/plot_settings.py
index 4447a3c..a776c34 100644
--- a/gw_eccentricity/plot_settings.py
+++ b/gw_eccentricity/plot_settings.py
@@ -198,6 +198,8 @@ labelsDict = {
     "omega_gw_apocenters": r"$\omega^{\mathrm{a}}_{\mathrm{gw}}$",
     "omega_gw_average": r"$\langle\omega_{\mathrm{gw}}\rangle$",
     "omega_gw_average_dimless": r"$\langle\omega_{\mathrm{gw}}\rangle$ [rad/$M$]",
+    "orbit_averaged_omega_gw_pericenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{p}}$",
+    "orbit_averaged_omega_gw_apocenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{a}}$",
     "f_gw_average": r"$\langle f_{\mathrm{gw}}\rangle$",
     "f_gw_average_ref": r"$\langle f_{\mathrm{gw, ref}}\rangle$",
     "f_gw_ref": r"$f_{\mathrm{gw, ref}}$",
-- 
2.43.0


From ea30dfe8c6876758ad5ac59e9caa2bdd2de959fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 27/41] fix: write checkpoints atomically so that an
 interrupted write cannot lose the previous one

---
 gw_eccentricity/postprocess/postprocess_cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..61aeb1d 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -186,7 +187,11 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    # A run that is interrupted while writing must not damage the previous
+    # checkpoint.
+    tmp_path = f"{checkpoint_path}.tmp"
+    results_df.to_parquet(tmp_path)
+    os.replace(tmp_path, checkpoint_path)
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From baf877b03d9afbf5d6fc70203cf4969490a5ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 28/41] fix: write one row per selection for a sample that is
 selected more than once

---
 gw_eccentricity/postprocess/postprocess_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 61aeb1d..da7aca9 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -221,7 +221,10 @@ def save_final(
     results_df["sample_index"] = results_df["sample_index"].astype(int)
     combined = selected_posterior.copy()
     combined["sample_index"] = pd.array(row_indices, dtype=int)
-    combined = combined.merge(results_df, on="sample_index", how="left")
+    # A sample that is selected more than once gets one row for each time.
+    combined = combined.merge(
+        results_df.drop_duplicates("sample_index"),
+        on="sample_index", how="left")
 
     n_merged_success = (combined["status"] == "success").sum()
     n_merged_fail = (combined["status"] == "fail").sum()
-- 
2.43.0


From 78d429168eecd93363f9045b6c3619bc0571375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 29/41] fix: do not change the caller's spline_kwargs in
 get_interpolant

---
 gw_eccentricity/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index 0a3e61b..e36c122 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -293,7 +293,7 @@ def get_interpolant(oldX,
                 kwargs = spline_kwargs.copy()
                 kwargs["k"] = len(oldX) - 1
             else:
-                kwargs = spline_kwargs
+                kwargs = spline_kwargs.copy()
         else:
             raise Exception("Number of data points is {len(oldX)}."
                             " Cannot build an interpolant.")
-- 
2.43.0


From aa46263e053a1f9f153d9aa1ab5ce843cdabf86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 30/41] fix: fill in the number of data points in an error
 message

---
 gw_eccentricity/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index e36c122..d18daeb 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -295,7 +295,7 @@ def get_interpolant(oldX,
             else:
                 kwargs = spline_kwargs.copy()
         else:
-            raise Exception("Number of data points is {len(oldX)}."
+            raise Exception(f"Number of data points is {len(oldX)}."
                             " Cannot build an interpolant.")
         # If allowExtrapolation is True but ext=2 then raise a warning
         # and override ext to 0
-- 
2.43.0


From 50e79cd031fdf3936ec94cc64af6bf2322f236a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 31/41] fix: look for jumps of extrema in each half on its own

---
 gw_eccentricity/eccDefinition.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 5bf07f3..c4352c8 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1355,9 +1355,12 @@ class eccDefinition:
                                        max_r_delta_phase_gw_extrema)[0]
         mid_index = int(len(r_delta_phase_gw_extrema)/2)
         # Check if ratio is too large near the end of the data. Check also
-        # that this occurs within the second half of the extrema locations
-        if len(idx_too_large_ratio) > 0 and (idx_too_large_ratio[0]
-                                             > mid_index):
+        # that this occurs within the second half of the extrema locations.
+        # A large ratio within the first half does not say anything about
+        # the second half.
+        idx_too_large_ratio = idx_too_large_ratio[
+            idx_too_large_ratio > mid_index]
+        if len(idx_too_large_ratio) > 0:
             first_idx = idx_too_large_ratio[0]
             first_pair_indices = [extrema_location[first_idx+1],
                                   extrema_location[first_idx+2]]
@@ -1386,8 +1389,9 @@ class eccDefinition:
         # We want to detect extrema jump near the start of the data.
         # Check that the location where such jump is found falls within the
         # first half of the extrema locations.
-        if len(idx_too_small_ratio) > 0 and (idx_too_small_ratio[-1]
-                                             < mid_index):
+        idx_too_small_ratio = idx_too_small_ratio[
+            idx_too_small_ratio < mid_index]
+        if len(idx_too_small_ratio) > 0:
             last_idx = idx_too_small_ratio[-1]
             last_pair_indices = [extrema_location[last_idx+1],
                                  extrema_location[last_idx+2]]
-- 
2.43.0


From 273f9a1e21e510575f77e6b61dd3d74b18e27d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 32/41] fix: look for extrema too close in each half on its own

---
 gw_eccentricity/eccDefinition.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c4352c8..c5b18a1 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1442,8 +1442,9 @@ class eccDefinition:
         mid_index = int(len(phase_gw_diff_extrema)/2)
         if len(idx_too_close) > 0:
             # Look for too close pairs in the second half
-            if idx_too_close[0] > mid_index:
-                first_index = idx_too_close[0]
+            idx_in_second_half = idx_too_close[idx_too_close > mid_index]
+            if len(idx_in_second_half) > 0:
+                first_index = idx_in_second_half[0]
                 first_pair = [extrema_location[first_index],
                               extrema_location[first_index+1]]
                 first_pair_times = self.t[first_pair]
@@ -1461,8 +1462,9 @@ class eccDefinition:
                 extrema_location = extrema_location[
                     extrema_location <= extrema_location[first_index]]
             # Look for too close pairs in the first half
-            if idx_too_close[-1] < mid_index:
-                last_index = idx_too_close[-1]
+            idx_in_first_half = idx_too_close[idx_too_close < mid_index]
+            if len(idx_in_first_half) > 0:
+                last_index = idx_in_first_half[-1]
                 last_pair = [extrema_location[last_index],
                              extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
-- 
2.43.0


From 0b3263611c234d0f91aca12b5eed59e438e24183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 33/41] fix: transform to the coprecessing frame for any true
 precessing

---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c5b18a1..56230e5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -827,7 +827,7 @@ class eccDefinition:
         # if the system is precessing and the modes are given in the inertial
         # frame, rotate the modes and obtain the corresponding modes in the
         # coprecessing frame
-        if self.precessing is True and self.frame == "inertial":
+        if self.precessing and self.frame == "inertial":
             debug_message(
                 f"The system is precessing but the modes are provided in "
                 f"the {self.frame} frame. Transforming the modes from"
-- 
2.43.0


From 8312ed31e8f83b359ac4bdc491547e70103825b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 34/41] fix: diagnostic data of the fits methods are those of
 the fits

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 1d33e33..f8f2277 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -186,6 +186,11 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # it should not be modified in place.
         original_t = self.t
         self.t = self.t - self.t_merger
+        if self.return_diagnostic_data:
+            # The times of the extrema and the fits, and the extrema
+            # themselves, are those of these data.
+            self.diagnostic_data_dict["t"] = self.t
+            self.diagnostic_data_dict["data"] = self.data_for_finding_extrema
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
-- 
2.43.0


From a91ea887d8c2cf8414f0f4526463873780221383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 35/41] fix: length of the interval in which fits methods
 refine extrema

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index f8f2277..32ef431 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -977,7 +977,8 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                   "Npoints=", end='')
         for k in range(len(t_extrema)):
             # length of fitting interval = 0.05radians left/right
-            deltaT = 0.05 / data_extrema[k]
+            # (The data may be an amplitude.)
+            deltaT = 0.05 / np.interp(t_extrema[k], self.t, self.omega_gw)
             idx_refine = np.abs(self.t - t_extrema[k]) < deltaT
             # number of points to be used in fit
             N_refine = sum(idx_refine)
-- 
2.43.0


From 3c939b68ad12c0c23741d185d6bc1d12276ee762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 36/41] fix: companion of LVCNR waveforms without mean anomaly

---
 gw_eccentricity/load_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 2aae719..a417694 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1356,6 +1356,9 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # waveform with approximant provided in nr_dataDict["params_dict"]
     zero_ecc_kwargs = params_dict.copy()
     zero_ecc_kwargs["ecc"] = 0.0
+    # The mean anomaly of the NR waveform may be unknown
+    if zero_ecc_kwargs.get("mean_ano") is None:
+        zero_ecc_kwargs["mean_ano"] = 0.0
     zero_ecc_kwargs["include_zero_ecc"] = False  # to avoid double calc
     # calculate the Momega0 so that the length is >= the length of the NR
     # waveform.
-- 
2.43.0


From ed687131e01cb0cfbdeb8316fba0faa72cd3f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 37/41] fix: do not add defaults to the caller's interpolation
 options

---
 gw_eccentricity/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d18daeb..4fea6af 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -279,8 +279,10 @@ def get_interpolant(oldX,
 
     if interpolator == "spline":
         if check_kwargs:
+            # Defaults are not to be added to the dictionary of the caller.
             spline_kwargs = check_kwargs_and_set_defaults(
-                spline_kwargs, get_default_spline_kwargs(), "spline kwargs",
+                dict(spline_kwargs or {}), get_default_spline_kwargs(),
+                "spline kwargs",
                 "utils.get_default_spline_kwargs")
         # check that num of data points > order of spline
         if len(oldX) >= 2:
@@ -337,8 +339,9 @@ def get_rational_fit(x, y, rational_fit_kwargs=None, check_kwargs=True):
     Using the stabilized Santhanan-Koerner rational approximation.
     """
     if check_kwargs:
+        # Defaults are not to be added to the dictionary of the caller.
         rational_fit_kwargs = check_kwargs_and_set_defaults(
-            rational_fit_kwargs,
+            dict(rational_fit_kwargs or {}),
             get_default_rational_fit_kwargs(),
             "rational_fit_kwargs",
             "utils.get_default_rational_fit_kwargs"
-- 
2.43.0


From 0d0a5754e5ba2f5b13c42eec271ebb15e9faf63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 38/41] fix: refuse posteriors whose index is not unique

---
 gw_eccentricity/postprocess/postprocess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess.py b/gw_eccentricity/postprocess/postprocess.py
index 7479442..74463d1 100644
--- a/gw_eccentricity/postprocess/postprocess.py
+++ b/gw_eccentricity/postprocess/postprocess.py
@@ -59,6 +59,11 @@ class PostProcess:
             raise TypeError(
                 f"{self.posterior} should be a pandas DataFrame "
                 f"and not a {type(self.posterior)}.")
+        # Samples are selected and labelled by the index.
+        if not self.posterior.index.is_unique:
+            raise ValueError(
+                "The index of the posterior should be unique, use "
+                "`reset_index(drop=True)` to number the samples.")
         self.postprocess_result = None
         self.fref_bounds = None
         if not callable(data_dict_generator):
-- 
2.43.0


From 25264387486ff42daa0dd2d33c4a7dd9f767fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 39/41] fix: draw orbit averages in debug plot of averages only
 if they are used

---
 gw_eccentricity/eccDefinition.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 56230e5..8dee9d0 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3125,16 +3125,19 @@ class eccDefinition:
                              c=colorsDict["default"])
                 axes[1].plot(np.diff(omega_gw_average), marker=".",
                              c=colorsDict["default"])
-                axes[2].plot(self.t_average_pericenters,
-                             self.orbit_averaged_omega_gw_pericenters,
-                             label=labelsDict["pericenters"],
-                             c=colorsDict["pericenter"],
-                             marker=".")
-                axes[2].plot(self.t_average_apocenters,
-                             self.orbit_averaged_omega_gw_apocenters,
-                             label=labelsDict["apocenters"],
-                             c=colorsDict["apocenter"],
-                             marker=".")
+                # orbit averages are available only if they are being used
+                if hasattr(self, "t_average_pericenters"):
+                    axes[2].plot(self.t_average_pericenters,
+                                 self.orbit_averaged_omega_gw_pericenters,
+                                 label=labelsDict["pericenters"],
+                                 c=colorsDict["pericenter"],
+                                 marker=".")
+                    axes[2].plot(self.t_average_apocenters,
+                                 self.orbit_averaged_omega_gw_apocenters,
+                                 label=labelsDict["apocenters"],
+                                 c=colorsDict["apocenter"],
+                                 marker=".")
+                    axes[2].legend()
                 axes[3].plot(self.t, self.omega_gw, c=colorsDict["default"])
                 axes[3].plot(self.t_pericenters,
                              self.omega_gw[self.pericenters_location],
@@ -3146,7 +3149,6 @@ class eccDefinition:
                              c=colorsDict["apocenter"],
                              label=labelsDict["apocenters"],
                              marker=".")
-                axes[2].legend()
                 axes[2].set_ylabel(labelsDict["omega_gw_average"])
                 axes[3].legend()
                 axes[3].set_ylim(0,)
-- 
2.43.0


From 0a5ab611a3cb35696df8f79f37a1071df0f81cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 40/41] fix: package modes for scri for any ell_min

---
 gw_eccentricity/load_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index a417694..246747a 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1579,8 +1579,8 @@ def package_modes_for_scri(modes_dict, ell_min, ell_max):
     `ell`=2, the list should be [(2, -2), (2, 1), (2, 0), (2, 1), (2, 2)]
     """
     keys = modes_dict.keys()
-    shape = modes_dict[(2, 2)].shape
-    n_elem = (ell_max + 3) * (ell_max - 1)
+    shape = next(iter(modes_dict.values())).shape
+    n_elem = (ell_max + 1)**2 - ell_min**2
     # Start with a result array with zeros, and populate only those modes that are
     # available in modes_dict. This is necessary because scri expects a list of modes in
     # a particular order.
-- 
2.43.0


From 0ff648384c4ead908cf0c7d1b9eee336f25ba93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 41/41] fix: refuse to exclude so many orbits that no data are
 left

---
 gw_eccentricity/eccDefinition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 8dee9d0..e2bbe5d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -911,6 +911,11 @@ class eccDefinition:
                     phase_gw,
                     phase_gw_merger,
                     num_orbits_to_exclude_before_merger)
+            if index_num_orbits_earlier_than_merger < 2:
+                raise Exception(
+                    f"Excluding {num_orbits_to_exclude_before_merger} orbits "
+                    "before merger leaves no data to measure eccentricity "
+                    "from.")
             # Truncate amp, phase, omega in eccentric waveform data.
             for k in ["amplm", "phaselm", "omegalm"]:
                 for mode in newDataDict[k]:
-- 
2.43.0


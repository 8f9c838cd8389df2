From 431ba1cd0893d12016ca6110e103fcc300cfdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 01/34] fix: ks_test_gr treats empty and single-valued samples
 alike with warnings off

---
 seismostats/analysis/estimate_mc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..64497df 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,19 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
+    if len(magnitudes) == 0:
+        if get_option("warnings") is True:
+            warnings.warn("No sample given.")
+        return 0, 1, []
+
     if get_option("warnings") is True:
         if np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-        if len(magnitudes) == 0:
-            warnings.warn("No sample given.")
-            return 0, 1, []
-
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if get_option("warnings") is True:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From 01f48d267390068626f1d5cdbcea7d6c38e92f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 02/34] fix: plot_mags_in_time leaves the caller's completeness
 lists unchanged

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..115ce4e 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -361,8 +361,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = [*mc_change_times, np.max(times)]
+        mcs = [*mcs, mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From b36008451e359eeb804904b9099281e2e1c94b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 03/34] fix: b-more-positive works for continuous magnitudes
 (delta_m=0)

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From deb93352d7cfadd3d97c0a9836f52450cbc47238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 04/34] fix: estimate_b_weichert returns beta for
 b_parameter='beta'

---
 seismostats/analysis/bvalue/weichert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..e46fc83 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -208,6 +208,8 @@ def estimate_b_weichert(
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
+    else:
+        b = beta
 
     # compute uncertainty in rate at lower magnitude of completeness
     std_rate_at_lmc = rate_at_lmc / np.sqrt(complete_events.num.sum())
-- 
2.43.0


From e88f1b3a05cc2bad78dce87438bd88d2b05590b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 05/34] fix: estimate_b_kijko_smit returns beta for
 b_parameter='beta'

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e9d14ca 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -128,6 +128,8 @@ def estimate_b_kijko_smit(
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
+    else:
+        b = beta
 
     # get rate assuming Poisson process (Equation 10)
     denominator_rate = 0
-- 
2.43.0


From d33fd8925ed8c0f923a05d9321874b61814f4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 06/34] fix: estimate_b_kijko_smit ignores sub-catalogues
 without events

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e9d14ca..5758ed5 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,8 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From 945fc96e01993aafa241e84fd02bac92d9b98d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 07/34] fix: estimate_mc_b_stability returns a completeness
 magnitude of zero

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 64497df..889d48d 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -580,5 +580,6 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m)
+            if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From 1cb208b1aabc1772aba0172125c3d55cd0432d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 08/34] fix: estimate_mc_b_stability tests candidates for a
 stability range of one bin

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 889d48d..6fdd182 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -503,7 +503,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From 03f6aa2aea5191ccdb434cf54d6be15a0584d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 09/34] fix: estimate_mc_b_stability averages exactly the
 b-values of the stability range

---
 seismostats/analysis/estimate_mc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6fdd182..0964fe2 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -543,14 +543,14 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
+        mc_plus = mc + np.arange(steps) * delta_m
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
             sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
             estimator.calculate(sample_selected, mc_p, delta_m, **kwargs)
             b_ex.append(estimator.b_value)
-        b_avg = np.sum(b_ex) / steps
+        b_avg = np.mean(b_ex)
         diff_b = np.abs(b_avg - b) / std
         diff_bs.append(diff_b)
 
-- 
2.43.0


From d080a7b98c7cac2dc67d0e5c63efda99b4c0fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 10/34] fix: simulate_magnitudes honours a maximum magnitude of
 zero

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From 497234c2af7353a65b9e98bdc5a3b6ee1b7e0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 11/34] fix: declustering windows honour a time cutoff of zero

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From f99b8bde9d30f6f34c4f350a51c41635485b3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 12/34] fix: b_significant_1D keeps event-wise mc aligned with
 the sorted events

---
 seismostats/analysis/b_significant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
-- 
2.43.0


From a0de98ca02183bcbf5b7901dd18f5319e8e1d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 13/34] fix: plot_b_significant_1D keeps event-wise mc aligned
 with the sorted events

---
 seismostats/plots/statistical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..d3b516f 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -303,6 +303,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From 0094cd12c7c6dcc63c666517c8b078c32b8da900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 14/34] fix: GardnerKnopoffType1 works for catalogs with any
 index

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..ab8b905 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # events are addressed by position, whatever the index of the catalog
+        catalog = catalog.reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From 2e946fddd31eacc5991d67a995942e01f70d152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 15/34] fix: AMorePositiveAValueEstimator accepts a b-value of
 zero

---
 seismostats/analysis/avalue/more_positive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..1a49acf 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -92,7 +92,7 @@ class AMorePositiveAValueEstimator(AValueEstimator):
                 0.730070812347905
         '''
 
-        if not b_value:
+        if b_value is None:
             # if using estimate_a function, b_value can be None even though its
             # not passed to the function
             raise ValueError("b_value must be given")
-- 
2.43.0


From 142f7fa2bcd1f5cdaa8c356b2b4d71f4b23725f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 16/34] fix: estimate_b returns the number of events without
 the uncertainty

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From 22fdba8372b31c2311d4e96a7b6bd0cf91df8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 17/34] fix: estimate_mc_b_stability ignores undefined ratios
 when comparing

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 0964fe2..1b77624 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -559,7 +559,7 @@ def estimate_mc_b_stability(
 
         if diff_b <= 1:
             value = True
-            if diff_b == min(diff_bs):
+            if diff_b == np.nanmin(diff_bs):
                 best_mc = mc
                 best_b_value = b_values_test[-1]
             if stop_when_passed:
-- 
2.43.0


From 8fd665d68afd32ea9d6b60fad2d71bd86431ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 18/34] fix: truncated magnitudes stay inside their bounds for
 large magnitudes

---
 seismostats/utils/simulate_distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..a669909 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -37,10 +37,10 @@ def simulate_magnitudes(
     """
     if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        # relative to mc, so that the distribution keeps its resolution for
+        # large beta * mc
+        scaled_u = u * (1 - np.exp(-beta * (mag_max - mc)))
+        mags = mc - (1 / beta) * np.log(1 - scaled_u)
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From fea0fd46746bc902477046555b6f2a52ce6a4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 19/34] fix: ks_test_gr does not pass or crash on an undefined
 b-value

---
 seismostats/analysis/estimate_mc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 1b77624..201c5d3 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -90,6 +90,11 @@ def ks_test_gr(
             warnings.warn("Sample contains only one value.")
         return 0, 1, []
 
+    if np.isnan(b_value):
+        if get_option("warnings") is True:
+            warnings.warn("No b-value given.")
+        return 0, 1, []
+
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
 
-- 
2.43.0


From aba477ca88535a3b73b30bc81afbb0646b728592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 20/34] fix: estimate_mc_ks without candidates does not depend
 on the warnings option

---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 201c5d3..90d676d 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -249,10 +249,12 @@ def estimate_mc_ks(
         raise ValueError('Magnitudes are not binned correctly.')
 
     if get_option("warnings") is True:
-        if not binning_test(magnitudes, delta_m, check_larger_binning=False):
+        if len(magnitudes) > 0 and not binning_test(
+                magnitudes, delta_m, check_larger_binning=False):
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if len(mcs_test) > 0 and not binning_test(
+                mcs_test, delta_m, check_larger_binning=False):
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From 7d166bd4fc98ecaff03a1d07ce35c8b8ad6ea0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 21/34] fix: haversine of antipodal points is not NaN

---
 seismostats/analysis/declustering/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/declustering/utils.py b/seismostats/analysis/declustering/utils.py
index d0043c6..60f420e 100644
--- a/seismostats/analysis/declustering/utils.py
+++ b/seismostats/analysis/declustering/utils.py
@@ -54,6 +54,8 @@ def haversine(
         * np.cos(target_latitude)
         * (np.sin(dlon / 2.0) ** 2.0)
     )
+    # rounding can exceed 1 for antipodal points
+    aval = np.minimum(aval, 1.0)
     distance = (
         2.0 * earth_rad * np.arctan2(np.sqrt(aval), np.sqrt(1 - aval))
     ).T
-- 
2.43.0


From 131394a95c40bedc454bdb6c24560726d0bf2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 22/34] fix: b-more-positive uncertainty of an undefined
 b-value is NaN

---
 seismostats/analysis/bvalue/more_positive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..14e4fae 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -154,6 +154,10 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
+        # without a b-value there is nothing to resample
+        if np.isnan(self.b_value):
+            return np.nan
+
         estimator = self.__class__()
 
         # Define the function for the bootstrap.
-- 
2.43.0


From 38bf5d2c3f1afcffaa8d4abeb6423c66559a2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 23/34] fix: QuakeML text delivered in several pieces keeps its
 inner whitespace

---
 seismostats/io/parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..90db758 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.chars = []
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -237,7 +238,15 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         else:
             getattr(self, key)[-1][self.location + additional_key] = value
 
+    def flush(self):
+        """Store the text collected since the last tag."""
+        text = ''.join(self.chars).strip()
+        self.chars = []
+        if text and self.parent:
+            self.setter(self.parent, text)
+
     def startElement(self, tagName, attrs):
+        self.flush()
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -251,6 +260,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        self.flush()
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -269,8 +279,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        # the text of an element can arrive in several pieces
+        self.chars.append(chars)
 
     def startDocument(self):
         pass
-- 
2.43.0


From 18a8243d25852f172999c4049cc13a37af38f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 24/34] fix: magnitudes without type do not stop the reading of
 QuakeML

---
 seismostats/io/parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 90db758..d71a0a7 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -67,19 +67,21 @@ def SECONDARY_MAGNITUDE_MAPPINGS(type):
 
 def _select_magnitude_by_id(magnitudes: list, id: str | None) \
         -> tuple[dict, list]:
-    preferred = next((m for m in magnitudes if id
-                     == m['magnitudepublicID']), DUMMY_MAGNITUDE)
+    preferred = next((m for m in magnitudes if id is not None
+                     and id == m.get('magnitudepublicID')), DUMMY_MAGNITUDE)
 
+    # magnitudes without a type are only used if they are preferred
+    magnitudes = [m for m in magnitudes if 'magnitudetype' in m]
     magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+                  != preferred.get('magnitudetype') or m is preferred]
 
     return preferred, magnitudes
 
 
 def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
-    preferred = next((o for o in origins if id
-                     == o['originpublicID']), DUMMY_ORIGIN)
-    origins = [o for o in origins if id != o['originpublicID']]
+    preferred = next((o for o in origins if id is not None
+                     and id == o.get('originpublicID')), DUMMY_ORIGIN)
+    origins = [o for o in origins if o is not preferred]
     return preferred, origins
 
 
-- 
2.43.0


From 05ad2cdc8e399ae8476cb0cbf6c7ce462b9ab2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 25/34] fix: newest QuakeML magnitude by the whole creation
 time

---
 seismostats/io/parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index d71a0a7..23e515f 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,7 +1,7 @@
 import xml.sax
-from datetime import datetime
 from xml.sax._exceptions import SAXParseException
 
+import pandas as pd
 from requests import Response
 
 
@@ -119,8 +119,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-            datetime.strptime(x[key2[1]][:19], '%Y-%m-%dT%H:%M:%S')
-            if key2[0] else None),
+            pd.to_datetime(x[key2[1]], utc=True) if key2[0] else None),
             reverse=True)
 
         # select magnitude with highest version number and creation time
-- 
2.43.0


From dd28a0bd678ff3e94fb3bfa10d5a11fb6343066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 26/34] fix: b-more-positive uncertainty of an infinite b-value
 is NaN

---
 seismostats/analysis/bvalue/more_positive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 14e4fae..f0fe7e8 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -154,8 +154,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
-        # without a b-value there is nothing to resample
-        if np.isnan(self.b_value):
+        # an undefined or infinite b-value has no standard deviation
+        if not np.isfinite(self.b_value):
             return np.nan
 
         estimator = self.__class__()
-- 
2.43.0


From 567bd5cadabfa6304c6d64e778dfb026a1aa3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 27/34] fix: estimate_b_kijko_smit rate uses the time span of
 each sub-catalogue

---
 seismostats/analysis/bvalue/kijko_smit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 5758ed5..d964faa 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -134,12 +134,15 @@ def estimate_b_kijko_smit(
         b = beta
 
     # get rate assuming Poisson process (Equation 10)
+    # with the time spans covered by the sub-catalogues
     denominator_rate = 0
+    end_year = last_year
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        denominator_rate += (end_year - completeness_years[idx]) * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
+        end_year = completeness_years[idx]
 
     rate_at_lmc = ncomplete / denominator_rate
     a_val = np.log10(rate_at_lmc) + (beta / np.log(10)) * (
-- 
2.43.0


From abc273d837d759134d02ed2f2786fbc84690fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 28/34] fix: rate grid cells with undefined bounds are kept and
 identified

---
 seismostats/catalogs/rategrid.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..a3085c3 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
@@ -14,6 +13,10 @@ REQUIRED_COLS_RATEGRID = [
     'a', 'b', 'mc'
 ]
 
+_CELL_BOUNDS = ['longitude_min', 'longitude_max',
+                'latitude_min', 'latitude_max',
+                'depth_min', 'depth_max']
+
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
     df = GRRateGrid(*args, **kwargs)
@@ -270,12 +273,9 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
-
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            # cells with the same undefined (NaN) bounds are the same
+            self['cell'] = pd.DataFrame(self).groupby(
+                _CELL_BOUNDS, dropna=False).ngroup().to_numpy()
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
@@ -452,7 +452,9 @@ class ForecastGRRateGrid(GRRateGrid):
         """
         # Base columns to compute statistics on
         rategrid = self.copy()
-        rategrid = rategrid.dropna(axis=1, how='all')
+        empty_cols = rategrid.columns[rategrid.isna().all()]
+        rategrid = rategrid.drop(
+            columns=empty_cols.difference(_CELL_BOUNDS))
 
         # get available columns
         base_cols = ['number_events', 'b', 'mc', 'a', 'alpha']
@@ -472,9 +474,8 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            # cells can have undefined (NaN) bounds
+            agg = {'by': _CELL_BOUNDS, 'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From 1e788daf1059b860626d5930fdc36cdc3e66ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 29/34] fix: QuakeML export escapes text and omits missing
 types

---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..9b62ae0 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                {{'<type>{}</type>'.format(event.magnitude_type|e) if event.magnitude_type and not event.magnitude_type is nan else '' -}}
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                {{'<evaluationMode>{}</evaluationMode>'.format(event.evaluationmode|e) if event.evaluationmode and not event.evaluationmode is nan else '' -}}
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From d699f462e0778ab837b38ce51107c1c40affd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 30/34] fix: QuakeML export keeps every secondary magnitude

---
 seismostats/catalogs/catalog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..641cf4a 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1503,10 +1503,10 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
+                mag_type = mag.split('_')[1]
+                if pd.notna(event[mag]) \
+                        and event['magnitude_type'] != mag_type:
 
-                    mag_type = mag.split('_')[1]
                     mag_key = mag.replace('_' + mag_type, '')
 
                     event['sec_mags'][mag_type][mag_key] = \
-- 
2.43.0


From 5f0ec2a0496c2c17a9886c56c23f4c24e1e00a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 31/34] fix: missing QuakeML ids are created also in existing
 columns

---
 seismostats/catalogs/catalog.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 641cf4a..6e6b40b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1438,19 +1438,21 @@ class Catalog(pd.DataFrame):
         df = self.copy()
 
         for col in ['eventID', 'originID', 'magnitudeID']:
-            if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+            ids = df[col] if col in df.columns else [None] * len(df)
+            df[col] = [uuid.uuid4().hex if pd.isna(x) else x for x in ids]
 
         mag_types = set([mag.split('_')[1]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
-            if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+            col = f'magnitude_{mag_type}_magnitudeID'
+            ids = df[col] if col in df.columns else [None] * len(df)
+            df[col] = [
+                x if pd.notna(x)
+                else magnitude_id if preferred == mag_type
+                else uuid.uuid4().hex
+                for x, magnitude_id, preferred
+                in zip(ids, df['magnitudeID'], df['magnitude_type'])]
 
         return df
 
@@ -1495,7 +1497,7 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
@@ -1513,6 +1515,11 @@ class Catalog(pd.DataFrame):
                         event[mag]
                 del event[mag]
 
+            # created IDs do not make a magnitude
+            event['sec_mags'] = {key: mag for key, mag
+                                 in event['sec_mags'].items()
+                                 if 'magnitude' in mag}
+
         return _render_template(data, QML_TEMPLATE)
 
     def __finalize__(self, other, method=None, **kwargs) -> Catalog:
-- 
2.43.0


From ee351a27bbf3570f81a7fa00d3e9775f37dc234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:30 +0000
Subject: [PATCH 32/34] fix: a-more-positive no longer rounds the scaled times
 to the unit of the times

---
 seismostats/analysis/avalue/more_positive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index 1a49acf..c8b06cc 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -152,11 +152,12 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         # estimate the number of events within the time interval
         total_time = self.times[-1] - self.times[0]
 
-        # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        # scale the time (as a fraction of the total time: a time difference
+        # multiplied by a number is rounded to the unit of the times)
+        tau = time_diffs / total_time * 10**(
+            -self.b_value * (self.magnitudes + self.dmc - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From 9988e02378867972bcdc2c0deaddcfeeafb02c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:14 +0000
Subject: [PATCH 33/34] fix: pandas operations on a Catalog that derive tables
 without times or from arrays (isna, dropna, info, T, map, diff, count)

---
 seismostats/catalogs/catalog.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 6e6b40b..e1fff04 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,7 +47,12 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(data=None, *args, **kwargs):
+    if isinstance(data, pd.DataFrame):
+        df = data
+    else:
+        df = pd.DataFrame(data, *args, **kwargs)
+        kwargs = {}
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
@@ -184,12 +189,14 @@ class Catalog(pd.DataFrame):
                 self[num] = pd.to_numeric(self[num], errors='coerce')
 
         for tc in time_cols:
-            if tc in self.columns:
+            # derived tables (isna, diff, count, ...) may not contain times
+            if tc in self.columns and self[tc].dtype.kind not in 'bm':
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
                 except (ValueError, OutOfBoundsDatetime):
-                    self[tc] = self[tc].apply(_robust_parse_datetime)
+                    if self[tc].dtype.kind not in 'iuf':
+                        self[tc] = self[tc].apply(_robust_parse_datetime)
 
         # make sure empty rows in string columns are NoneType
         for strc in string_cols:
-- 
2.43.0


From dbacf1f3d622db02c4b033bfda6a324f5895296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:55 +0000
Subject: [PATCH 34/34] fix: Catalog(columns=...) without data raised a
 TypeError

---
 seismostats/catalogs/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index e1fff04..1cb2fbe 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -161,8 +161,8 @@ class Catalog(pd.DataFrame):
         if data is not None or 'columns' in kwargs:
             super().__init__(data, **kwargs)
         # if this dataframe is empty however, set some default columns
-        if data is None or self.columns.empty:
-            super().__init__(columns=CATALOG_COLUMNS, **kwargs)
+        if (data is None and 'columns' not in kwargs) or self.columns.empty:
+            super().__init__(**{**kwargs, 'columns': CATALOG_COLUMNS})
 
         self.name = name
         self.mc = mc
-- 
2.43.0


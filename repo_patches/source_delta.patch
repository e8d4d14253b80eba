From a723a571ca1a4bff65e798eb94fd7b27c6a8a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 01/71] fix: do not reject correctly binned values because of
 float resolution

binning_test compared with an absolute tolerance of 1e-15, which is below
the resolution of doubles larger than 8: e.g. magnitudes [7.4, 8.2] were
reported as not binned with 0.1, and all estimators refused them.
---
 seismostats/utils/binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 03e1fc5..6ecfa7e 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -146,6 +146,9 @@ def binning_test(
     # filter out NaN values
     x = x[~np.isnan(x)]
 
+    # the values cannot be compared more precisely than they are represented
+    resolution = 4 * np.spacing(np.max(np.abs(x)).astype(float))
+
     # shift the array to the smallest value (to avoid that the bin-center has
     # an effect on the test)
     x = x - np.min(x)
@@ -168,6 +171,7 @@ def binning_test(
         x_binned = bin_to_precision(x, delta_x)
 
         # This test checks if the bins are equal or larger than delta_x.
+        tolerance = max(tolerance, resolution)
         test_1 = np.allclose(x_binned, x, atol=tolerance, rtol=1e-16)
 
         # If the test_1 is True, we check if a larger binning is correct.
-- 
2.43.0


From 46c68cb9319299c8b3c09e269c167cc54a95463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 02/71] fix: binning_test with delta_x = 0 always raised

With the default tolerance the test started with bin sizes that
bin_to_precision refuses; it also skipped a bin size equal to the range.
---
 seismostats/utils/binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 6ecfa7e..044d7fe 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -155,12 +155,15 @@ def binning_test(
 
     if delta_x == 0 and check_larger_binning is True:
         range = np.max(x) - np.min(x)
+        # bin sizes smaller than EPSILON cannot be tested
         power = np.arange(
-            np.floor(np.log10(tolerance)) + 1, np.ceil(np.log10(range)), 1
+            np.floor(np.log10(max(tolerance, EPSILON))) + 1,
+            np.floor(np.log10(range)) + 1, 1
         )
         delta_x_test = 10**power
         test = True
         tolerance = 10 ** (np.floor(np.log10(tolerance)) - 1)
+        tolerance = max(tolerance, resolution)
         for delta_x_loop in delta_x_test:
             if binning_test(x, delta_x_loop, tolerance):
                 return False
-- 
2.43.0


From 803085e54dd6a9d20f12e70d0bd339ecd5d1ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 03/71] fix: b-more-positive failed for continuous magnitudes
 (delta_m = 0)

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From a5649bf628acac82cd8a61777250f81bc47b3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 04/71] fix: weighted b-positive without any positive
 difference raised ZeroDivisionError

Without weights the estimate (and its uncertainty) is nan in that case.
---
 seismostats/analysis/bvalue/classic.py | 4 ++++
 seismostats/analysis/bvalue/utils.py   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..e523825 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,10 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        # e.g. no positive differences; np.average raises if there are weights
+        return np.nan
+
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index f964169..b641c9e 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -88,6 +88,9 @@ def shi_bolt_confidence(
     if b_parameter not in ['b_value', 'beta']:
         raise ValueError('b_parameter must be either "b_value" or "beta"')
 
+    if len(magnitudes) == 0:
+        return np.nan
+
     std_mags = np.sqrt(np.average(np.square(
         magnitudes - np.average(magnitudes, weights=weights)), weights=weights))
     if weights is None:
-- 
2.43.0


From e63df68ac1f809ab2cea6cb930e413a5022ab005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 05/71] fix: estimate_b with return_n but without return_std
 raised TypeError

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From ed2d6d1d7a11b96b0af37a61265959728a5d2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 06/71] fix: a-more-positive truncated scaled waiting times to
 the unit of the times

Multiplying timedelta64 with a float truncates to the unit of the times, so
datetime64[s] (or [D]) times gave a different a-value than the same times in
nanoseconds or as floats.
---
 seismostats/analysis/avalue/more_positive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..fa8b98c 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -152,11 +152,12 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         # estimate the number of events within the time interval
         total_time = self.times[-1] - self.times[0]
 
-        # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        # scale the time (as a fraction of the total time: time differences
+        # with a coarse unit would be truncated by the scaling)
+        tau = time_diffs / total_time * 10**(
+            -self.b_value * (self.magnitudes + self.dmc - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From b93493d251b3c622d4c226b5a69c1a6998cbd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 07/71] fix: Kijko-Smit and Weichert estimates failed with
 b_parameter='beta'

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From 6f97f5a5ac8e02bb0e738c53cc52a245a9e8aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 08/71] fix: Kijko-Smit estimate was nan if one completeness
 period has no events

---
 seismostats/analysis/bvalue/kijko_smit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..44b61fd 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,9 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        # a period without events does not contribute
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From 984ca6e4a9fa544a22c1b0f7f0f9d0963b093e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 09/71] fix: Kijko-Smit a-value was shifted by half a bin

The rate refers to the completeness magnitude, which is given as the left
edge of a bin, so the rate at magnitude zero is extrapolated from there.
---
 seismostats/analysis/bvalue/kijko_smit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 44b61fd..2349ced 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -142,8 +142,8 @@ def estimate_b_kijko_smit(
         )
 
     rate_at_lmc = ncomplete / denominator_rate
-    a_val = np.log10(rate_at_lmc) + (beta / np.log(10)) * (
-        completeness_magnitudes[0] + delta_m * 0.5
-    )
+    # (completeness magnitudes are bin edges)
+    a_val = np.log10(rate_at_lmc) + (
+        beta / np.log(10)) * completeness_magnitudes[0]
 
     return b, std_b, rate_at_lmc, a_val
-- 
2.43.0


From b370bd26a87b3357219d91f84821cba067a776a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 10/71] fix: Weichert estimate ignored magnitude bins without
 events

The sums of the likelihood equation run over all magnitude bins up to
mag_max; leaving out the bins that happen to be empty biases the b-value.
---
 seismostats/analysis/bvalue/weichert.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index fbe90b9..0b50362 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -151,6 +151,22 @@ def estimate_b_weichert(
         complete_events.completeness_start > 0
     )  # should be the case by design
 
+    # bins without any event have to be considered, too
+    empty_edges = np.arange(
+        completeness_table_magnitudes[0], mag_max + 0.01, delta_m)[:-1]
+    empty_edges = empty_edges[[
+        not np.any(np.abs(complete_events.mag_left_edge - edge) < delta_m / 2)
+        for edge in empty_edges]]
+    empty_idx = np.searchsorted(
+        completeness_table_magnitudes, empty_edges + delta_m * 0.5)
+    complete_events = pd.concat([
+        complete_events,
+        pd.DataFrame({
+            "mag_left_edge": empty_edges,
+            "completeness_start": completeness_table_years[empty_idx - 1],
+            "num": 0})
+    ]).sort_values("mag_left_edge", ignore_index=True)
+
     # minimization
     beta = np.log(10)  # initialization of beta
     solution = minimize(
-- 
2.43.0


From 49a453c7f5b6186503764f32fc4ea19a5ceab131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 11/71] fix: b-stability averaged over one b-value too many for
 some mc

np.arange(mc, mc + stability_range, delta_m) has an additional element for
e.g. mc = 0.6, 1.7 or 3.9 (float rounding); its b-value was added to the sum
which was still divided by the nominal number of steps.
---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..643a797 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -541,7 +541,7 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
+        mc_plus = mc + np.arange(steps) * delta_m
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-- 
2.43.0


From 3d005550e09bbc8d621d93db72cc236f00e000cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 12/71] fix: b-stability returned None instead of a
 completeness magnitude of 0

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 643a797..79c896f 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -578,5 +578,5 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m) if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From e66d927d2d9ff01bbffe9b01590cca2a7d4c56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 13/71] fix: b-stability tested no mc at all if the stability
 range is one bin

Also make the automatic list of tested mcs independent of float rounding.
---
 seismostats/analysis/estimate_mc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 79c896f..5d28ae9 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -496,12 +496,13 @@ def estimate_mc_b_stability(
     steps = len(np.arange(0, stability_range, delta_m))
 
     if mcs_test is None:
-        mcs_test = np.arange(np.min(magnitudes), np.max(magnitudes), delta_m)
+        mcs_test = np.arange(
+            np.min(magnitudes), np.max(magnitudes) - delta_m / 2, delta_m)
         mcs_test = bin_to_precision(mcs_test, delta_m)
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From 772bbdc640395105f371189acda59e3c7819f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 14/71] fix: result of the KS test depended on the 'warnings'
 option

The test is rejected for samples with at most one distinct value, but only if
warnings were enabled (otherwise it crashed or returned nan), and for an empty
sample it always crashed.
---
 seismostats/analysis/estimate_mc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 5d28ae9..518d2dd 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -77,16 +77,16 @@ def ks_test_gr(
         ks_ds:      Array of KS distances.
     """
     if get_option("warnings") is True:
-        if np.min(magnitudes) < mc - delta_m / 2:
-            warnings.warn("Sample contains values below mc.")
-
         if len(magnitudes) == 0:
             warnings.warn("No sample given.")
-            return 0, 1, []
+        elif np.min(magnitudes) < mc - delta_m / 2:
+            warnings.warn("Sample contains values below mc.")
 
         if len(np.unique(magnitudes)) == 1:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+
+    if len(np.unique(magnitudes)) <= 1:
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From 2ebade18a0f2ced790df59b498e48b668770c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 15/71] fix: simulate_magnitudes ignored a maximum magnitude of
 0

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From 4af6bc196158b584e5d4be78cb5069f80cb735d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 16/71] fix: truncated synthetic magnitudes lost precision at
 large magnitudes

---
 seismostats/utils/simulate_distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..47b7049 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -37,10 +37,9 @@ def simulate_magnitudes(
     """
     if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        # relative to mc, as the absolute cdf is numerically 1 if mc is large
+        upper_cdf = -np.expm1(-beta * (mag_max - mc))
+        mags = mc - (1 / beta) * np.log1p(-u * upper_cdf)
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From 1afa3986608a9deb241111f8859c965c6f651bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 17/71] fix: dithering refused magnitudes that also fit a
 coarser grid

---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 47b7049..ca347f7 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -115,7 +115,7 @@ def dither_magnitudes(magnitudes: np.ndarray,
     magnitudes = np.asarray(magnitudes)
 
     # test if the array is binned correctly
-    if not binning_test(magnitudes, delta_m):
+    if not binning_test(magnitudes, delta_m, check_larger_binning=False):
         raise ValueError(
             "The given array is not binned correctly. Please check the binning."
         )
-- 
2.43.0


From 510bb9c9519b7a95e9fc4062f44f4f3ae623a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 18/71] fix: b-more-positive uncertainty raised if there is no
 estimate

---
 seismostats/analysis/bvalue/more_positive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..62a01eb 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -154,6 +154,10 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
+        # without a valid estimate, there is no uncertainty either
+        if not np.isfinite(self.b_value):
+            return np.nan
+
         estimator = self.__class__()
 
         # Define the function for the bootstrap.
-- 
2.43.0


From 53482da415ff76d3c999e1c48375286006c67957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 19/71] fix: individual completeness was not sorted along with
 the magnitudes

---
 seismostats/analysis/b_significant.py | 1 +
 seismostats/plots/statistical.py      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From 838ea429b53c789e91717d73fb9b6723fcca327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 20/71] fix: plot_b_significant_1D failed for a list of n_ms

---
 seismostats/plots/statistical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 105e253..377085e 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -321,6 +321,7 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    n_ms = np.asarray(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 559e5ad0f8747bf96a71e99375c298a19d49fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 21/71] fix: weighted FMD plots failed if magnitudes are
 missing

---
 seismostats/plots/basics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..4b3c528 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,6 +80,8 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
+    if weights is not None:
+        weights = np.asarray(weights)[~np.isnan(magnitudes)]
     magnitudes = magnitudes[~np.isnan(magnitudes)]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
@@ -172,6 +174,8 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
+    if weights is not None:
+        weights = np.asarray(weights)[~np.isnan(magnitudes)]
     magnitudes = magnitudes[~np.isnan(magnitudes)]
 
     bins, counts, magnitudes = get_fmd(
-- 
2.43.0


From 4caafc55a6261cb3ba5018cae86ff8fd0b0905a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 22/71] fix: cumulative count plot was empty if the first
 magnitude is missing

---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 4b3c528..1c38330 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -251,7 +251,7 @@ def plot_cum_count(
     if delta_m is None:
         delta_m = 0
     if mcs is None:
-        mcs = np.array([min(magnitudes)])
+        mcs = np.array([np.nanmin(magnitudes)])
     if weights is None:
         weights = np.ones(n_events)
     else:
-- 
2.43.0


From dc837c3a47c912be53a1264f296fa4182341b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 23/71] fix: plot_mags_in_time changed the lists of the caller

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 1c38330..9fb0f2e 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -365,8 +365,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = [*mc_change_times, np.max(times)]
+        mcs = [*mcs, mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From c3473e6b710e130912fecfbb5fde7cf152b971a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 24/71] fix: dots of equal or missing magnitudes had no size

---
 seismostats/plots/basics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 9fb0f2e..d36a4e6 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -406,10 +406,12 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    largest_mag = np.nanmax(magnitudes)
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    # if all magnitudes are equal, all dots have the smallest size
+    mag_range = largest_mag - smallest_mag
+    mag_norm = (magnitudes - smallest_mag) / (mag_range if mag_range else 1)
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
-- 
2.43.0


From 1db2125f12ea14791bdcdea16499a2caef657410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 25/71] fix: map of events with equal magnitudes raised in the
 legend

---
 seismostats/plots/basics.py     | 4 +++-
 seismostats/plots/seismicity.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index d36a4e6..a92a414 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -447,7 +447,9 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
-    size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
+    # if all sizes are equal, they all correspond to the minimum magnitude
+    size_range = np.nanmax(sizes) - np.nanmin(sizes)
+    size_norm = (sizes - np.nanmin(sizes)) / (size_range if size_range else 1)
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
     return magnitudes
diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index d30fed5..fd41622 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -193,8 +193,8 @@ def plot_in_space(
             alpha=0.5,
             func=lambda x: reverse_dot_size(
                 x,
-                min(magnitudes),
-                max(magnitudes),
+                np.nanmin(magnitudes),
+                np.nanmax(magnitudes),
                 dot_interpolation_power,
             ),
         )
-- 
2.43.0


From ab866926ae315d1c73668d54f06dd94a244db260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 26/71] fix: declustering mixed up index labels and positions

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..2f05bb4 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # work with positions, the index labels of the catalog can be anything
+        catalog = catalog.reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From 47c02d3efcf57be3c4dabfdf122d21336ae251c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 27/71] fix: a time cutoff of 0 days was ignored

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From 2a8dbe4eb2fff5bf3ba046921457f0f144026627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 28/71] fix: binning_test with delta_x = 0 missed a bin size
 equal to the range

The range of e.g. [4.0, 4.1] is slightly smaller than 0.1 in floats.
---
 seismostats/utils/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 044d7fe..7969bcf 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -158,7 +158,7 @@ def binning_test(
         # bin sizes smaller than EPSILON cannot be tested
         power = np.arange(
             np.floor(np.log10(max(tolerance, EPSILON))) + 1,
-            np.floor(np.log10(range)) + 1, 1
+            np.floor(np.log10(range)) + 2, 1
         )
         delta_x_test = 10**power
         test = True
-- 
2.43.0


From 944e70623d32bb25e075829072ee90f67db4cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 29/71] fix: one time outside of the nanosecond range cut all
 times to seconds

If a catalog contains a historic event, all times are parsed by
_robust_parse_datetime, which dropped fractions of seconds of all events and
refused everything but '%Y-%m-%dT%H:%M:%S' (offsets, blanks, dates).
---
 seismostats/utils/__init__.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..59084d5 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -1,6 +1,7 @@
 # flake8: noqa
 import functools
 import math
+import re
 from datetime import datetime
 
 import pandas as pd
@@ -108,23 +109,18 @@ def _render_template(data: dict, template_path: str) -> str:
     return qml
 
 
-def _pad_year(val):
-    # Extract year part and pad with zeros if necessary
-    if 'T' in val:
-        date_part, time_part = val.split('T')
-        parts = date_part.split('-')
-        if len(parts[0]) < 4:
-            parts[0] = parts[0].zfill(4)  # Pad year to 4 digits
-        date_part = '-'.join(parts)
-        val = f"{date_part}T{time_part}"
-    return val
+# the year can have less than four digits, the timezone is ignored
+_ISO_DATETIME = re.compile(
+    r"(\d{1,4})-(\d{1,2})-(\d{1,2})"
+    r"(?:[T ](\d{1,2}):(\d{2})(?::(\d{2})(?:[.,](\d+))?)?)?"
+    r"\s*(?:Z|[+-]\d{2}(?::?\d{2})?)?")
 
 
 def _robust_parse_datetime(date: str) -> datetime:
     """
     Used to convert datetime strings which in general follow
     the ISO 8601 format to datetime objects, ignoring timezone
-    and nanosecond information.
+    information and anything below microseconds.
     Mainly for the use of converting a pd.DataFrame column
     which has formats which are incompatible with pd.Timestamp.
 
@@ -143,8 +139,14 @@ def _robust_parse_datetime(date: str) -> datetime:
     if isinstance(date, pd.Timestamp):
         return date.to_pydatetime()
 
-    date = date.split('Z')[0]
-    date = date.split('.')[0]
-    date = _pad_year(date)
+    if not date.strip():
+        return pd.NaT
+
+    match = _ISO_DATETIME.fullmatch(date.strip())
+    if match is None:
+        raise ValueError(f"time data '{date}' is not in ISO 8601 format")
+
+    year, month, day, hour, minute, second, fraction = match.groups('0')
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    return datetime(int(year), int(month), int(day), int(hour), int(minute),
+                    int(second), int(fraction[:6].ljust(6, '0')))
-- 
2.43.0


From f33f7773b374898362e9f425355869ef7b90c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 30/71] fix: catalogs with times in mixed timezones failed

---
 seismostats/catalogs/catalog.py | 3 ++-
 seismostats/utils/__init__.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..784318a 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -188,7 +188,8 @@ class Catalog(pd.DataFrame):
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
-                except (ValueError, OutOfBoundsDatetime):
+                except (ValueError, AttributeError, OutOfBoundsDatetime):
+                    # AttributeError: mixed timezones
                     self[tc] = self[tc].apply(_robust_parse_datetime)
 
         # make sure empty rows in string columns are NoneType
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index 59084d5..fce12af 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -134,7 +134,7 @@ def _robust_parse_datetime(date: str) -> datetime:
         return pd.NaT
 
     if isinstance(date, datetime):
-        return date
+        return date.replace(tzinfo=None)
 
     if isinstance(date, pd.Timestamp):
         return date.to_pydatetime()
-- 
2.43.0


From 91928231a06f6ba1502e6e3fbc74754984877c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 31/71] fix: DataFrame methods of a Catalog failed (apply, map,
 T, corr, melt, ...)

The constructor which pandas calls accepted only a DataFrame, while pandas
also passes arrays and dicts.
---
 seismostats/catalogs/catalog.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 784318a..c124c35 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,12 +47,14 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(data=None, *args, **kwargs):
+    # pandas passes everything that the DataFrame constructor accepts
+    df = pd.DataFrame(data, *args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        return Catalog(df)
+    return ForecastCatalog(df)
 
 
 class Catalog(pd.DataFrame):
-- 
2.43.0


From 0ea39ee85a092ffa067c33620d11914762a3fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 32/71] fix: isna, dropna, count, diff, ... failed for catalogs
 with times

The boolean or numeric result of such an operation was parsed as times.
---
 seismostats/catalogs/catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index c124c35..2f3b7c9 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -52,6 +52,10 @@ def _catalog_constructor_with_fallback(data=None, *args, **kwargs):
     df = pd.DataFrame(data, *args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
+    # e.g. the result of isna, count or diff does not contain times anymore
+    if 'time' in df and df['time'].dtype.kind in 'biufcm' \
+            and not (df['time'].dtype.kind == 'f' and df['time'].isna().all()):
+        return df
     if not _check_required_cols(df, ['catalog_id']):
         return Catalog(df)
     return ForecastCatalog(df)
-- 
2.43.0


From da4e538851f5ecc61a28993a0ce722c53640a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 33/71] fix: a catalog without data could not be given its
 columns

---
 seismostats/catalogs/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 2f3b7c9..1750be2 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -162,8 +162,8 @@ class Catalog(pd.DataFrame):
         if data is not None or 'columns' in kwargs:
             super().__init__(data, **kwargs)
         # if this dataframe is empty however, set some default columns
-        if data is None or self.columns.empty:
-            super().__init__(columns=CATALOG_COLUMNS, **kwargs)
+        if (data is None and 'columns' not in kwargs) or self.columns.empty:
+            super().__init__(**kwargs | {'columns': CATALOG_COLUMNS})
 
         self.name = name
         self.mc = mc
-- 
2.43.0


From fa4227783ae66c5a7737ab3307e63c54f3699b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 34/71] fix: strip of a ForecastCatalog dropped catalog_id if
 it was derived from a Catalog

The required columns of the class were overwritten with those of the class it
was derived from.
---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 1750be2..f06876c 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -127,7 +127,7 @@ class Catalog(pd.DataFrame):
         :ivar logger:       Logger for the catalog.
     '''
 
-    _metadata = ['name', '_required_cols', 'mc', 'a_value',
+    _metadata = ['name', 'mc', 'a_value',
                  'delta_m', 'b_value', 'starttime', 'endtime',
                  'bounding_polygon', 'depth_min', 'depth_max',
                  'logger']
-- 
2.43.0


From 71daa439c58cc15d09d685f8733c5237c8a65a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 35/71] fix: to_csv of a Catalog ignored its formatting
 arguments

Missing values were written as 'nan' and 'NaT', and float_format, na_rep and
date_format had no effect or raised.
---
 seismostats/catalogs/catalog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index f06876c..167ff0f 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 import inspect
 import logging
 import os
@@ -473,6 +474,12 @@ class Catalog(pd.DataFrame):
         df = self.drop(columns=cols)
         return df
 
+    @functools.wraps(pd.DataFrame.to_csv)
+    def to_csv(self, *args, **kwargs):
+        # pandas collects the formatted values in an object of the same class,
+        # but a Catalog would convert them back to numbers and times
+        return pd.DataFrame(self).to_csv(*args, **kwargs)
+
     @require_cols(require=_required_cols)
     def strip(self, inplace: bool = False) -> Catalog | None:
         '''
-- 
2.43.0


From 95770fedae583f90062f10b53950124841f20b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 36/71] fix: a truncated QuakeML document was read as if it
 were complete

---
 seismostats/io/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..ae13386 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.is_empty = True
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -238,6 +239,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.is_empty = False
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -299,7 +301,8 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        # an empty document is fine, a truncated one is not
+        if 'no element found' in str(e) and handler.is_empty:
             return data
         raise e
     return data
@@ -350,7 +353,8 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        # an empty document is fine, a truncated one is not
+        if 'no element found' in str(e) and handler.is_empty:
             return data
         raise e
     return data
-- 
2.43.0


From 11ed6bb652538b43f4ed47fc9c4d57793041d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 37/71] fix: a magnitude without type made a whole QuakeML
 document unreadable

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index ae13386..086c75d 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,10 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    # the type is optional, but magnitudes without it cannot be secondary
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype') is not None
+                  and (m['magnitudetype'] != preferred.get('magnitudetype')
+                       or id == m['magnitudepublicID'])]
 
     return preferred, magnitudes
 
-- 
2.43.0


From e57df3511099930bde9a8713b8ee6780cc4386c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 38/71] fix: spaces within texts were lost where the QuakeML
 reader splits its input

---
 seismostats/io/parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 086c75d..e04dcd7 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -233,6 +233,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         self.parent = ''
         self.location = ''
         self.is_empty = True
+        self.text = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -242,6 +243,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
     def startElement(self, tagName, attrs):
         self.is_empty = False
+        self.flush_text()
+
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -255,6 +258,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        self.flush_text()
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -273,8 +278,13 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        # the text of an element can come in several pieces
+        self.text += chars
+
+    def flush_text(self):
+        text, self.text = self.text.strip(), ''
+        if text and self.parent:
+            self.setter(self.parent, text)
 
     def startDocument(self):
         pass
-- 
2.43.0


From e2a325cbeaf43b9f0a1ec17c74a3c64f5cb5469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 39/71] fix: creation times of magnitudes were compared without
 fractions and time zone

---
 seismostats/io/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index e04dcd7..b48f806 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,7 +1,7 @@
 import xml.sax
-from datetime import datetime
 from xml.sax._exceptions import SAXParseException
 
+import pandas as pd
 from requests import Response
 
 
@@ -119,7 +119,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-            datetime.strptime(x[key2[1]][:19], '%Y-%m-%dT%H:%M:%S')
+            pd.to_datetime(x[key2[1]], utc=True)
             if key2[0] else None),
             reverse=True)
 
-- 
2.43.0


From fe7d0b7346805da20b81334f087abf86846ed489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 40/71] fix: magnitude versions that are not numbers made a
 QuakeML document unreadable

---
 seismostats/io/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index b48f806..0e1aada 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,3 +1,4 @@
+import math
 import xml.sax
 from xml.sax._exceptions import SAXParseException
 
@@ -85,6 +86,13 @@ def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
     return preferred, origins
 
 
+def _is_number(value: str | None) -> bool:
+    try:
+        return value is not None and math.isfinite(float(value))
+    except ValueError:
+        return False
+
+
 def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     Check the magnitudes for multiple magnitudes of the same type and
@@ -115,7 +123,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         # sort mags array by version number and creation time
         key1 = [False, 'magnitudecreationInfoversion']
         key2 = [False, 'magnitudecreationInfocreationTime']
-        key1[0] = all(key1[1] in m for m in mags)
+        # the version can be any text
+        key1[0] = all(_is_number(m.get(key1[1])) for m in mags)
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-- 
2.43.0


From b7a34a4d2de0bbfd628c95895ac61d2eb27b159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 41/71] fix: special characters in ids and types made invalid
 QuakeML

---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..398738d 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ event.magnitude_type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From bc57e1622ac9aab2c5e9deb1b5620521529ba6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 42/71] fix: secondary magnitudes got lost or mixed up in
 QuakeML depending on their type's name

---
 seismostats/catalogs/catalog.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 167ff0f..6fff258 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1438,9 +1438,9 @@ class Catalog(pd.DataFrame):
                 '_type']
 
         secondary_mags = [mag for mag in self.columns if
-                          'magnitude_' in mag
+                          str(mag).startswith('magnitude_')
                           and not any(['magnitude' + val
-                                       in mag for val in vals])]
+                                       == mag for val in vals])]
         return secondary_mags
 
     def _create_ids(self) -> Catalog:
@@ -1455,7 +1455,7 @@ class Catalog(pd.DataFrame):
             if col not in df.columns:
                 df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([_split_magnitude_key(mag)[0]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1518,10 +1518,10 @@ class Catalog(pd.DataFrame):
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
                 if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
+                        and event['magnitude_type'] \
+                        != _split_magnitude_key(mag)[0]:
 
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
+                    mag_type, mag_key = _split_magnitude_key(mag)
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
@@ -1616,6 +1616,20 @@ class ForecastCatalog(Catalog):
         return catalogs
 
 
+def _split_magnitude_key(key: str) -> tuple[str, str]:
+    '''
+    Split the name of a column with values of a secondary magnitude into the
+    magnitude type and the name of the same value of the preferred magnitude,
+    e.g. `magnitude_mb_Lg_uncertainty` into `mb_Lg`, `magnitude_uncertainty`.
+    '''
+    mag_type = key.removeprefix('magnitude_')
+    for val in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                '_confidenceLevel', '_magnitudeID']:
+        if mag_type.endswith(val):
+            return mag_type.removesuffix(val), 'magnitude' + val
+    return mag_type, 'magnitude'
+
+
 def _check_catalog_cols(method: Callable,
                         reference: Callable,
                         catalog: Catalog) -> dict:
-- 
2.43.0


From 17f08028cca9566b313e0349bcf98841df76c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 43/71] fix: events without preferred magnitude lost their
 other magnitudes in QuakeML

---
 seismostats/catalogs/catalog.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 6fff258..300f1e9 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1517,8 +1517,7 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] \
+                if pd.notna(event[mag]) and event['magnitude_type'] \
                         != _split_magnitude_key(mag)[0]:
 
                     mag_type, mag_key = _split_magnitude_key(mag)
-- 
2.43.0


From acacbc6db73c9a15fe84ae8125cc66a7bdc4002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 44/71] fix: missing ids were written as 'nan' or left empty in
 QuakeML

---
 seismostats/catalogs/catalog.py | 36 +++++++++++++++++----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 300f1e9..b4682b9 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1453,18 +1453,21 @@ class Catalog(pd.DataFrame):
 
         for col in ['eventID', 'originID', 'magnitudeID']:
             if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+                df[col] = None
+            df[col] = [id if pd.notna(id) else uuid.uuid4().hex
+                       for id in df[col]]
 
         mag_types = set([_split_magnitude_key(mag)[0]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
-            if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+            col = f'magnitude_{mag_type}_magnitudeID'
+            if col not in df.columns:
+                df[col] = None
+            df[col] = [id if pd.notna(id) else uuid.uuid4().hex
+                       if not mag_type == preferred_type else preferred_id
+                       for id, preferred_type, preferred_id in zip(
+                           df[col], df['magnitude_type'], df['magnitudeID'])]
 
         return df
 
@@ -1509,22 +1512,21 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
 
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
-            for mag in secondary_mags:
-                if pd.notna(event[mag]) and event['magnitude_type'] \
-                        != _split_magnitude_key(mag)[0]:
-
-                    mag_type, mag_key = _split_magnitude_key(mag)
-
-                    event['sec_mags'][mag_type][mag_key] = \
-                        event[mag]
-                del event[mag]
+            values = {mag: event.pop(mag) for mag in secondary_mags}
+            for mag, value in values.items():
+                mag_type, mag_key = _split_magnitude_key(mag)
+
+                # the ids have been created for all magnitude types
+                if pd.notna(value) and event['magnitude_type'] != mag_type \
+                        and pd.notna(values.get(f'magnitude_{mag_type}')):
+                    event['sec_mags'][mag_type][mag_key] = value
 
         return _render_template(data, QML_TEMPLATE)
 
-- 
2.43.0


From 4e625f172231b3da9bb71481b0221ca1e5e4e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 45/71] fix: missing types and modes were written as 'nan' or
 'None' in QuakeML

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 398738d..eddee9d 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -17,7 +17,7 @@
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type|e }}</type>
+                <type>{{ event.magnitude_type|e if not event.magnitude_type is nan and not event.magnitude_type is none else '' }}</type>
                 <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
@@ -48,7 +48,7 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode|e }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e if not event.evaluationmode is nan and not event.evaluationmode is none else '' }}</evaluationMode>
                 <creationInfo>
                     <agencyID>{{ agencyID|e }}</agencyID>
                     <author>{{ author|e }}</author>
@@ -74,7 +74,7 @@
 
             <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
             <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
-            <type>{{ event.event_type|e }}</type>
+            <type>{{ event.event_type|e if not event.event_type is nan and not event.event_type is none else '' }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From 7ad0b373e37413e30aa5051de06aaf6f5d89309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 46/71] fix: the number of depth phases was kept as text

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b4682b9..c47ac96 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -180,7 +180,7 @@ class Catalog(pd.DataFrame):
         numeric_cols = ['magnitude', 'latitude', 'longitude', 'depth',
                         'associatedphasecount', 'usedphasecount',
                         'associatedstationcount', 'usedstationcount',
-                        'standarderror', 'azimuthalgap',
+                        'depthphasecount', 'standarderror', 'azimuthalgap',
                         'secondaryazimuthalgap', 'maximumdistance',
                         'minimumdistance', 'mediandistance']
         string_cols = ['magnitude_type', 'event_type']
-- 
2.43.0


From 686f2f3654830527ea3cbd603cb4654d6f5883bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 47/71] fix: missing values were written as 'None' in QuakeML

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 6 +++---
 seismostats/utils/__init__.py                     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index eddee9d..541a039 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -17,7 +17,7 @@
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type|e if not event.magnitude_type is nan and not event.magnitude_type is none else '' }}</type>
+                <type>{{ event.magnitude_type|e if not event.magnitude_type is nan else '' }}</type>
                 <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
@@ -48,7 +48,7 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode|e if not event.evaluationmode is nan and not event.evaluationmode is none else '' }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e if not event.evaluationmode is nan else '' }}</evaluationMode>
                 <creationInfo>
                     <agencyID>{{ agencyID|e }}</agencyID>
                     <author>{{ author|e }}</author>
@@ -74,7 +74,7 @@
 
             <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
             <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
-            <type>{{ event.event_type|e if not event.event_type is nan and not event.event_type is none else '' }}</type>
+            <type>{{ event.event_type|e if not event.event_type is nan else '' }}</type>
 
         </event> 
         {% endfor %} 
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index fce12af..7289713 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -101,7 +101,7 @@ def _render_template(data: dict, template_path: str) -> str:
         loader=FileSystemLoader("/"),  # Base directory for templates
         autoescape=select_autoescape(),
     )
-    env.tests["nan"] = is_nan
+    env.tests["nan"] = lambda x: is_nan(x) or x is None or x is pd.NA
 
     template = env.get_template(template_path)
 
-- 
2.43.0


From f9c5225d8fbe0ac9342f20d3423753a927ff02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 48/71] fix: QuakeML events without depths or magnitudes could
 not be read into a catalog

---
 seismostats/io/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 0e1aada..1d723d7 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -68,8 +68,8 @@ def SECONDARY_MAGNITUDE_MAPPINGS(type):
 
 def _select_magnitude_by_id(magnitudes: list, id: str | None) \
         -> tuple[dict, list]:
-    preferred = next((m for m in magnitudes if id
-                     == m['magnitudepublicID']), DUMMY_MAGNITUDE)
+    preferred = DUMMY_MAGNITUDE | next(
+        (m for m in magnitudes if id == m['magnitudepublicID']), {})
 
     # the type is optional, but magnitudes without it cannot be secondary
     magnitudes = [m for m in magnitudes if m.get('magnitudetype') is not None
@@ -80,8 +80,8 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
 
 
 def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
-    preferred = next((o for o in origins if id
-                     == o['originpublicID']), DUMMY_ORIGIN)
+    preferred = DUMMY_ORIGIN | next(
+        (o for o in origins if id == o['originpublicID']), {})
     origins = [o for o in origins if id != o['originpublicID']]
     return preferred, origins
 
-- 
2.43.0


From 325061dc331a5b5c12c729886ce893aa842f1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 49/71] fix: failed requests of the FDSN client were read as an
 empty or shorter catalog

---
 seismostats/catalogs/client.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..902eb45 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -7,6 +7,15 @@ from seismostats import Catalog
 from seismostats.io.parser import parse_quakeml_response
 
 
+def _raise_for_status(response: requests.Response) -> None:
+    """
+    Raise an error for failed requests. A status of 404 is one of the ways in
+    which a service answers if it has no data.
+    """
+    if response.status_code != 404:
+        response.raise_for_status()
+
+
 class FDSNWSEventClient():
     """
     Client for downloading earthquake catalogs from the
@@ -128,7 +137,10 @@ class FDSNWSEventClient():
             catalog = self._get_events_batched(batch_size, include_quality)
         else:
             r = requests.get(self.url, stream=True, params=self.params)
-            catalog = parse_quakeml_response(r, include_quality=include_quality)
+            _raise_for_status(r)
+            if r.status_code != 404:
+                catalog = parse_quakeml_response(
+                    r, include_quality=include_quality)
 
         catalog = Catalog.from_dict(
             catalog, include_uncertainty, include_ids)
@@ -158,8 +170,10 @@ class FDSNWSEventClient():
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
             r = requests.get(self.url, stream=True, params=params)
-            batch = parse_quakeml_response(r, include_quality=include_quality)
-            catalog.extend(batch)
+            _raise_for_status(r)
+            if r.status_code != 404:
+                catalog.extend(parse_quakeml_response(
+                    r, include_quality=include_quality))
 
         return catalog
 
@@ -170,6 +184,7 @@ class FDSNWSEventClient():
         """
         params = self.params | {'limit': limit, 'offset': offset}
         r = requests.get(self.url, params=params)
+        _raise_for_status(r)
         return (r.status_code == 200 and r.content)
 
     def _get_batch_count(self, batch_size: int) -> int:
-- 
2.43.0


From e10027b8f81898d6df3e70e6d162f34b544e73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 50/71] fix: times with a time zone were sent as local times to
 FDSN services

---
 seismostats/catalogs/client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 902eb45..fc2c7ee 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+from datetime import datetime, timezone
 
 import pandas as pd
 import requests
@@ -16,6 +16,15 @@ def _raise_for_status(response: requests.Response) -> None:
         response.raise_for_status()
 
 
+def _format_time(time: datetime) -> str:
+    """
+    Format a time for a request. Times without a time zone are UTC.
+    """
+    if getattr(time, "tzinfo", None) is not None:
+        time = time.astimezone(timezone.utc).replace(tzinfo=None)
+    return time.strftime("%Y-%m-%dT%H:%M:%S")
+
+
 class FDSNWSEventClient():
     """
     Client for downloading earthquake catalogs from the
@@ -104,13 +113,12 @@ class FDSNWSEventClient():
 
         """
 
-        date_format = "%Y-%m-%dT%H:%M:%S"
         self.params = {}
 
         if start_time is not None:
-            self.params['starttime'] = start_time.strftime(date_format)
+            self.params['starttime'] = _format_time(start_time)
         if end_time is not None:
-            self.params['endtime'] = end_time.strftime(date_format)
+            self.params['endtime'] = _format_time(end_time)
         if min_latitude is not None:
             self.params['minlatitude'] = min_latitude
         if max_latitude is not None:
-- 
2.43.0


From 8a2abda0f9f7f75fdc130569a54cf7ea16e07700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 51/71] fix: fractions of seconds in the limits of FDSN queries
 were cut off

---
 seismostats/catalogs/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index fc2c7ee..0615b89 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -22,6 +22,8 @@ def _format_time(time: datetime) -> str:
     """
     if getattr(time, "tzinfo", None) is not None:
         time = time.astimezone(timezone.utc).replace(tzinfo=None)
+    if getattr(time, "microsecond", 0) != 0:
+        return time.strftime("%Y-%m-%dT%H:%M:%S.%f")
     return time.strftime("%Y-%m-%dT%H:%M:%S")
 
 
-- 
2.43.0


From 61469c77298da859fbd9963743545494968f2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 52/71] fix: a rate grid's cells without depth got several
 numbers or no number

---
 seismostats/catalogs/rategrid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..c7d193c 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
@@ -270,12 +269,12 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
+            bounds = ['longitude_min', 'longitude_max',
+                      'latitude_min', 'latitude_max',
+                      'depth_min', 'depth_max']
 
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            self['cell'] = pd.DataFrame(self)[bounds].groupby(
+                bounds, dropna=False).ngroup().to_numpy()
 
             self.set_index('cell', append=True, drop=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
-- 
2.43.0


From 6ad9000c95ca2db3bc2330f3619af2ca54a4c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 53/71] fix: a column 'cell' was removed from rate grids with
 time index

---
 seismostats/catalogs/rategrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index c7d193c..51dc12c 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -273,10 +273,11 @@ class GRRateGrid(pd.DataFrame):
                       'latitude_min', 'latitude_max',
                       'depth_min', 'depth_max']
 
-            self['cell'] = pd.DataFrame(self)[bounds].groupby(
-                bounds, dropna=False).ngroup().to_numpy()
+            cell = pd.DataFrame(self)[bounds].groupby(
+                bounds, dropna=False).ngroup()
 
-            self.set_index('cell', append=True, drop=True, inplace=True)
+            self.set_index(pd.Index(cell, name='cell'),
+                           append=True, inplace=True)
             self.index = self.index.droplevel('cell_id')
 
             self.index.set_names('cell_id', level='cell', inplace=True)
-- 
2.43.0


From 87fe279f844397c0e6046d90ac297e9f0108d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 54/71] fix: bounds of the cells were aggregated by
 calculate_statistics

---
 seismostats/catalogs/rategrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 51dc12c..8aef19b 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -6,13 +6,14 @@ import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
 
-REQUIRED_COLS_RATEGRID = [
+BOUNDS_RATEGRID = [
     'longitude_min', 'longitude_max',
     'latitude_min', 'latitude_max',
-    'depth_min', 'depth_max',
-    'a', 'b', 'mc'
+    'depth_min', 'depth_max'
 ]
 
+REQUIRED_COLS_RATEGRID = BOUNDS_RATEGRID + ['a', 'b', 'mc']
+
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
     df = GRRateGrid(*args, **kwargs)
@@ -462,6 +463,9 @@ class ForecastGRRateGrid(GRRateGrid):
         # Apply agg_func to all numeric columns
         agg_dict = {col: agg_func for col in numeric_cols}
 
+        # The bounds are the same for all realizations of a cell
+        agg_dict |= {col: 'first' for col in BOUNDS_RATEGRID}
+
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
             for col in base_cols:
-- 
2.43.0


From c8a9ba5a33798a7d76055a53c65a6f7bb74021ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 55/71] fix: cells without depth were missing in the statistics
 of a rate grid

---
 seismostats/catalogs/rategrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 8aef19b..aca23d1 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -453,7 +453,9 @@ class ForecastGRRateGrid(GRRateGrid):
         """
         # Base columns to compute statistics on
         rategrid = self.copy()
-        rategrid = rategrid.dropna(axis=1, how='all')
+        empty = [col for col in rategrid.columns
+                 if col not in BOUNDS_RATEGRID and rategrid[col].isna().all()]
+        rategrid = rategrid.drop(columns=empty)
 
         # get available columns
         base_cols = ['number_events', 'b', 'mc', 'a', 'alpha']
@@ -476,9 +478,7 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': BOUNDS_RATEGRID, 'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From bc8853dc03ec0cef37344355daac8ae2c01d575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 56/71] fix: strip of a ForecastGRRateGrid dropped grid_id if
 it was derived from a GRRateGrid

The required columns of the class were overwritten with those of the class it
was derived from.
---
 seismostats/catalogs/rategrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index aca23d1..902ce93 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -76,7 +76,7 @@ class GRRateGrid(pd.DataFrame):
         :ivar starttime:    Start time of the GRRateGrid.
         :ivar endtime:      End time of the GRRateGrid.
     """
-    _metadata = ['name', '_required_cols', 'starttime', 'endtime']
+    _metadata = ['name', 'starttime', 'endtime']
     _required_cols = REQUIRED_COLS_RATEGRID
 
     def __init__(self, data=None, *args, name=None,
-- 
2.43.0


From 433e809393d0348d1e2598eff8b1463246678e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 57/71] fix: one historical event cut all times of an OpenQuake
 catalogue to seconds

---
 seismostats/catalogs/catalog.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index c47ac96..9b68fa2 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -6,7 +6,7 @@ import logging
 import os
 import uuid
 from collections import defaultdict
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Any, Callable
 
 import cartopy
@@ -363,7 +363,8 @@ class Catalog(pd.DataFrame):
                             row.day,
                             row.hour,
                             row.minute,
-                            row.second)
+                            row.second) + timedelta(
+                                microseconds=int(row.microsecond))
         data = oq_catalogue.data
         # not all items of the data have necessarily the same length
         length = max((len(c) for c in data.values()), default=0)
@@ -380,9 +381,9 @@ class Catalog(pd.DataFrame):
             cat.loc[:, "time"] = pd.to_datetime(cat[_PD_TIME_COLS])
         except ValueError:
             # if the time is out of bounds, we have to store
-            # datetime with a resolution of seconds.
+            # datetime with a resolution of microseconds.
             dt = cat.apply(_convert_to_datetime, axis=1)
-            cat['time'] = dt.astype('datetime64[s]')
+            cat['time'] = dt.astype('datetime64[us]')
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
         return cat
-- 
2.43.0


From 64c41585958f80e0f5c6d25ccc8179a111170c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 58/71] fix: OpenQuake catalogues with early events and only
 numbers as data failed

---
 seismostats/catalogs/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 9b68fa2..12392f6 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -382,7 +382,8 @@ class Catalog(pd.DataFrame):
         except ValueError:
             # if the time is out of bounds, we have to store
             # datetime with a resolution of microseconds.
-            dt = cat.apply(_convert_to_datetime, axis=1)
+            dt = cat[_PD_TIME_COLS].astype(int).apply(
+                _convert_to_datetime, axis=1)
             cat['time'] = dt.astype('datetime64[us]')
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
-- 
2.43.0


From 1a07a941ed1843536d4ee2810b4cf61ee942ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 59/71] fix: estimate_mc_b_stability warned with warnings
 switched off

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 518d2dd..06a98e4 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -533,7 +533,7 @@ def estimate_mc_b_stability(
 
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
-        if len(sample_selected) < 30:
+        if len(sample_selected) < 30 and get_option("warnings") is True:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-- 
2.43.0


From 7a3b19477a235a95eb3deeeb3e695e8a8f8fb8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 60/71] fix: estimate_mc_ks without bins to test failed unless
 warnings were switched off

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 06a98e4..56b6e9b 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -245,7 +245,8 @@ def estimate_mc_ks(
         if not binning_test(magnitudes, delta_m, check_larger_binning=False):
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if len(mcs_test) > 0 and not binning_test(
+                mcs_test, delta_m, check_larger_binning=False):
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From ce09da67df68825959f044ed462e22517d65655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 61/71] fix: an existing column 'inside_polygon' was lost in
 cat_intersect_polygon

---
 seismostats/utils/filtering.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/seismostats/utils/filtering.py b/seismostats/utils/filtering.py
index 2454560..dd2e525 100644
--- a/seismostats/utils/filtering.py
+++ b/seismostats/utils/filtering.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 from shapely.geometry import Point, Polygon
 
@@ -20,23 +21,14 @@ def cat_intersect_polygon(
                         inside the polygon.
 
     """
-    # Make a copy of the DataFrame
-    cat_copy = cat.copy()
-    # Add a new column to the DataFrame
-    # indicating whether each point is inside the polygon
-    cat_copy["inside_polygon"] = cat_copy.apply(
-        lambda row: Polygon(polygon_vertices).intersects(
-            Point(row["latitude"], row["longitude"])
-        ),
-        axis=1,
-    )
+    polygon = Polygon(polygon_vertices)
+
+    # Check for each row whether the point is inside the polygon
+    inside = np.array([
+        polygon.intersects(Point(latitude, longitude))
+        for latitude, longitude in zip(cat["latitude"], cat["longitude"])
+    ], dtype=bool)
 
     # Filter the DataFrame to only include rows where
     # the point is inside the polygon
-    filtered_cat = (
-        cat_copy.query("inside_polygon")
-        .drop("inside_polygon", axis=True)
-        .copy()
-    )
-
-    return filtered_cat
+    return cat[inside].copy()
-- 
2.43.0


From ee4b51995542fb8f20ca978fff6c0bf6d1fa784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 62/71] fix: make_more_incomplete and find_next_larger read
 columns by row label

---
 seismostats/analysis/bvalue/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/analysis/bvalue/utils.py b/seismostats/analysis/bvalue/utils.py
index b641c9e..71a46a6 100644
--- a/seismostats/analysis/bvalue/utils.py
+++ b/seismostats/analysis/bvalue/utils.py
@@ -127,6 +127,7 @@ def find_next_larger(magnitudes: np.array,
     """
     if dmc is None:
         dmc = delta_m
+    magnitudes = np.asarray(magnitudes)
 
     idx_next_larger = np.zeros(len(magnitudes))
     for ii in range(len(magnitudes) - 1):
@@ -168,6 +169,9 @@ def make_more_incomplete(
         idx:        Array of indices of the events that were kept.
         '''
 
+    magnitudes = np.asarray(magnitudes)
+    times = np.asarray(times)
+
     # sort magnitudes in time
     idx_sort = np.argsort(times)
     magnitudes = magnitudes[idx_sort]
-- 
2.43.0


From 61eef3445a9e2269b4fa27192ef48aeb9950ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 63/71] fix: plot_in_space without color_dots uses the
 documented blue

---
 seismostats/plots/seismicity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index fd41622..900ce83 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -76,6 +76,9 @@ def plot_in_space(
     Returns:
         ax: GeoAxis object
     """
+    if color_dots is None:
+        color_dots = "blue"
+
     # discard cmap if color_dots is a single color (not an array)
     if is_color_like(color_dots):
         cmap = None
-- 
2.43.0


From f2789ff8b3cf0d80650e6f7d0f766dfcb154def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 64/71] fix: KS distance counts magnitudes far above the
 simulated range

---
 seismostats/analysis/estimate_mc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 56b6e9b..3089f3e 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -97,6 +97,8 @@ def ks_test_gr(
         # max considered magnitude: less than 1e-3 probability of
         # exceedance within the  samples
         max_considered_mag = 1 / b_value * np.log10(n_sample * n * 1e3) + mc
+        # the largest observed magnitude counts, too
+        max_considered_mag = max(max_considered_mag, np.max(magnitudes))
 
         x_bins = bin_to_precision(
             np.arange(mc, max_considered_mag + 3
-- 
2.43.0


From cdcdaae56c3870bd4b318b42f049d47f9a5eef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 65/71] fix: rounding of the stability range no longer adds a
 step

---
 seismostats/analysis/estimate_mc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 3089f3e..5ff76b9 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -496,6 +496,8 @@ def estimate_mc_b_stability(
             np.float64(0.9457747650207581)])
 
     """
+    # rounding errors of the range do not add a step or exclude an mc
+    stability_range = stability_range - 1e-6 * delta_m
     steps = len(np.arange(0, stability_range, delta_m))
 
     if mcs_test is None:
-- 
2.43.0


From c596c69f25200d74f4861e3bd24228eaa5ba5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 66/71] fix: the largest magnitude is never an automatic
 completeness candidate

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 5ff76b9..8aca6fc 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -232,7 +232,8 @@ def estimate_mc_ks(
 
     if mcs_test is None:
         mcs_test = bin_to_precision(
-            np.arange(np.min(magnitudes), np.max(magnitudes), delta_m), delta_m
+            np.arange(np.min(magnitudes), np.max(magnitudes) - delta_m / 2,
+                      delta_m), delta_m
         )
     else:
         # sort mcs
-- 
2.43.0


From 7568a7148eff4143dc77e1663048ed03e247aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 67/71] fix: KS distances given per completeness candidate stay
 with their candidate

---
 seismostats/analysis/estimate_mc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 8aca6fc..0326c27 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -236,7 +236,10 @@ def estimate_mc_ks(
                       delta_m), delta_m
         )
     else:
-        # sort mcs
+        # sort mcs, along with the distances given for them
+        if ks_ds_list is not None:
+            _, idx = np.unique(mcs_test, return_index=True)
+            ks_ds_list = [ks_ds_list[i] for i in idx]
         mcs_test = np.sort(np.unique(mcs_test))
 
     # if magnitude binning is incorrect, b-value calculation will fail anyway
-- 
2.43.0


From fa59cdd18e3b2b5777ea34a13e8261389c99d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 68/71] fix: years of completeness changes given as numpy
 integers

---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index a92a414..8e71277 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -362,7 +362,7 @@ def plot_mags_in_time(
     )
 
     if mc_change_times is not None and mcs is not None:
-        if isinstance(mc_change_times[0], int):
+        if isinstance(mc_change_times[0], (int, np.integer)):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
         mc_change_times = [*mc_change_times, np.max(times)]
-- 
2.43.0


From be2291ab5b0d0e9b32d53f09f0b329f9a15f37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 69/71] fix: accept any scalar as completeness in b_significant
 and plots

---
 seismostats/analysis/b_significant.py | 4 ++--
 seismostats/plots/statistical.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 9eda0f6..987c595 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -205,7 +205,7 @@ def values_from_partitioning(
             "Length of list_times and list_magnitudes must be the same.")
     list_magnitudes = [np.array(mags) for mags in list_magnitudes]
     list_times = [np.array(times) for times in list_times]
-    if isinstance(list_mc, (float, int)):
+    if np.isscalar(list_mc):
         list_mc = np.ones(n_subsets) * list_mc
     else:
         if n_subsets != len(list_mc):
@@ -367,7 +367,7 @@ def b_significant_1D(
     times = np.array(times)
     if len(magnitudes) != len(times):
         raise IndexError("Magnitudes and times must have the same length.")
-    if isinstance(mc, (float, int)):
+    if np.isscalar(mc):
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 377085e..8bf7e01 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -148,7 +148,7 @@ def plot_b_series_constant_nm(
     # sanity checks and preparation
     magnitudes = np.array(magnitudes)
     times = np.array(times)
-    if isinstance(mc, (float, int)):
+    if np.isscalar(mc):
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
@@ -290,7 +290,7 @@ def plot_b_significant_1D(
     magnitudes = np.array(magnitudes)
     times = np.array(times)
 
-    if isinstance(mc, (float, int)):
+    if np.isscalar(mc):
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
-- 
2.43.0


From 11dd2654661346fdc6e4841cfeaf0bba46d5cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:49 +0000
Subject: [PATCH 70/71] fix: a KS sample with one value up to rounding errors
 counts as one value

---
 seismostats/analysis/estimate_mc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 0326c27..a0cebbb 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -82,10 +82,11 @@ def ks_test_gr(
         elif np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-        if len(np.unique(magnitudes)) == 1:
+        if len(magnitudes) > 0 and np.ptp(magnitudes) <= delta_m / 2:
             warnings.warn("Sample contains only one value.")
 
-    if len(np.unique(magnitudes)) <= 1:
+    # values of the same bin can differ by rounding errors
+    if len(magnitudes) == 0 or np.ptp(magnitudes) <= delta_m / 2:
         return 0, 1, []
 
     beta = b_value_to_beta(b_value)
-- 
2.43.0


From 3b16079553fffcd86a11395488b0d9f2907de4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:13 +0000
Subject: [PATCH 71/71] fix: the legend of a map failed with an event without
 magnitude

---
 seismostats/plots/seismicity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index 900ce83..5aa8969 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -189,6 +189,9 @@ def plot_in_space(
     if dot_labels is not None:
         if isinstance(dot_labels, np.ndarray):
             dot_labels = dot_labels.tolist()
+        # events without magnitude have no size
+        sizes = points.get_sizes()
+        points.set_sizes(sizes[~np.isnan(sizes)])
         handles, labels = points.legend_elements(
             prop="sizes",
             num=dot_labels,
@@ -201,6 +204,7 @@ def plot_in_space(
                 dot_interpolation_power,
             ),
         )
+        points.set_sizes(sizes)
         ax.legend(handles, labels, title="Magnitudes")
     else:
         # no legend is shown
-- 
2.43.0


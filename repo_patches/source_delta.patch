From 602c534c620299ac24bf225ba0c652e948f47470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:42 +0000
Subject: [PATCH 01/25] fix: energy_from_power rejected max_timedelta of 116
 days or more

The limit was formatted into a string as a float, which pandas cannot parse once
it is printed in exponent notation.
---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..fc9acbd 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -416,7 +416,7 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
     else:
         max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
     # set max_timedelta for use in interpolate and _aggregate
-    max_timedelta = pd.to_timedelta(f'{max_interval_nanoseconds} ns')
+    max_timedelta = pd.to_timedelta(max_interval_nanoseconds, unit='ns')
     try:
         freq_interval_size_ns = \
             pd.tseries.frequencies.to_offset(target_frequency).nanos
-- 
2.43.0


From c156dd2187edca604568523008d308524be5ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:12 +0000
Subject: [PATCH 02/25] fix: instantaneous energy invented after the last
 reading, lost after gaps

energy_from_power(power_type='instantaneous') held the last valid reading forever
when a series ended in missing values, and dropped the first measured segment
after every gap longer than max_timedelta.
---
 rdtools/normalization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index fc9acbd..a7cd38a 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -506,11 +506,12 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     t_diffs = np.diff(time_series.index.view('int64'))
     t_diffs_hours = t_diffs / 10**9 / 3600.0
     if series_type == 'instantaneous':
-        # interpolate with trapz sum
-        time_series = time_series.interpolate(method='time')
-        time_series[gap_mask] = np.nan
+        # interpolate with trapz sum, without extrapolating past the last valid value
+        time_series = time_series.interpolate(method='time', limit_area='inside')
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
+        # exclude only the segments that lie inside a gap
+        series_sum[gap_mask.values[1:]] = np.nan
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-- 
2.43.0


From 63c2929878d06090474f0f22e9425b44dbbf06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 03/25] fix: failed load of the clipping model left an unusable
 model cached

The module-level model was assigned before it was loaded, so one failed or
interrupted load made every later xgboost_clip_filter call fail, and another
thread could pick up the half-initialised model.
---
 rdtools/filtering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..899ea9f 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -20,8 +20,10 @@ model_path = os.path.join(
 def _load_xgboost_clipping_model():
     global xgboost_clipping_model
     if xgboost_clipping_model is None:
-        xgboost_clipping_model = xgb.XGBClassifier()
-        xgboost_clipping_model.load_model(model_path)
+        # publish the model only once it is completely loaded
+        model = xgb.XGBClassifier()
+        model.load_model(model_path)
+        xgboost_clipping_model = model
     return xgboost_clipping_model
 
 
-- 
2.43.0


From 3a9fea2b9158dea66c6377a0d77c27fc52f1a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 04/25] fix: degradation_ols and classical decomposition
 renamed the caller's series

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..2c5e856 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame(name='energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 6fa0c52a6881564e4ae4a883f08622170a5dfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 05/25] fix: ad_hoc_filter NaNs were overwritten in the
 caller's mask

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..97e4c56 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From 1626774354dedfa483139ed848bb7a382cff522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 06/25] fix: system outage loss and production ignored the
 outage's first interval

The per-outage loss was spread over the expected power using the energy of
the outage's own slice, which has no energy for its first interval. The
loss time series and the rolled-up results therefore exceeded the outage's
loss (twice as large for a two-interval outage, infinite when only the
first interval is in daylight) and the corrected cumulative energy was NaN
at the start of each outage.
---
 rdtools/availability.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..18746df 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -497,13 +497,14 @@ class AvailabilityAnalysis:
         # generate a best-guess timeseries loss for the full outages by
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
-        expected_power = self.power_expected
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
-            subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            # use the energy of the full timeseries, so that the first interval
+            # of the outage is counted as well
+            subset = self.power_expected_rescaled.loc[start:end]
+            subset_energy = self.energy_expected_rescaled.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From 7e4b1d9857ed70e867ce5c980713420cd3307493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:26 +0000
Subject: [PATCH 07/25] fix: outage at the start of the data took its starting
 energy from the end

energy_start of an outage that includes the first timestamp was read at
position -1, the last timestamp of the cumulative energy. It is unknown.
---
 rdtools/availability.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 18746df..7ee4743 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -439,7 +439,12 @@ class AvailabilityAnalysis:
 
             # self.cumulative_energy[start] is the first value in the outage.
             # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # (unknown if the data starts in an outage)
+            start_position = all_times.get_loc(start)
+            if start_position > 0:
+                energy_start = self.energy_cumulative.iloc[start_position - 1]
+            else:
+                energy_start = np.nan
 
             data = {
                 'start': start,
@@ -450,7 +455,7 @@ class AvailabilityAnalysis:
                 'error_lower': self.interp_lower(daylight_intervals),
                 'error_upper': self.interp_upper(daylight_intervals),
                 'energy_expected': outage_expected_energy.sum(),
-                'energy_start': self.energy_cumulative[start_minus_one],
+                'energy_start': energy_start,
                 'energy_end': self.energy_cumulative[end],
             }
             outage_data.append(data)
-- 
2.43.0


From 89c85ed99d1802cbea1e4c5f0c63c3121b2151b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:03 +0000
Subject: [PATCH 08/25] fix: year-on-year usage_of_points missed start points
 of later pairs

A point that starts several year-on-year pairs was reported as never used
as a start point when the first of these pairs had no valid slope.
---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 2c5e856..8b5d68f 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -284,7 +284,7 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    df_right = df.set_index(df.dt_right).dropna(subset=['yoy']).drop_duplicates('dt_right')
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From b659448dafcc462d43a786f04b9cc85ec1d46b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:49 +0000
Subject: [PATCH 09/25] fix: SRR gave the derate of one invalid interval to
 another

The levels of invalid soiling intervals were drawn in set order but assigned
in time order. Sets of integers are not always iterated in ascending order
(e.g. {1, 8}), so an interval could get the level drawn for a different one.
---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..005d4d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From 81e62f77276290e2b732a6af8fbda6011e22d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:23 +0000
Subject: [PATCH 10/25] fix: SRR soiling profiles lost a day at the start of
 daylight saving time

The days since the last cleaning were counted in whole 24-hour days between
timestamps. In a time zone with daylight saving time every interval that
spans the spring change was off by one day from then on.
---
 rdtools/soiling.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 005d4d0..4db05be 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -324,8 +324,7 @@ class SRRAnalysis():
 
         pm_frame_out['loss_perfect_clean'] = np.nan
         pm_frame_out['loss_inferred_clean'] = np.nan
-        pm_frame_out['days_since_clean'] = \
-            (pm_frame_out.index - pm_frame_out.start).dt.days
+        pm_frame_out['days_since_clean'] = pm_frame_out.groupby('run').cumcount()
 
         # Calculate the daily derate
         pm_frame_out['loss_perfect_clean'] = \
@@ -489,8 +488,7 @@ class SRRAnalysis():
                              .merge(results_rand, how='left', on='run') \
                              .set_index('date')
             df_rand['loss'] = np.nan
-            df_rand['days_since_clean'] = \
-                (df_rand.index - df_rand.start).dt.days
+            df_rand['days_since_clean'] = df_rand.groupby('run').cumcount()
             df_rand['loss'] = df_rand.start_loss + \
                 df_rand.days_since_clean * df_rand.run_slope
 
-- 
2.43.0


From 313c0010e6ab4077b7cd83b360cd657d3d61f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 11/25] fix: insolation-weighted aggregation counted missing
 energy as zero production

---
 rdtools/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/aggregation.py b/rdtools/aggregation.py
index 4116c91..0150486 100644
--- a/rdtools/aggregation.py
+++ b/rdtools/aggregation.py
@@ -22,6 +22,8 @@ def aggregation_insol(energy_normalized, insolation, frequency='D'):
     aggregated : pandas.Series
         Insolation weighted average, aggregated at frequency
     '''
+    # a missing energy value must not count as zero production
+    insolation = insolation.where(energy_normalized.notna())
     aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \
         insolation.resample(frequency, origin='start_day').sum()
 
-- 
2.43.0


From 976f04348673c5e0a16ceff6715823cbc55e3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:12 +0000
Subject: [PATCH 12/25] fix: directional_tukey_filter ignored k for its lower
 fence

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 899ea9f..f7f2b19 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1031,7 +1031,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From fc42d557925562d92999aec92edbfc33da214b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:25 +0000
Subject: [PATCH 13/25] fix: OLS and classical rates raised KeyError for a
 constant series

add_constant silently skips the intercept column when the frame already
holds a constant column, which a steady energy series is.
---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 8b5d68f..a4c5de0 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -42,7 +42,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -135,7 +135,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 53f8a31075a5b29651342b2ea082cdac650bc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:46 +0000
Subject: [PATCH 14/25] fix: Mann-Kendall variance was increased instead of
 reduced for ties

Tied values reduce the variance of the Mann-Kendall statistic; with the
wrong sign a clear trend in a record with repeated values was reported as
'no trend' by degradation_classical_decomposition.
---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index a4c5de0..51c8a12 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -399,7 +399,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From d5b7ba527e47325e279b24c362fbf959087c57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:16 +0000
Subject: [PATCH 15/25] fix: classical decomposition accepted data missing at
 the ends of the record

pandas keeps the frequency when only leading or trailing rows are dropped,
so the documented refusal of missing data did not happen and the yearly
means near the gap were taken over partial years.
---
 rdtools/degradation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 51c8a12..501f74c 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -112,11 +112,12 @@ def degradation_classical_decomposition(energy_normalized,
 
     df_check_freq = df.copy()
 
-    # The frequency attribute will be set to None if rows are dropped.
+    # The frequency attribute will be set to None if rows are dropped, except
+    # when they are only dropped at the ends.
     # We can use this to check for missing data and raise a ValueError.
     df_check_freq = df_check_freq.dropna()
 
-    if df_check_freq.index.freq is None:
+    if df_check_freq.index.freq is None or len(df_check_freq) < len(df):
         raise ValueError('Classical decomposition requires a regular time '
                          'series with defined frequency and no missing data.')
 
-- 
2.43.0


From 306542cf8c23f593016eb2afe38a44d295c225b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 16/25] fix: clear-sky temperature failed where a day starts at
 an ambiguous midnight

---
 rdtools/clearsky_temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..3539c87 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    # where midnight occurs twice, the day starts with the first (DST) one
+    dt_daily = dt_daily.tz_localize(times.tz,
+                                    ambiguous=np.ones(len(dt_daily), dtype=bool),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 7c7b36a393095eb909df9981436af939ffd8ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:38 +0000
Subject: [PATCH 17/25] fix: clear-sky temperature was NaN next to the date
 line and at the south pole

---
 rdtools/clearsky_temperature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 3539c87..edbf75f 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -78,8 +78,11 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     lon_temp = longitude - 180
     if lon_temp < 0:
         lon_temp += 360
-    lon_index = round(float(lons) * float(lon_temp) / 360.0)
+    # longitude is periodic; the south pole belongs to the last row
+    lon_index = round(float(lons) * float(lon_temp) / 360.0) % lons
     lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
+    if lat_index == lats and latitude >= -90:
+        lat_index = lats - 1
 
     df = pd.DataFrame(index=dt_daily)
     df['month'] = df.index.month
-- 
2.43.0


From fdc8c4ba8f0dbee424734d7277ae3cc1c3550fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:24 +0000
Subject: [PATCH 18/25] fix: clear-sky temperature lost the season after DST
 changes and failed on irregular times

---
 rdtools/clearsky_temperature.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index edbf75f..7394824 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,17 +49,6 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    if times.freq is None:
-        freq_actual = pd.infer_freq(times)
-        if freq_actual is None:
-            times._engine.clear_mapping()
-            # workaround from https://github.com/pandas-dev/pandas/issues/55794
-            freq_actual = pd.infer_freq(times[:10])
-            warnings.warn("Input 'times' has no frequency attribute. "
-                          "Inferring frequency from first 10 timestamps.")
-    else:
-        freq_actual = times.freq
-
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
     # where midnight occurs twice, the day starts with the first (DST) one
@@ -106,10 +95,9 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
-    df['month'] = df.index.month
-
-    df = df.reindex(times, method='nearest')
+    # interpolate in time between the daily values, whatever the spacing of times
+    df = df.reindex(df.index.union(times.unique())).interpolate(method='time')
+    df = df.reindex(times)
 
     utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]
 
-- 
2.43.0


From 95fc8d766b8106992a154f2fdbd089d702166835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:36 +0000
Subject: [PATCH 19/25] fix: CODS bootstrapping crashed when an initial fit
 failed or was not stationary

---
 rdtools/soiling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 4db05be..6807916 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1684,6 +1684,7 @@ class CODSAnalysis():
                                      for indexes in index_list]
         nr_models = len(index_list)
         bootstrap_samples_list, list_of_df_out, results = [], [], []
+        list_of_SCs = []  # seasonal components of the bootstrapped fits
 
         # Check boostrap number
         if reps % nr_models != 0:
@@ -1714,6 +1715,7 @@ class CODSAnalysis():
                             pi, df_out.total_model,
                             sample_nr=int(reps / nr_models),
                             bootstrap_seed=bootstrap_seed))
+                    list_of_SCs.append(df_out.seasonal_component)
 
                 # Print progress
                 if verbose:
@@ -1783,13 +1785,13 @@ class CODSAnalysis():
         # components, by perturbing amplitude and phase shift
         # Number of samples per fit:
         sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
                                                   max_multiplier=1.75,
                                                   max_shift=30)
+        # Fits that failed or are not stationary have no realizations
+        reps = all_bootstrap_samples.shape[1]
 
         # ###################### #
         # ###### STAGE 2 ####### #
-- 
2.43.0


From b42e765b9234019b9e9d07517701bb276bbd3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:36 +0000
Subject: [PATCH 20/25] fix: CODS reported the last instead of the best initial
 fit as best estimate

---
 rdtools/soiling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 6807916..eca27c0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1881,6 +1881,7 @@ class CODSAnalysis():
         concat_ce = pd.concat([kdf.cleaning_events for kdf in bt_kdfs], axis=1)
 
         # Find confidence intervals for SR and soiling rates
+        df_out = result_df.copy()
         df_out['SR_low'] = concat_SR.quantile(ci_low_edge, 1)
         df_out['SR_high'] = concat_SR.quantile(ci_high_edge, 1)
         df_out['rates_low'] = concat_r_s.quantile(ci_low_edge, 1)
-- 
2.43.0


From 92dfb83b5aa24bace00391f6c688b72e55d158ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:36 +0000
Subject: [PATCH 21/25] fix: CODS soiling loss bound of a small signal was not
 in percent

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index eca27c0..850e18e 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From e3621d2923cb7b6d276557168e47026ce096d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 22/25] fix: rounding decided whether a model as frequent as
 the measurements is interpolated

---
 rdtools/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index a7cd38a..ea5298f 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -55,7 +55,7 @@ def normalize_with_expected_power(pv, power_expected, poa_global,
     measure_tds, mean_measure_td = _delta_index(energy)
 
     # Case in which the model less frequent than the measurements
-    if mean_model_td > mean_measure_td:
+    if mean_model_td > mean_measure_td and not np.isclose(mean_model_td, mean_measure_td):
         power_expected = interpolate(power_expected, pv.index)
         poa_global = interpolate(poa_global, pv.index)
 
-- 
2.43.0


From f2d3301abf05ecc80cc1be1ba389b4c7f73b4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 23/25] fix: clear-sky temperature of out-of-order times was
 wrong or failed

---
 rdtools/clearsky_temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 7394824..2228ad8 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,7 +49,7 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
+    dt_daily = pd.date_range(times.date.min() - buffer, times.date.max() + buffer,
                              freq='D')
     # where midnight occurs twice, the day starts with the first (DST) one
     dt_daily = dt_daily.tz_localize(times.tz,
-- 
2.43.0


From d8518dcaa8b260170bb0fa71bbc3f5d38d564ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 24/25] fix: degradation summary plot failed with fewer than 40
 year-on-year values

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 93a07ba..efb8fbb 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -72,7 +72,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
     yoy_values = yoy_info['YoY_values']
 
     if bins is None:
-        bins = len(yoy_values) // 40
+        bins = max(len(yoy_values) // 40, 1)
 
     bins = int(min(bins, len(yoy_values)))
 
-- 
2.43.0


From fa40a621320fdd8503238942f4addb1a733f1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:31 +0000
Subject: [PATCH 25/25] fix: degradation time series plot labelled another
 figure when given one to draw on

---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index efb8fbb..28e1549 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -498,7 +498,7 @@ def degradation_timeseries_plot(yoy_info, rolling_days=365, include_ci=True,
         ax.fill_between(ci_lower.index, ci_lower, ci_upper, color=ci_color)
     ax.plot(roller.median(), color=plot_color, **kwargs)
     ax.axhline(results_values.median(), c='k', ls='--')
-    plt.ylabel('Degradation trend (%/yr)')
+    ax.set_ylabel('Degradation trend (%/yr)')
     fig.autofmt_xdate()
 
     return fig
-- 
2.43.0


From 2f826dc6dffce8b8b472ae942f131dfce9b7cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 01/89] fix: keep a running minimum or maximum of 0 when later
 batches arrive

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From cd3214c83a823730c54f98e59808d05be0ac4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 02/89] fix: merge precision variance with the sample size
 before the batch

---
 dataprofiler/profilers/float_column_profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..13c0e2f 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,8 +379,8 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
+            # merge the variance before the sample size of this batch is added
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
                 self._precision["biased_var"],
@@ -389,6 +389,7 @@ class FloatColumn(
                 subset_precision["biased_var"],
                 subset_precision["mean"],
             )
+            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
-- 
2.43.0


From 31cb76480622af81b53d40d39bf51bcaf1199405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 03/89] fix: do not count the digits of an upper-case exponent
 as precision

---
 dataprofiler/profilers/float_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 13c0e2f..9c24b9c 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -293,8 +293,8 @@ class FloatColumn(
             return None
 
         # Lead zeros: ^[+-.0\s]+ End zeros: \.?0+(\s|$)
-        # Scientific Notation: (?<=[e])(.*) Any non-digits: \D
-        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[e])(.*)|\D")
+        # Scientific Notation: (?<=[eE])(.*) Any non-digits: \D
+        r = re.compile(r"^[+-.0\s]+|\.?0+(\s|$)|(?<=[eE])(.*)|\D")
 
         # DEFAULT: Sample the dataset. If small use full dataset,
         # OR 20k samples or 5% of the dataset which ever is larger.
-- 
2.43.0


From f0bb01a45fab0b50d9f8970ee61fbebb49414eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:24 +0000
Subject: [PATCH 04/89] fix: locate non-null cells by position so duplicate or
 unsorted index labels keep rows and order

---
 dataprofiler/profilers/profile_builder.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..eded6fc 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -629,8 +629,9 @@ class StructuredColProfiler:
             # Query should search entire cell for all elements at once
             matches = df_subset.str.match(regex, flags=re.IGNORECASE)
 
-            # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            # Split series into None samples and true samples (by position, as
+            # index labels need neither be unique nor sorted)
+            true_sample_set.update(np.asarray(chunked_sample_ids)[~matches].tolist())
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -648,15 +649,11 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
+        # Keep the true samples in the order of the rows
+        true_sample_list = sorted(true_sample_set)
 
         # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
+        df_series = df_series.iloc[true_sample_list]
         total_na = total_sample_size - len(true_sample_list)
 
         rng = rng_utils.get_random_number_generator()
-- 
2.43.0


From 0f3960e550b0417bf2b5e1646d4327390d92cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 05/89] fix: keep the string/text type of a merged text column

---
 dataprofiler/profilers/text_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..5969a41 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,8 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        if merged_profile.max:
+            merged_profile.type = "string" if merged_profile.max <= 255 else "text"
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
-- 
2.43.0


From 053076ae880dbeff850f5165c31f75b6c83b24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 06/89] fix: carry the stored histogram when only one merged
 side has one

---
 dataprofiler/profilers/numerical_column_stats.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..760fb80 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -345,12 +345,16 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # at most one side has a histogram: carry over that side's state
+                source = other2 if other2._has_histogram else other1
+                self.user_set_histogram_bin = source.user_set_histogram_bin
+                self.histogram_bin_method_names = list(
+                    source.histogram_bin_method_names
+                )
+                self.histogram_methods = copy.deepcopy(source.histogram_methods)
+                self._stored_histogram = copy.deepcopy(source._stored_histogram)
+                self.quantiles = copy.deepcopy(source.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From be148026af9b0f67c81ad2afe42a48c93902c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 07/89] fix: let a merged histogram absorb later batches

---
 dataprofiler/profilers/numerical_column_stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 760fb80..5fcb57c 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1243,8 +1243,10 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         return selected_method
 
     def _histogram_to_array(self) -> np.ndarray:
-        # Extend histogram to array format
-        bin_counts = self._stored_histogram["histogram"]["bin_counts"]
+        # Extend histogram to array format, counts are floats after a merge
+        bin_counts = np.asarray(
+            self._stored_histogram["histogram"]["bin_counts"]
+        ).astype(int)
         bin_edges = self._stored_histogram["histogram"]["bin_edges"]
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
-- 
2.43.0


From f2b675130996976ddf94bac1f7d60a1fbd2bc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:56 +0000
Subject: [PATCH 08/89] fix: report the histogram of merged profiles with a
 user-set bin count

---
 dataprofiler/profilers/numerical_column_stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 5fcb57c..29bda27 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -192,6 +192,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             self.histogram_methods[method] = {
                 "total_loss": np.float64(0.0),
                 "current_loss": np.float64(0.0),
+                "suggested_bin_count": ideal_count_of_bins,
                 "histogram": {"bin_counts": None, "bin_edges": None},
             }
 
-- 
2.43.0


From aeb66651f7d7e2497d9c26a49c3c564d4c513e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:54 +0000
Subject: [PATCH 09/89] fix: make row hashes independent of the order of a
 batch's columns

---
 dataprofiler/profilers/profile_builder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index eded6fc..5df30fc 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2217,17 +2217,23 @@ class StructuredProfiler(BaseProfiler):
             )
 
         if self.options.row_statistics.unique_count.is_enabled:
+            # hash the columns in an order which does not depend on the batch, so
+            # that equal rows match across batches and merged profiles
+            rows = data.iloc[
+                :,
+                np.argsort([str(col).lower() for col in data.columns], kind="stable"),
+            ]
             if isinstance(self.hashed_row_object, dict):
                 try:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data, index=False), True
+                            pd.util.hash_pandas_object(rows, index=False), True
                         )
                     )
                 except TypeError:
                     self.hashed_row_object.update(
                         dict.fromkeys(
-                            pd.util.hash_pandas_object(data.astype(str), index=False),
+                            pd.util.hash_pandas_object(rows.astype(str), index=False),
                             True,
                         )
                     )
@@ -2240,7 +2246,7 @@ class StructuredProfiler(BaseProfiler):
                         break
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
-                        data[start_ind : min(end_ind, len(data))]
+                        rows[start_ind : min(end_ind, len(rows))]
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From 4f679062b81b5b2e5d9cccfb0500c652fd0e5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:54 +0000
Subject: [PATCH 10/89] fix: accept re-cased column names in later batches

---
 dataprofiler/profilers/profile_builder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5df30fc..4856356 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2825,6 +2825,16 @@ class StructuredProfiler(BaseProfiler):
             mapping_given, self._col_name_to_idx
         )
 
+        # Column names match case-insensitively, use the names already profiled
+        if self._profile:
+            data = data.set_axis(
+                [
+                    self._profile[col_idx_to_prof_idx[col_idx]].name
+                    for col_idx in range(len(data.columns))
+                ],
+                axis=1,
+            )
+
         try:
             from tqdm import tqdm
 
-- 
2.43.0


From 35abcb226eaf0737369e7ba8670e803b8f7c4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:36 +0000
Subject: [PATCH 11/89] fix: apply the regex flag given with each null value

---
 dataprofiler/profilers/profile_builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 4856356..536265a 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -618,7 +618,10 @@ class StructuredColProfiler:
         na_columns: dict = dict()
         true_sample_set = set()
         total_sample_size = 0
-        query = "|".join(null_values.keys())
+        query = "|".join(
+            f"(?i:{key})" if flag & re.IGNORECASE else key
+            for key, flag in null_values.items()
+        )
         regex = f"^(?:{(query)})$"
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
@@ -627,7 +630,7 @@ class StructuredColProfiler:
             df_subset = df_series.iloc[chunked_sample_ids]
 
             # Query should search entire cell for all elements at once
-            matches = df_subset.str.match(regex, flags=re.IGNORECASE)
+            matches = df_subset.str.match(regex)
 
             # Split series into None samples and true samples (by position, as
             # index labels need neither be unique nor sorted)
-- 
2.43.0


From b36a3df514a8f7d5bcda7ace89524f2192c213c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:57 +0000
Subject: [PATCH 12/89] fix: apply per-column null values to the matching
 column of a permuted batch

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 536265a..5fac3ef 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2933,7 +2933,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values: dict = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     multi_process_dict[col_idx] = pool.apply_async(
@@ -2979,7 +2979,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     clean_sampled_dict[prof_idx], base_stats = self._profile[
@@ -3002,7 +3002,7 @@ class StructuredProfiler(BaseProfiler):
 
                 null_values = self._profile[prof_idx]._null_values.copy()
                 if self.options.column_null_values:
-                    null_values.update(self.options.column_null_values.get(col_idx, {}))
+                    null_values.update(self.options.column_null_values.get(prof_idx, {}))
 
                 clean_sampled_dict[prof_idx], base_stats = self._profile[
                     prof_idx
-- 
2.43.0


From 3a3419d120d68412b27a01b9fb62bea0d1946ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 13/89] fix: do not merge row sketches into the left operand

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5fac3ef..74fbc80 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1805,8 +1805,8 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object.merge(self.hashed_row_object)
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From cbe95ebb19b839f405aa3d0db30d45968b5499a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 14/89] fix: keep the cleaned samples intact when correlating

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 74fbc80..62e3910 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2368,6 +2368,8 @@ class StructuredProfiler(BaseProfiler):
         :param clean_samples: the input cleaned dataset
         :type clean_samples: dict()
         """
+        # columns which cannot be correlated are dropped, keep the caller's samples
+        clean_samples = dict(clean_samples)
         batch_properties = self._get_correlation_dependent_properties(clean_samples)
         batch_corr = self._get_correlation(clean_samples, batch_properties)
 
-- 
2.43.0


From 7577c8c7b0041d7fc3d809d28ac584604df38491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 15/89] fix: forget the index shift of earlier batches

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 62e3910..0b25758 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -440,6 +440,7 @@ class StructuredColProfiler:
         base_min: int = base_stats["min_id"]
         base_max: int = base_stats["max_id"]
         base_nti = base_stats["null_types"]
+        self._index_shift = None
 
         # Check if indices overlap, if they do, adjust attributes accordingly
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
-- 
2.43.0


From 00d470e4f4c9078863464bd7dfeff58238081dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 16/89] fix: allow diffing categories with an empty column

---
 dataprofiler/profilers/categorical_column_profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..d51e355 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -318,6 +318,9 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
+                if not self.sample_size or not other_profile.sample_size:
+                    # no distribution to compare to
+                    break
                 percent_self = self_cat_count[iter_key] / self.sample_size
                 percent_other = other_cat_count[iter_key] / other_profile.sample_size
                 if (percent_other != 0) and (percent_self != 0):
-- 
2.43.0


From 41480901876e2c89b772cec4340d65bfc0bdaf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 17/89] fix: leave the caller's omit_keys alone in compact
 reports

---
 dataprofiler/profilers/helpers/report_helpers.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..96ec553 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,13 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From dc8e05b371ecdce0da014340c54fcf699245b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 18/89] fix: accumulate null replication sums of integer
 batches

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0b25758..75f5491 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2668,7 +2668,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From ff755c014214706d84ad73ed798837638c33c54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 19/89] fix: align columns and skip datetimes when merging null
 replication metrics

---
 dataprofiler/profilers/profile_builder.py | 26 +++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 75f5491..0a23231 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2711,10 +2711,17 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        # align the columns of the other profile with the columns of this one
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_idx = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        other_profiles = [other._profile[idx] for idx in other_idx]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2722,16 +2729,17 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for profile in other_profiles
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_profile = other_profiles[col_id]
+            other_col_id = other_idx[col_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2753,8 +2761,8 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                other._null_replication_metrics[other_col_id]["class_sum"][1]
+                if other_col_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
@@ -2766,7 +2774,11 @@ class StructuredProfiler(BaseProfiler):
                 sum_null += np.asarray(self_sum_null)
 
             if other_sum_null is not None:
-                sum_null += np.asarray(other_sum_null)
+                # reinsert the other's own column to index its sums by column
+                sum_by_col = np.insert(
+                    np.asarray(other_sum_null, dtype=float), other_col_id, 0
+                )
+                sum_null += np.delete(sum_by_col[other_idx], col_id)
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From c6aca440834e3aceeb2a35a24c7d69ca0b27db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:37 +0000
Subject: [PATCH 20/89] fix: merge correlations of aligned columns when some
 are not numeric

---
 dataprofiler/profilers/profile_builder.py | 45 ++++++++---------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0a23231..0c3094d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2395,6 +2395,15 @@ class StructuredProfiler(BaseProfiler):
         """
         corr_mat1 = self.correlation_matrix
         corr_mat2 = other.correlation_matrix
+
+        # align the columns of the other profile with the columns of this one
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_idx = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        if corr_mat2 is not None and other_idx:
+            corr_mat2 = corr_mat2[np.ix_(other_idx, other_idx)]
+
         n1 = self.total_samples - self.row_is_null_count
         n2 = other.total_samples - other.row_is_null_count
         if n1 == 0:
@@ -2414,35 +2423,13 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-
-        mean2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
+        # vectors over all columns, nan where a column has no correlation
+        mean1, std1, mean2, std2 = np.full((4, len(self._profile)), np.nan)
+        for idx in col_ids1:
+            stats1 = self._profile[idx].profile["statistics"]
+            stats2 = other._profile[other_idx[idx]].profile["statistics"]
+            mean1[idx], std1[idx] = stats1["mean"], stats1["stddev"]
+            mean2[idx], std2[idx] = stats2["mean"], stats2["stddev"]
         return self._merge_correlation_helper(
             corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
         )
-- 
2.43.0


From 5c2cb5f8a364b71d1d7069908d67a5b6cf067c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:14 +0000
Subject: [PATCH 21/89] fix: do not fail on batches without rows to correlate

---
 dataprofiler/profilers/profile_builder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0c3094d..3e8f5c7 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2352,6 +2352,8 @@ class StructuredProfiler(BaseProfiler):
         # fill correlation matrix with nan initially
         n_cols = len(self._profile)
         corr_mat = np.full((n_cols, n_cols), np.nan)
+        if data.empty:
+            return corr_mat
 
         # then, fill in the correlations for valid columns
         rows = [[id] for id in clean_column_ids]
@@ -2465,14 +2467,14 @@ class StructuredProfiler(BaseProfiler):
                     n = data_type_profiler.match_count
                     dependent_properties["mean"][id] = data_type_profiler.mean
                     # Subtract null row count as those aren't included in corr. calc
-                    dependent_properties["std"][id] = np.sqrt(
-                        data_type_profiler._biased_variance
-                        * n
-                        / (self.total_samples - self.row_is_null_count - 1)
-                    )
+                    n_rows = self.total_samples - self.row_is_null_count
+                    if n_rows > 1:
+                        dependent_properties["std"][id] = np.sqrt(
+                            data_type_profiler._biased_variance * n / (n_rows - 1)
+                        )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-- 
2.43.0


From bafc54a74e73b367928edcc7ed17dfe2dc4e7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:14 +0000
Subject: [PATCH 22/89] fix: diff columns whose type and category statistics
 are not shared

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3e8f5c7..0176419 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -285,7 +285,7 @@ class StructuredColProfiler:
             }
         )
 
-        unordered_profile["statistics"].update(
+        unordered_profile.setdefault("statistics", {}).update(
             {
                 "sample_size": profiler_utils.find_diff_of_numbers(
                     self.sample_size, other_profile.sample_size
-- 
2.43.0


From 47d70a8a7575bbcd2fce3cd70efa99650b499950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 23/89] fix: allow correlation updates after invalid values
 were seen

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0176419..c7ec667 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2476,6 +2476,9 @@ class StructuredProfiler(BaseProfiler):
                 # Finding the properties of the batch data if given
                 elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
+                    if "mean" not in history:
+                        # moments are not tracked once invalid values were seen
+                        continue
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
                     dependent_properties["mean"][id] = history["mean"]
-- 
2.43.0


From 0ad627171f8c1da795375b17f8866f674a3cb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:20 +0000
Subject: [PATCH 24/89] fix: do not alias the stored histogram when reporting

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 29bda27..befe0d8 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1522,8 +1522,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.histogram_methods[histogram_method]["total_loss"],
             )
         elif len(bin_counts) == suggested_bin_count:
+            # copy, so that later updates do not alter the stored histogram's dict
             return (
-                self._stored_histogram["histogram"],
+                dict(self._stored_histogram["histogram"]),
                 self._stored_histogram["total_loss"],
             )
 
-- 
2.43.0


From 7680c8d80ae382f79eb1ed45bf22441730048ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 25/89] fix: restore null value flags of options loaded from
 json

---
 dataprofiler/profilers/profiler_options.py | 28 ++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..8599182 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1488,6 +1488,34 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
         self.column_null_values = column_null_values
         self.sampling_ratio = sampling_ratio
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+        option = super().load_from_dict(data, config)
+
+        # json stores regex flags as ints and the column indices as strings
+        def load_flags(null_values: dict) -> dict:
+            return {k: re.RegexFlag(v) if v != 0 else 0 for k, v in null_values.items()}
+
+        if option.null_values is not None:
+            option.null_values = load_flags(option.null_values)
+        if option.column_null_values is not None:
+            option.column_null_values = {
+                int(col): load_flags(values)
+                for col, values in option.column_null_values.items()
+            }
+        return option
+
     @property
     def enabled_profiles(self) -> list[str]:
         """Return a list of the enabled profilers for columns."""
-- 
2.43.0


From 191d2360e8b7c8ffd4079b448795d70d2b094409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 26/89] fix: keep column names and null replication metrics of
 profiles loaded from json

---
 dataprofiler/profilers/profile_builder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c7ec667..7cafda0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2129,19 +2129,23 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
-
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
         }
+        if data.get("_null_replication_metrics") is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
 
         structured_profiler = super().load_from_dict(data, config)
 
+        # json turns every key into a string, take the names from the columns
+        structured_profiler._col_name_to_idx = defaultdict(list)
+        for idx, profile in enumerate(structured_profiler._profile):
+            name = profile.name
+            name = name.lower() if isinstance(name, str) else name
+            structured_profiler._col_name_to_idx[name].append(idx)
+
         return structured_profiler
 
     def _get_unique_row_ratio(self) -> float | None:
-- 
2.43.0


From 876b2aed2973015a6c7dbf1fc17e4169600e37c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 27/89] fix: pickle the correlation matrix and null replication
 metrics

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7cafda0..8f7e6a3 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3088,6 +3088,9 @@ class StructuredProfiler(BaseProfiler):
                 "_min_true_samples": self._min_true_samples,
                 "options": self.options,
                 "chi2_matrix": self.chi2_matrix,
+                "correlation_matrix": self.correlation_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
+                "_sampling_ratio": self._sampling_ratio,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From abc95af3cf7f386821e89f6aef1b6a3e1cccf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 28/89] fix: restore the data labelers when saving fails

---
 dataprofiler/profilers/profile_builder.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 8f7e6a3..6aa9805 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1133,11 +1133,12 @@ class BaseProfiler:
         data_dict["profiler_class"] = self.__class__.__name__
 
         # Pickle and save profile to disk
-        with open(filepath, "wb") as outfile:
-            pickle.dump(data_dict, outfile)
-
-        # Restore all data labelers
-        self._restore_data_labelers(data_labelers)
+        try:
+            with open(filepath, "wb") as outfile:
+                pickle.dump(data_dict, outfile)
+        finally:
+            # Restore all data labelers
+            self._restore_data_labelers(data_labelers)
 
     def _json_save_helper(self, filepath: str | None) -> None:
         """
-- 
2.43.0


From f05c5d5d9e524beb6dabac931894244e15a73998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:39 +0000
Subject: [PATCH 29/89] fix: sketch rows whatever the names of their columns

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6aa9805..9c61702 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2256,6 +2256,7 @@ class StructuredProfiler(BaseProfiler):
                     end_ind = (batch_ind + 1) * batch_size
                     for record in (
                         rows[start_ind : min(end_ind, len(rows))]
+                        .set_axis(range(rows.shape[1]), axis=1)
                         .to_json(orient="records", lines=True)
                         .splitlines()
                     ):
-- 
2.43.0


From 21855243b9b22709dec1f31e63b96a29766509f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:09 +0000
Subject: [PATCH 30/89] fix: do not report the losses of a merged histogram
 among its bins

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index befe0d8..e3af9e7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1524,7 +1524,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         elif len(bin_counts) == suggested_bin_count:
             # copy, so that later updates do not alter the stored histogram's dict
             return (
-                dict(self._stored_histogram["histogram"]),
+                {"bin_counts": bin_counts, "bin_edges": bin_edges},
                 self._stored_histogram["total_loss"],
             )
 
-- 
2.43.0


From 425e1cc2ccb1d43e75a2a65c54c25a5ba73cea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:18 +0000
Subject: [PATCH 31/89] fix: relate the null ratio of a column to all of its
 samples

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 9c61702..b3276e5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,8 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        if self.sample_size:
+            self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From 7255b68d905d32f44171fd621787cd1c20de7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:18 +0000
Subject: [PATCH 32/89] fix: compare the same bins of both histograms in the
 PSI of a diff

---
 .../profilers/numerical_column_stats.py       | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index e3af9e7..72fa281 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -707,10 +707,16 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             new_other_histogram["bin_edges"] = other_histogram["bin_edges"]
             new_other_histogram["bin_counts"] = other_histogram["bin_counts"]
 
-            len_self_bin_counts = len(self_histogram["bin_counts"])
+            # both histograms have to share the same bins to be comparable
+            def has_psi_bins(histogram):
+                return (
+                    len(histogram["bin_counts"]) == num_psi_bins
+                    and histogram["bin_edges"][0] == min_min_edge
+                    and histogram["bin_edges"][-1] == max_max_edge
+                )
 
             # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
+            if not has_psi_bins(self_histogram):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=self_histogram["bin_counts"],
                     bin_edges=self_histogram["bin_edges"],
@@ -727,14 +733,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 new_self_histogram["bin_edges"] = histogram["bin_edges"]
 
             # re-calculate `other_profile` histogram
-            histogram_edges_not_equal = False
-            all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
-            )
-            if not all_array_values_equal:
-                histogram_edges_not_equal = True
-
-            if histogram_edges_not_equal:
+            if not has_psi_bins(other_histogram):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=other_histogram["bin_counts"],
                     bin_edges=other_histogram["bin_edges"],
-- 
2.43.0


From 5602d1bc1276342d3ef0143a972b18091fd27bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:30 +0000
Subject: [PATCH 33/89] fix: format diffs whose entries differ in length

---
 dataprofiler/profilers/helpers/report_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 96ec553..94f70b7 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -237,7 +237,10 @@ def _prepare_report(
             if output_format == "pretty":
 
                 if isinstance(value, (set, list)):
-                    value = np.array(value)
+                    try:
+                        value = np.array(value)
+                    except ValueError:  # entries differ in length, e.g. in a diff
+                        value = np.array(value, dtype=object)
 
                 str_value = np.array2string(value, separator=", ")
 
-- 
2.43.0


From 3df28c6b707e160b7fdc58621df0a9710601b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:11 +0000
Subject: [PATCH 34/89] fix: diff dates which are further apart than pandas can
 represent

---
 dataprofiler/profilers/profiler_utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..f44ed48 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -26,6 +26,7 @@ from typing import (
 )
 
 import numpy as np
+import pandas as pd
 import psutil
 import scipy
 from pandas import DataFrame, Series
@@ -528,7 +529,21 @@ def find_diff_of_dates(
     """
     # We can use find_diff_of_numbers since datetime objects
     # can be compared and subtracted naturally
-    diff: datetime.timedelta | list | str = find_diff_of_numbers(stat1, stat2)
+    diff: datetime.timedelta | list | str
+    try:
+        diff = find_diff_of_numbers(stat1, stat2)
+    except (
+        OverflowError,
+        pd.errors.OutOfBoundsDatetime,
+        pd.errors.OutOfBoundsTimedelta,
+    ):
+        # beyond the range of pandas, but not of datetime
+        diff = find_diff_of_numbers(
+            *(
+                stat.to_pydatetime() if isinstance(stat, pd.Timestamp) else stat
+                for stat in (stat1, stat2)
+            )
+        )
     if isinstance(diff, str):
         return diff
     if isinstance(diff, list):
-- 
2.43.0


From 748a95ac6826eff754303d9aa13de42765cbf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 35/89] fix: correlate the chosen columns whatever the case of
 their names

---
 dataprofiler/profilers/profile_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b3276e5..3c5b5d0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2327,8 +2327,10 @@ class StructuredProfiler(BaseProfiler):
         columns = self.options.correlation.columns
         column_ids = list(range(len(self._profile)))
         if columns is not None:
+            # column names are looked up regardless of their case
+            names = list(dict.fromkeys(col_name.lower() for col_name in columns))
             column_ids = [
-                idx for col_name in columns for idx in self._col_name_to_idx[col_name]
+                idx for name in names for idx in self._col_name_to_idx.get(name, [])
             ]
         clean_column_ids = []
         for idx in column_ids:
-- 
2.43.0


From de05edb613a53b6f90fdea44d217fbb661d6fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:54 +0000
Subject: [PATCH 36/89] fix: only remove the disabled statistics from reports

---
 .../profilers/float_column_profile.py         |  9 ++--
 dataprofiler/profilers/int_column_profile.py  |  5 +-
 .../profilers/numerical_column_stats.py       | 54 ++++++++++++++-----
 dataprofiler/profilers/text_column_profile.py |  9 ++--
 .../profilers/unstructured_text_profile.py    | 15 +++---
 5 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 9c24b9c..7eb870d 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -150,12 +150,9 @@ class FloatColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "precision":
-                    if "precision" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "precision" not in calcs_dict_keys:
+                profile.pop("precision")
 
         return profile
 
diff --git a/dataprofiler/profilers/int_column_profile.py b/dataprofiler/profilers/int_column_profile.py
index 014465c..58809ab 100644
--- a/dataprofiler/profilers/int_column_profile.py
+++ b/dataprofiler/profilers/int_column_profile.py
@@ -70,7 +70,10 @@ class IntColumn(
             options should be excluded in the report.
         :type remove_disabled_flag: boolean
         """
-        return self.profile
+        profile = self.profile
+        if remove_disabled_flag:
+            self._remove_disabled_stats(profile)
+        return profile
 
     @classmethod
     def load_from_dict(cls, data, config: dict | None = None):
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 72fa281..5d32a30 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -411,25 +411,53 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         :return: Profile object pop'd based on values missing from __calculations
         :rtype: Profile
         """
-        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
         profile = self.profile()
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key in ["mode", "quantiles", "histogram"]:
-                    if "histogram_and_quantiles" in calcs_dict_keys:
-                        continue
-                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
-                    continue
-                elif profile_key in calcs_dict_keys:
-                    continue
-                elif profile_key == "times":
-                    continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
 
         return profile
 
+    def _remove_disabled_stats(self, profile: dict) -> None:
+        """
+        Remove the numeric statistics which are disabled from a profile.
+
+        :param profile: profile of the column, modified in place
+        :type profile: dict
+        :return: None
+        """
+        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
+        # calculation which each statistic comes from
+        sources = {
+            "min": "min",
+            "max": "max",
+            "sum": "sum",
+            "mean": "sum",
+            "variance": "variance",
+            "stddev": "variance",
+            "skewness": "skewness",
+            "kurtosis": "kurtosis",
+            "num_zeros": "num_zeros",
+            "num_negatives": "num_negatives",
+            "histogram": "histogram_and_quantiles",
+            "quantiles": "histogram_and_quantiles",
+            "mode": "histogram_and_quantiles",
+            "median": "histogram_and_quantiles",
+            "median_abs_deviation": "histogram_and_quantiles",
+        }
+        disabled_keys = {
+            key for key, calc in sources.items() if calc not in calcs_dict_keys
+        }
+        if not self._mode_is_enabled:
+            disabled_keys.add("mode")
+        if not self._median_is_enabled:
+            disabled_keys.add("median")
+        if not self._median_abs_dev_is_enabled:
+            disabled_keys.add("median_abs_deviation")
+
+        for key in disabled_keys:
+            profile.pop(key, None)
+
     def _reformat_numeric_stats_types_on_serialized_profiles(self):
         """Assistance function in the deserialization of profiler objects.
 
diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index 5969a41..a1cd895 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -76,12 +76,9 @@ class TextColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._remove_disabled_stats(profile)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
 
         return profile
 
diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..6938bdf 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -635,15 +635,12 @@ class TextProfiler:
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                if profile_key == "words":
-                    if "words" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
+                profile.pop("vocab_count")
+            if "words" not in calcs_dict_keys:
+                profile.pop("words")
+                profile.pop("word_count")
 
         return profile
 
-- 
2.43.0


From 36d9866110f106e46f46eed9157892e2d3b4eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:40 +0000
Subject: [PATCH 37/89] fix: omit every column with the key *.*

---
 dataprofiler/profilers/helpers/report_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 94f70b7..77c2612 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -171,6 +171,7 @@ def _prepare_report(
 
                     # Omit this column
                     if omit_key in {
+                        "*.*",
                         f"*.{col_name}",
                         "data_stats.*",
                         f"data_stats.{col_name}",
-- 
2.43.0


From be3ee6370a9489c988db8363b463df77e129cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:04 +0000
Subject: [PATCH 38/89] fix: sum the null replication metrics in the order of
 the profile's columns

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3c5b5d0..ca58d46 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2610,6 +2610,8 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        # samples are in the order of the batch's columns, sums in the profile's
+        data = data.sort_index(axis=1)
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
-- 
2.43.0


From f2b307d278cc44829f35f4cd2c37c0fae834b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:38 +0000
Subject: [PATCH 39/89] fix: remove the stop words of either profile from
 merged word counts

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 6938bdf..38c51b7 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,7 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if self._stop_words != other._stop_words:
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From 462d9fdeb06c49edfb860c0fe3b7016b559eacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 40/89] fix: add up the counts of words differing in case in
 text diffs

---
 .../profilers/unstructured_text_profile.py    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 38c51b7..a50b818 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -578,6 +578,19 @@ class TextProfiler:
 
         return merged_profile
 
+    @staticmethod
+    def _unique_lower(words: list[str]) -> list[str]:
+        """Return the words in lower case without repeating any."""
+        return list(dict.fromkeys(word.lower() for word in words))
+
+    @staticmethod
+    def _lower_counts(word_count: dict) -> dict:
+        """Return the counts of the words disregarding their case."""
+        lower_count: Counter = Counter()
+        for word, count in word_count.items():
+            lower_count[word.lower()] += count
+        return dict(lower_count)
+
     def diff(self, other_profile: TextProfiler, options: dict = None) -> dict:
         """
         Find the differences for two unstructured text profiles.
@@ -603,11 +616,11 @@ class TextProfiler:
         other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
 
         if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
+            self_words = self._unique_lower(self_words)
+            self_word_count = self._lower_counts(self_word_count)
         if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+            other_words = self._unique_lower(other_words)
+            other_word_count = self._lower_counts(other_word_count)
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From b15d3c1122c4b7c3b72fc27c7483f0003c19c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:17 +0000
Subject: [PATCH 41/89] fix: locate non-empty lines of text by position

---
 dataprofiler/profilers/profile_builder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ca58d46..acfca68 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1507,8 +1507,9 @@ class UnstructuredProfiler(BaseProfiler):
             # Query should search entire cell for all elements at once
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
-            # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            # Split series into None samples and true samples (by position, as
+            # index labels need neither be unique nor sorted)
+            true_sample_list.update(np.asarray(chunked_sample_ids)[~matches].tolist())
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1524,7 +1525,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From f4dfa49856aa6328887a1b242326e2245e1355e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:31 +0000
Subject: [PATCH 42/89] fix: fit edge attributes of any number of edges

---
 dataprofiler/profilers/graph_profiler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 0680a29..318faa1 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -403,7 +403,7 @@ class GraphProfiler:
                 data_as_list = self._attribute_data_as_list(graph, attribute)
                 df = pd.Series(data_as_list)
                 best_fit: str = None  # type: ignore[assignment]
-                best_mle: float = 1000
+                best_mle: float = np.inf
                 best_fit_properties: tuple = None  # type: ignore[assignment]
 
                 for distribution in distribution_candidates:
@@ -411,11 +411,15 @@ class GraphProfiler:
 
                     # scipy 1.11.0 updated the way they handle
                     # the loc parameter in fit() for lognorm
-                    if distribution == st.lognorm and scipy_gte_1_11_0:
-                        fit = distribution.fit(df, superfit=True)
-
-                    else:
-                        fit = distribution.fit(df)
+                    try:
+                        if distribution == st.lognorm and scipy_gte_1_11_0:
+                            fit = distribution.fit(df, superfit=True)
+
+                        else:
+                            fit = distribution.fit(df)
+                    except (RuntimeError, ValueError):
+                        # the distribution cannot be fit to this data
+                        continue
                     mle = distribution.nnlf(fit, df)
 
                     if mle <= best_mle:
-- 
2.43.0


From 667a97c69671842dc17285f9199109c31120e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:25 +0000
Subject: [PATCH 43/89] fix: profile graphs whose edges carry different
 attributes

---
 dataprofiler/profilers/graph_profiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 318faa1..9ab5370 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -479,6 +479,8 @@ class GraphProfiler:
         for attribute in attributes:
             is_categorical = False
             for u, v in graph.edges():
+                if attribute not in graph[u][v]:
+                    continue
                 attribute_value = graph[u][v][attribute]
                 if float(attribute_value).is_integer():
                     is_categorical = True
@@ -496,15 +498,15 @@ class GraphProfiler:
     @staticmethod
     def _find_all_attributes(graph: nx.Graph) -> list[str]:
         """Compute the number of attributes for each edge."""
-        attribute_list = set(
-            np.array([list(graph.edges[n].keys()) for n in graph.edges()]).flatten()
-        )
+        attribute_list = {key for n in graph.edges() for key in graph.edges[n].keys()}
         return list(attribute_list)
 
     def _attribute_data_as_list(self, graph: nx.Graph, attribute: str) -> list:
         """Fetch graph attribute data and convert it to a readable list."""
         data_as_list = []
         for u, v in list(graph.edges):
+            if attribute not in graph[u][v]:
+                continue
             value = graph[u][v][attribute]
             data_as_list.append(value)
         return data_as_list
-- 
2.43.0


From c2a40177733ef0fc74ab13c6efee699d151d81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:57 +0000
Subject: [PATCH 44/89] fix: honour the quote character when reading delimited
 files

---
 dataprofiler/data_readers/csv_data.py   | 2 ++
 dataprofiler/data_readers/data_utils.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..f9e3c98 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -562,6 +562,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.sample_nrows,
             self.selected_columns,
             read_in_string=True,
+            quotechar=self.quotechar,
         )
 
     def _load_data_from_file(self, input_file_path: str) -> pd.DataFrame:
@@ -610,6 +611,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.selected_columns,
             read_in_string=True,
             encoding=self.file_encoding,
+            quotechar=self.quotechar,
         )
 
     def _get_data_as_records(self, data: pd.DataFrame) -> List[str]:
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..315893c 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -375,6 +375,7 @@ def read_csv_df(
     selected_columns: List[str] = [],
     read_in_string: bool = False,
     encoding: Optional[str] = "utf-8",
+    quotechar: Optional[str] = None,
 ) -> pd.DataFrame:
     """
     Read a CSV file in chunks and return dataframe in form of iterator.
@@ -390,6 +391,10 @@ def read_csv_df(
     :param read_in_string: if True, all the values in dataframe will be
         converted to string
     :type read_in_string: bool
+    :param encoding: encoding of the CSV file
+    :type encoding: str
+    :param quotechar: character used to quote csv values.
+    :type quotechar: str
     :return: Iterator
     :rtype: pd.DataFrame
     """
@@ -406,6 +411,9 @@ def read_csv_df(
     if header is not None:
         args.update({"skip_blank_lines": False})
 
+    if quotechar:
+        args["quotechar"] = quotechar
+
     if read_in_string:
         args["dtype"] = str
 
-- 
2.43.0


From a5db6b13dbaf42a76700a2ada9ce73fdfa9a4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 45/89] fix: detect utf-8 files with few non-ascii characters

---
 dataprofiler/data_readers/data_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 315893c..ac5d3bd 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -634,6 +634,13 @@ def detect_file_encoding(
         except Exception:
             return False
 
+    # utf-8 with few non-ascii characters is mistaken for other 8-bit encodings,
+    # whereas non-ascii text in these is rarely valid utf-8.
+    if not encoding.lower().startswith(
+        ("utf-", "iso-2022-", "hz-")
+    ) and _decode_is_valid("utf-8"):
+        encoding = "utf-8"
+
     if not _decode_is_valid(encoding):
         try:
             from charset_normalizer import from_bytes
-- 
2.43.0


From 57c076190566ed78cc84530a6cbfc2a4ad9f5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 46/89] fix: reload delimited files with the given options

---
 dataprofiler/data_readers/csv_data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index f9e3c98..16228fe 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -763,10 +763,11 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         :type options: dict
         :return: None
         """
-        if not options:
-            options = dict()
-        options.update(
-            header=self.header, delimiter=self.delimiter, quotechar=self.quotechar
-        )
+        options = {
+            "header": self.header,
+            "delimiter": self.delimiter,
+            "quotechar": self.quotechar,
+            **(options or {}),
+        }
         super().reload(input_file_path, data, options)
         CSVData.__init__(self, self.input_file_path, data, options)
-- 
2.43.0


From 2ae16e10be31d3e43fd683e34d512f998e3a7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 47/89] fix: read json lines past blank lines

---
 dataprofiler/data_readers/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index ac5d3bd..10334cb 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -201,7 +201,7 @@ def read_json_df(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
@@ -257,7 +257,7 @@ def read_json(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
-- 
2.43.0


From 71e9227fbedc44af6ec5b6ab64925dfa92b5c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 48/89] fix: flatten nested objects of json lines

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 10334cb..457647d 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -149,7 +149,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0


From 5f7a4db3b1c4a741a3637034d7991b66e9a428f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 49/89] fix: number the rows of parquet files across row groups

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 457647d..459c5a4 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -559,7 +559,7 @@ def read_parquet_df(
             if selected_columns:
                 data_row_df = data_row_df[selected_columns]
 
-            data = pd.concat([data, data_row_df])
+            data = pd.concat([data, data_row_df], ignore_index=True)
 
         original_df_dtypes = data.dtypes
         if read_in_string:
-- 
2.43.0


From 4fae7b606d2e401eab2bf5596f002fb4a3583525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 50/89] fix: do not read the nodes of an edge list as edge
 attributes

---
 dataprofiler/data_readers/graph_data.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 337408a..2172828 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -269,17 +269,14 @@ class GraphData(BaseData):
             for column in range(0, len(csv_as_list[0])):
                 if csv_as_list[line_index][column] is None:
                     continue
-                if (
-                    column is not self._source_node
-                    or column is not self._destination_node
-                ) and self._column_names is not None:
-                    attributes[self._column_names[column]] = float(
-                        csv_as_list[line_index][column]
-                    )
-                elif column is self._source_node or column is self._destination_node:
+                if column in (self._source_node, self._destination_node):
                     networkx_graph.add_node(
                         self.check_integer(csv_as_list[line_index][column])
                     )
+                elif self._column_names is not None:
+                    attributes[self._column_names[column]] = float(
+                        csv_as_list[line_index][column]
+                    )
             networkx_graph.add_edge(
                 self.check_integer(csv_as_list[line_index][self._source_node]),
                 self.check_integer(csv_as_list[line_index][self._destination_node]),
-- 
2.43.0


From a071bc6c2bae89357221cefa98c0be6e6dc34d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 51/89] fix: read signed node ids of edge lists as integers

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 2172828..a4bdc68 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -297,7 +297,7 @@ class GraphData(BaseData):
     def check_integer(self, string: str) -> Union[int, str]:
         """Check whether string is integer and output integer."""
         stringVal = string
-        if string[0] == ("-", "+"):
+        if string[0] in ("-", "+"):
             stringVal = string[1:]
         if stringVal.isdigit():
             return int(string)
-- 
2.43.0


From 4ba9f3c165456d397a9484de7d9a1ef5b76dbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:48 +0000
Subject: [PATCH 52/89] fix: encode characters when labels are given as an
 array

---
 dataprofiler/labelers/data_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..7a1fecc 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -862,7 +862,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
         max_length = self._parameters["max_length"]
         for char_processed_data in char_processor_gen:
             x = char_processed_data
-            if labels:
+            if labels is not None:
                 x = char_processed_data[0]
                 y = char_processed_data[1]
 
@@ -875,7 +875,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
                     for c in text[0]
                 ]
 
-            if labels:
+            if labels is not None:
                 yield processed_x, y
             else:
                 yield processed_x
-- 
2.43.0


From 7c5237c067ad965162abd302246a36d683f4a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:48 +0000
Subject: [PATCH 53/89] fix: label cells without a prediction None wherever
 they are

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 7a1fecc..6fca27f 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1844,7 +1844,7 @@ class StructCharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrati
         if is_pred_labels:
             reverse_label_mapping = {v: k for k, v in label_mapping.items()}
             rev_label_map_vec_func = np.vectorize(
-                lambda x: reverse_label_mapping.get(x, None)
+                lambda x: reverse_label_mapping.get(x, None), otypes=[object]
             )
             results["pred"] = rev_label_map_vec_func(results["pred"])
         return results
-- 
2.43.0


From b1dc80c3e144d8795499fde9aad018e2795fa87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:03 +0000
Subject: [PATCH 54/89] fix: keep trailing null characters of labeled cells

---
 dataprofiler/labelers/data_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 6fca27f..015c85d 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1421,7 +1421,7 @@ class StructCharPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMeta
         separator: str = self._parameters["flatten_separator"]
         default_label: str = self._parameters["default_label"]
 
-        text = separator.join(data.astype(str))
+        text = separator.join(map(str, data))
         if labels is None:
             return text, None
 
@@ -1516,7 +1516,10 @@ class StructCharPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMeta
             np_unstruct_labels = None
 
         return super().process(
-            np.array(unstructured_data), np_unstruct_labels, label_mapping, batch_size
+            np.array(unstructured_data, dtype="object"),
+            np_unstruct_labels,
+            label_mapping,
+            batch_size,
         )
 
 
-- 
2.43.0


From d91b2005f1913e65a566aca061acf52f01e717e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:35 +0000
Subject: [PATCH 55/89] fix: label with precompiled regex patterns

---
 dataprofiler/labelers/regex_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index c6a690c..6048f24 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -215,11 +215,13 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         pre_compiled_patterns = copy.deepcopy(regex_patterns)
         for entity_label, entity_patterns in pre_compiled_patterns.items():
             for i in range(len(entity_patterns)):
-                pattern = (
-                    start_pattern + pre_compiled_patterns[entity_label][i] + end_pattern
-                )
+                pattern = pre_compiled_patterns[entity_label][i]
+                flags = re_flags
+                if isinstance(pattern, re.Pattern):
+                    flags |= pattern.flags
+                    pattern = pattern.pattern
                 pre_compiled_patterns[entity_label][i] = re.compile(
-                    pattern, flags=re_flags
+                    start_pattern + pattern + end_pattern, flags=flags
                 )
 
         # Construct array initial regex predictions where background is
-- 
2.43.0


From 29fe162ad22c7f3089a41bde9b22b0fa656eba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:35 +0000
Subject: [PATCH 56/89] fix: predict nothing when the regex model is given no
 data

---
 dataprofiler/labelers/regex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index 6048f24..726ae1f 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -227,7 +227,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # Construct array initial regex predictions where background is
         # predicted.
         predictions = [np.empty((0,))] * 100
-        i = 0
+        i = -1
         for i, input_string in enumerate(data):
 
             # Double array size
-- 
2.43.0


From 500a3de482b3731a9f350d463b86fb43ac042a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 57/89] fix: do not share the parameters given to a labeler
 model

---
 dataprofiler/labelers/column_name_model.py | 3 +--
 dataprofiler/labelers/regex_model.py       | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index d698cfd..5d46002 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -37,8 +37,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = dict(parameters) if parameters else {}
         parameters.setdefault("false_positive_dict", None)
         parameters.setdefault("true_positive_dict", None)
         parameters.setdefault("include_label", True)
diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index 726ae1f..46e6592 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -54,8 +54,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = dict(parameters) if parameters else {}
         parameters.setdefault("regex_patterns", {})
         parameters.setdefault("encapsulators", {"start": "", "end": ""})
         parameters.setdefault("ignore_case", True)
-- 
2.43.0


From 4ff89326dd2cc56158a834b226e1fbfb15f99e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 58/89] fix: compare regex postprocessors regardless of their
 random state

---
 dataprofiler/labelers/data_processing.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 015c85d..608d8a3 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1916,6 +1916,29 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
 
         super().__init__(**parameters)
 
+    def __eq__(self, other: object) -> bool:
+        """
+        Check if two processors are equal with one another.
+
+        :param self: a processor
+        :param other: a processor
+        :type self: RegexPostProcessor
+        :type other: RegexPostProcessor
+        :return: Whether or not self and other are equal
+        :rtype: bool
+        """
+        if (
+            type(self) != type(other)
+            or not isinstance(other, RegexPostProcessor)
+            or self._parameters["aggregation_func"]
+            != other._parameters["aggregation_func"]
+            or not np.array_equal(
+                self._parameters["priority_order"], other._parameters["priority_order"]
+            )
+        ):
+            return False
+        return True
+
     def _validate_parameters(self, parameters: dict) -> None:
         """
         Validate params set in the processor and raise error if issues exist.
-- 
2.43.0


From 13e9d89ecc9a6deca34bd456f2354fab86b15b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 59/89] fix: save regex postprocessors whose priority order is
 an array

---
 dataprofiler/labelers/data_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 608d8a3..97a49b1 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -2093,6 +2093,8 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
         """
         params = copy.deepcopy(self._parameters)
         params["random_state"] = params["random_state"].getstate()
+        if isinstance(params["priority_order"], np.ndarray):
+            params["priority_order"] = params["priority_order"].tolist()
         with open(
             os.path.join(dirpath, self.processor_type + "_parameters.json"), "w"
         ) as fp:
-- 
2.43.0


From 88a37d5424b75cbbd8370d2d1e0bc16ed95cc78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 60/89] fix: a loaded character postprocessor equals the saved
 one

---
 dataprofiler/labelers/data_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 97a49b1..235bb39 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -919,6 +919,9 @@ class CharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMeta
             word_level labeling
         :type word_level_min_percent: float
         """
+        # lists come from saved processors
+        if isinstance(separators, list):
+            separators = tuple(separators)
         super().__init__(
             default_label=default_label,
             pad_label=pad_label,
-- 
2.43.0


From c28b9826b08b4eb8a97b7a30a3db2d8c830305cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 61/89] fix: set single parameters of a column name model

---
 dataprofiler/labelers/column_name_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index 5d46002..0a2b33e 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -76,7 +76,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
 
         list_of_accepted_parameters = optional_parameters + required_parameters
 
-        if parameters["true_positive_dict"]:
+        if parameters.get("true_positive_dict"):
             label_map_dict_keys = set(self.label_mapping.keys())
             true_positive_unique_labels = set(
                 parameters["true_positive_dict"][0].values()
@@ -96,7 +96,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                 param == "false_positive_dict"
                 and value is not None
                 and (not isinstance(value, list) or "attribute" not in value[0].keys())
-                and parameters["negative_threshold_config"] is not None
+                and parameters.get("negative_threshold_config") is not None
             ):
                 errors.append(
                     """`{}` must be a list of dictionaries with at
@@ -123,7 +123,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                 )
             elif param == "negative_threshold_config" and (
                 not isinstance(value, int)
-                and parameters["false_positive_dict"] is not None
+                and parameters.get("false_positive_dict") is not None
             ):
                 errors.append(
                     "`{}` is an optional parameter that must be a boolean.".format(
-- 
2.43.0


From c69b7daabddb7bb649c6725cc32a614e7dddb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:03 +0000
Subject: [PATCH 62/89] fix: merge data labels of a column without values in
 one profile

---
 dataprofiler/profilers/data_labeler_column_profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..5913787 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,14 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in set(self.rank_distribution) | set(other.rank_distribution)
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From 2d682c5f8e76c37887f5d9219b38fc8b617eb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 63/89] fix: average predictions of labels whose indices have
 gaps

---
 dataprofiler/profilers/data_labeler_column_profile.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 5913787..406138b 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -166,6 +166,7 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
 
         # Set all common variables
         merged_profile.data_labeler = self.data_labeler
+        merged_profile._reverse_label_mapping = self.reverse_label_mapping
         merged_profile._possible_data_labels = self._possible_data_labels
         merged_profile._top_k_voting = self._top_k_voting
         merged_profile._min_voting_prob = self._min_voting_prob
@@ -275,7 +276,13 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             return None
 
         avg_predictions = self.sum_predictions / self.sample_size
-        return dict(zip(self.possible_data_labels, avg_predictions))
+        # predictions end with that of the largest index, but do not start from
+        # zero if that index is reserved
+        start_index = max(self.reverse_label_mapping) + 1 - len(avg_predictions)
+        return {
+            label: avg_predictions[index - start_index]
+            for index, label in sorted(self.reverse_label_mapping.items())
+        }
 
     @property
     def label_representation(self) -> dict[str, float] | None:
-- 
2.43.0


From ae46181d290994bd7e034d8f29d6382cb4cb54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:00 +0000
Subject: [PATCH 64/89] fix: validation results only hold those of the last run

---
 dataprofiler/validators/base_validators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/validators/base_validators.py b/dataprofiler/validators/base_validators.py
index 5b13d12..c676649 100644
--- a/dataprofiler/validators/base_validators.py
+++ b/dataprofiler/validators/base_validators.py
@@ -93,6 +93,10 @@ class Validator:
 
         self.config = config
 
+        # do not keep results of earlier runs
+        self.validation_run = False
+        self.validation_report = dict()
+
         df_type = config.get("df_type", "").lower()
 
         for iter_key, value in known_anomaly_validation.items():
-- 
2.43.0


From b7fd6092ad9bb2531b1d6991dcf1c4ce5a2e4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:35 +0000
Subject: [PATCH 65/89] fix: merged profiles only report the top categories

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index d51e355..4b5a024 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        # show all categories if any of the profiles does
+        if self._top_k_categories is not None and other._top_k_categories is not None:
+            merged_profile._top_k_categories = max(
+                self._top_k_categories, other._top_k_categories
+            )
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From bcb8c631381fbee08f1ccbe844ec257c5c051edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:35 +0000
Subject: [PATCH 66/89] fix: update merged profiles which use a count min
 sketch

---
 dataprofiler/profilers/categorical_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 4b5a024..b732f16 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -137,6 +137,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                 other.sample_size,
                 cms_max_num_heavy_hitters,
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
         elif not self.cms and not other.cms:
             # If both profiles have not met stop condition
-- 
2.43.0


From 609f1149abfb1cd29fe0abbcf60da364fb74cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:35 +0000
Subject: [PATCH 67/89] fix: raise the error about incompatible count min
 sketches

---
 dataprofiler/profilers/categorical_column_profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index b732f16..8d7532c 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -573,12 +573,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms3.merge(cms1)
             cms3.merge(cms2)
         except ValueError as err:
-            raise err(
+            raise ValueError(
                 """Incompatible sketch configuration. When merging two sketches,
                 they must have the same number of buckets and hashes,
                 which are defined by cms_confidence and cms_relative_error options,
                 respectively."""
-            )
+            ) from err
 
         # re-collecting the estimates of non intersecting categories before
         # re-applying heavy-hitters to the aggregate profile.
-- 
2.43.0


From 415765c87f7d989595fb934d167617a557f25da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:41 +0000
Subject: [PATCH 68/89] fix: save and load profiles which use a count min
 sketch

---
 .../profilers/categorical_column_profile.py    | 18 ++++++++++++++++++
 dataprofiler/profilers/json_encoder.py         |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 8d7532c..6b7ab06 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -1,6 +1,7 @@
 """Contains class for categorical column profiler."""
 from __future__ import annotations
 
+import base64
 import math
 from collections import defaultdict
 from operator import itemgetter
@@ -86,6 +87,19 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                     self.cms_num_hashes, self.cms_num_buckets
                 )
 
+    def __getstate__(self) -> dict:
+        """Return the state to pickle, sketches are stored in serialized form."""
+        state = self.__dict__.copy()
+        if state.get("cms") is not None:
+            state["cms"] = state["cms"].serialize()
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore the pickled state."""
+        self.__dict__.update(state)
+        if isinstance(state.get("cms"), bytes):
+            self.cms = datasketches.count_min_sketch.deserialize(state["cms"])
+
     def __add__(self, other: CategoricalColumn) -> CategoricalColumn:
         """
         Merge the properties of two CategoricalColumn profiles.
@@ -371,6 +385,10 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
         value = data.pop("_categories")
         profile = super().load_from_dict(data)
         setattr(profile, "_categories", defaultdict(int, value))
+        if profile.cms is not None:
+            profile.cms = datasketches.count_min_sketch.deserialize(
+                base64.b64decode(profile.cms)
+            )
         return profile
 
     @property
diff --git a/dataprofiler/profilers/json_encoder.py b/dataprofiler/profilers/json_encoder.py
index cf0227f..5d9ea8c 100644
--- a/dataprofiler/profilers/json_encoder.py
+++ b/dataprofiler/profilers/json_encoder.py
@@ -1,8 +1,10 @@
 """Contains ProfilerEncoder class."""
 
+import base64
 import json
 from datetime import datetime
 
+import datasketches
 import numpy as np
 import pandas as pd
 
@@ -55,6 +57,8 @@ class ProfileEncoder(json.JSONEncoder):
             return to_serialize.tolist()
         elif isinstance(to_serialize, (pd.Timestamp, datetime)):
             return to_serialize.isoformat()
+        elif isinstance(to_serialize, datasketches.count_min_sketch):
+            return base64.b64encode(to_serialize.serialize()).decode("ascii")
         elif isinstance(to_serialize, BaseDataLabeler):
             # TODO: This does not allow the user to serialize a model if it is loaded
             # "from_disk". Changes to BaseDataLabeler are needed for this feature
-- 
2.43.0


From e34400f7aa1ca3bee360a600ff0b64637fbe4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:50 +0000
Subject: [PATCH 69/89] fix: report invalid row statistics options

---
 dataprofiler/profilers/profiler_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 8599182..9a72eee 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1204,7 +1204,7 @@ class RowStatisticsOptions(BooleanOption["RowStatisticsOptions"]):
 
         errors += self.unique_count._validate_helper(variable_path + ".unique_counts")
         errors += self.null_count._validate_helper(variable_path + ".null_count")
-        return super()._validate_helper(variable_path)
+        return errors
 
 
 class DataLabelerOptions(BaseInspectorOptions["DataLabelerOptions"]):
-- 
2.43.0


From 76dd87def2c3fe4e34495074978e700a037599ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:50 +0000
Subject: [PATCH 70/89] fix: validate the vocab and words options of texts

---
 dataprofiler/profilers/profiler_options.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 9a72eee..1d99cd8 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1416,11 +1416,15 @@ class TextProfilerOptions(BaseInspectorOptions["TextProfilerOptions"]):
             errors.append(
                 "{}.vocab must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.vocab._validate_helper(variable_path + ".vocab")
 
         if not isinstance(self.words, BooleanOption):
             errors.append(
                 "{}.words must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.words._validate_helper(variable_path + ".words")
 
         return errors
 
-- 
2.43.0


From de365ae3bce85f469b40002aee90e0d2574ee989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 71/89] fix: return all modes when their number is not limited

---
 dataprofiler/profilers/numerical_column_stats.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 5d32a30..2451868 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -58,7 +58,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             )
         self.min: int | float | np.float64 | np.int64 | None = None
         self.max: int | float | np.float64 | np.int64 | None = None
-        self._top_k_modes: int = 5  # By default, return at max 5 modes
+        self._top_k_modes: int | None = 5  # By default, return at max 5 modes
         self.sum: int | float | np.float64 | np.int64 = np.float64(0)
         self._biased_variance: float | np.float64 = np.nan
         self._biased_skewness: float | np.float64 = np.nan
@@ -358,7 +358,10 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.quantiles = copy.deepcopy(source.quantiles)
 
         # Merge max k mode count
-        self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
+        if other1._top_k_modes is None or other2._top_k_modes is None:
+            self._top_k_modes = None
+        else:
+            self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
         # Merge median enable/disable option
         self._median_is_enabled = (
             other1._median_is_enabled and other2._median_is_enabled
@@ -1135,7 +1138,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 highest_idxs = [i]
                 cur_max = bin_counts[i]
                 count = 1
-            elif bin_counts[i] == cur_max and count < self._top_k_modes:
+            elif bin_counts[i] == cur_max and (
+                self._top_k_modes is None or count < self._top_k_modes
+            ):
                 highest_idxs.append(i)
                 count += 1
         highest_idxs = np.array(highest_idxs)  # type: ignore
-- 
2.43.0


From d74e8ec35c779117bdebfc64e1d60662486d382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:10 +0000
Subject: [PATCH 72/89] fix: sample a value for the precision of short columns

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 7eb870d..71cb730 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -298,7 +298,7 @@ class FloatColumn(
         # If user sets sample ratio, utilize their request
         sample_size = min(len_df, max(20000, int(len_df * 0.05)))
         if sample_ratio is not None and sample_ratio > 0:
-            sample_size = int(len_df * sample_ratio)
+            sample_size = max(1, int(len_df * sample_ratio))
 
         # length of sampled cells after all punctuation removed
         len_per_float = (
-- 
2.43.0


From b2a65d965f68605244ea0f15bc14c73e708fe46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:01 +0000
Subject: [PATCH 73/89] fix: missing-value plot drew bars over rows that are
 not null

After closing one run of null rows, the end of the next run was left at the
end of the previous one, so every isolated null row between two others was
drawn as a negative-height bar covering non-null rows.
---
 dataprofiler/reports/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 1f0b430..58f02d8 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -320,6 +320,7 @@ def plot_col_missing_values(
                         )
                     )
                     y_start = next_value
+                    y_end = next_value
                 null_ind += 1
             y_end = null_indexes[-1]
             # plot the patch of the last null value
-- 
2.43.0


From 299ef2b03613bacf42efbe11051c184d87b38a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:01 +0000
Subject: [PATCH 74/89] fix: histograms of selected columns are plotted in
 profile order

The result of sorting the requested columns was discarded.
---
 dataprofiler/reports/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 58f02d8..6b3b164 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -83,7 +83,7 @@ def plot_histograms(
             inds_to_graph.extend(profiler._col_name_to_idx[col])
 
     # sort the column indexes to be in the same order as the original profiler.
-    sorted(inds_to_graph)
+    inds_to_graph = sorted(inds_to_graph)
 
     # get all columns which are of type [int, float]
     def is_index_graphable_column(ind_to_graph: int) -> bool:
-- 
2.43.0


From 1fdfd3d8b678b270283880b33160315c3f2dae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:40 +0000
Subject: [PATCH 75/89] fix: printed classification report without any true
 label of interest

The weighted averages were returned as arrays, which cannot be formatted.
---
 dataprofiler/labelers/classification_report_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/classification_report_utils.py b/dataprofiler/labelers/classification_report_utils.py
index 28e742e..6ec2299 100644
--- a/dataprofiler/labelers/classification_report_utils.py
+++ b/dataprofiler/labelers/classification_report_utils.py
@@ -208,7 +208,7 @@ def precision_recall_fscore_support(
     if average == "weighted":
         weights = true_sum
         if weights.sum() == 0:
-            return np.array([0.0]), np.array([0.0]), np.array([0.0]), None
+            return np.float64(0.0), np.float64(0.0), np.float64(0.0), None
     elif average == "samples":
         weights = sample_weight
     else:
-- 
2.43.0


From 576259e66e41fc001fea76b7b2e0c1c63e6d021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:08 +0000
Subject: [PATCH 76/89] fix: nulls of a batch with negative row labels were
 recorded at other rows

Overlapping row labels are shifted past the largest label seen; the shift
assumed the new labels start at zero or above, so with negative labels nulls
of different batches fell on the same rows.
---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index acfca68..de78a5f 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -452,7 +452,8 @@ class StructuredColProfiler:
             )
 
             # Shift indices (min, max, and all indices in null types index
-            self._index_shift = cast(int, self._max_id) + 1
+            # past the largest index seen, even if the new ones are negative
+            self._index_shift = cast(int, self._max_id) + 1 - min(base_min, 0)
             base_min = base_min + self._index_shift
             base_max = base_max + self._index_shift
 
@@ -2654,7 +2655,6 @@ class StructuredProfiler(BaseProfiler):
             # Keep only the null indices inside the chunk (reverse index shift)
             if profile._index_shift is not None:
                 null_indices = [index - profile._index_shift for index in null_indices]
-                null_indices = [index for index in null_indices if index >= 0]
 
             # Partition data based on whether target column value is null or not
             # Calculate sum, mean of each partition without including current column
-- 
2.43.0


From 0afa15d2a47a89d1023ce0797d90d5ab55d5a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:12 +0000
Subject: [PATCH 77/89] fix: a seed did not make the report of a table
 reproducible

The cells sampled for date detection, float precision and data labels, and the
example values of merged columns, were drawn without the seed.
---
 dataprofiler/profilers/data_labeler_column_profile.py | 5 ++++-
 dataprofiler/profilers/datetime_column_profile.py     | 7 ++++++-
 dataprofiler/profilers/float_column_profile.py        | 7 ++++++-
 dataprofiler/profilers/profile_builder.py             | 4 +++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 406138b..a369d14 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -7,6 +7,7 @@ from typing import Dict, cast
 import numpy as np
 from pandas import DataFrame, Series
 
+from .. import rng_utils
 from ..labelers.base_data_labeler import BaseDataLabeler
 from ..labelers.data_labelers import DataLabeler
 from . import profiler_utils
@@ -468,7 +469,9 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             return self
 
         sample_size = min(len(df_series), self._max_sample_size)
-        df_series = df_series.sample(sample_size)
+        df_series = df_series.sample(
+            sample_size, random_state=rng_utils.get_random_number_generator()
+        )
 
         profile = dict(sample_size=sample_size)
         self._update_predictions(
diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..5977824 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -8,6 +8,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .profiler_options import DateTimeOptions
@@ -358,7 +359,11 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
         num_samples_to_check = 50
         thresh = 0.10
         sample_size = min(num_samples_to_check, len(df_series))
-        profile = self._get_datetime_profile(df_series.sample(sample_size))
+        profile = self._get_datetime_profile(
+            df_series.sample(
+                sample_size, random_state=rng_utils.get_random_number_generator()
+            )
+        )
 
         if profile["match_count"] / sample_size < thresh:
             return False
diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 71cb730..d0fa9be 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -7,6 +7,7 @@ import re
 import numpy as np
 import pandas as pd
 
+from .. import rng_utils
 from . import profiler_utils
 from .base_column_profilers import BaseColumnPrimitiveTypeProfiler, BaseColumnProfiler
 from .numerical_column_stats import NumericStatsMixin
@@ -302,7 +303,11 @@ class FloatColumn(
 
         # length of sampled cells after all punctuation removed
         len_per_float = (
-            df_series_clean.sample(sample_size).replace(to_replace=r, value="").map(len)
+            df_series_clean.sample(
+                sample_size, random_state=rng_utils.get_random_number_generator()
+            )
+            .replace(to_replace=r, value="")
+            .map(len)
         ).astype(float)
 
         # Determine statistics precision
diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index de78a5f..83bc0a6 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -246,7 +246,9 @@ class StructuredColProfiler:
             }
         )
         samples = list(dict.fromkeys(self.sample + other.sample))
-        merged_profile.sample = random.sample(samples, min(len(samples), 5))
+        rng = rng_utils.get_random_number_generator()
+        sample_inds = rng.choice(len(samples), min(len(samples), 5), replace=False)
+        merged_profile.sample = [samples[ind] for ind in sample_inds]
         for profile_name in self.profiles:
             merged_profile.profiles[profile_name] = (
                 self.profiles[profile_name] + other.profiles[profile_name]
-- 
2.43.0


From e79235aec22c08e45f7024dd7151e722caf348cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:12 +0000
Subject: [PATCH 78/89] fix: example values of a column lost trailing NUL
 characters

---
 dataprofiler/profilers/profile_builder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 83bc0a6..6c6b0e5 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -671,9 +671,12 @@ class StructuredColProfiler:
             "null_count": total_na,
             "null_ratio": total_na / total_sample_size,
             "null_types": na_columns,
-            "sample": rng.choice(
-                list(df_series.values), (min(len(df_series), 5),), replace=False
-            ).tolist(),
+            "sample": [
+                df_series.iloc[ind]
+                for ind in rng.choice(
+                    len(df_series), (min(len(df_series), 5),), replace=False
+                )
+            ],
             "min_id": min_id,
             "max_id": max_id,
         }
-- 
2.43.0


From d8c6502d1c5c324a5dc9d9249d0ae9d7006680e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:38 +0000
Subject: [PATCH 79/89] fix: the rows sampled from a Parquet file and the order
 of batches ignored the seed

---
 dataprofiler/data_readers/base_data.py  | 5 ++---
 dataprofiler/data_readers/data_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/base_data.py b/dataprofiler/data_readers/base_data.py
index 27d8d5d..58e21be 100644
--- a/dataprofiler/data_readers/base_data.py
+++ b/dataprofiler/data_readers/base_data.py
@@ -5,10 +5,9 @@ from collections import OrderedDict
 from io import StringIO
 from typing import Any, Dict, Generator, List, Optional, Union
 
-import numpy as np
 import pandas as pd
 
-from .. import dp_logging
+from .. import dp_logging, rng_utils
 from . import data_utils
 
 logger = dp_logging.get_child_logger(__name__)
@@ -154,7 +153,7 @@ class BaseData:
     ) -> Generator[Union[pd.DataFrame, List], None, None]:
         """Get batch generator."""
         data_length = len(self.data)
-        indices = np.random.permutation(data_length)
+        indices = rng_utils.get_random_number_generator().permutation(data_length)
         for i in range(0, data_length, batch_size):
             if isinstance(self.data, pd.DataFrame):
                 yield self.data.iloc[indices[i : i + batch_size], :]
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 459c5a4..c108301 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -2,7 +2,6 @@
 import json
 import logging
 import os
-import random
 import re
 import urllib
 from collections import OrderedDict
@@ -511,7 +510,8 @@ def sample_parquet(
     n_rows = parquet_table.num_rows
     if n_rows > sample_nrows:
         sample_index = np.array([False] * n_rows)
-        sample_index[random.sample(range(n_rows), sample_nrows)] = True
+        rng = rng_utils.get_random_number_generator()
+        sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True
     else:
         sample_index = np.array([True] * n_rows)
     sample_df = parquet_table.filter(sample_index).to_pandas()
-- 
2.43.0


From 1a4c697b0e877e5a68b5f3616be901a297b9672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:18 +0000
Subject: [PATCH 80/89] fix: integers beside nulls lost digits in Parquet, Avro
 and JSON tables

pandas turns an integer column with missing values into floats, so integers
over 2**53 were read as other numbers.
---
 dataprofiler/data_readers/data_utils.py | 53 ++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index c108301..0ce6eb2 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -120,6 +120,49 @@ def unicode_to_str(data: JSONType, ignore_dicts: bool = False) -> JSONType:
     return data
 
 
+def _flatten_record(record: Dict, prefix: str = "") -> Dict:
+    """
+    Flatten the nested dictionaries of a record as `pd.json_normalize` does.
+
+    :param record: record to be flattened
+    :type record: dict
+    :param prefix: path of the record within the one it is nested in
+    :type prefix: str
+    :return: flat dictionary, keyed by the path of each value
+    :rtype: dict
+    """
+    flat: Dict = {}
+    for key, value in record.items():
+        if isinstance(value, dict):
+            flat.update(_flatten_record(value, f"{prefix}{key}."))
+        else:
+            flat[f"{prefix}{key}"] = value
+    return flat
+
+
+def _restore_integers(df: pd.DataFrame, records: List[Dict]) -> None:
+    """
+    Restore the integers pandas turned into floats for being beside nulls.
+
+    :param df: dataframe made from the records, altered in place
+    :type df: pd.DataFrame
+    :param records: records the dataframe was made from
+    :type records: list(dict)
+    """
+    columns = [col for col in df.columns if df[col].dtype == np.float64]
+    if not columns:
+        return
+    flat_records = [_flatten_record(record) for record in records]
+    for col in columns:
+        values = [record.get(col) for record in flat_records]
+        if all(type(value) in (int, type(None)) for value in values):
+            df[col] = pd.Series(
+                [np.nan if value is None else value for value in values],
+                index=df.index,
+                dtype=object,
+            )
+
+
 def json_to_dataframe(
     json_lines: List[JSONType],
     selected_columns: Optional[List[str]] = None,
@@ -153,6 +196,8 @@ def json_to_dataframe(
     else:
         df = pd.DataFrame(json_lines)
     original_df_dtypes = df.dtypes
+    if issubclass(first_item_type, dict):
+        _restore_integers(df, json_lines)
 
     df[df.columns] = df[df.columns].astype(str)
 
@@ -514,7 +559,9 @@ def sample_parquet(
         sample_index[rng.choice(n_rows, sample_nrows, replace=False)] = True
     else:
         sample_index = np.array([True] * n_rows)
-    sample_df = parquet_table.filter(sample_index).to_pandas()
+    sample_df = parquet_table.filter(sample_index).to_pandas(
+        integer_object_nulls=True
+    )
 
     # Convert all the unicode columns to utf-8
     sample_df = convert_unicode_col_to_utf8(sample_df)
@@ -551,7 +598,9 @@ def read_parquet_df(
         data = pd.DataFrame()
         for i in range(parquet_file.num_row_groups):
 
-            data_row_df = parquet_file.read_row_group(i).to_pandas()
+            data_row_df = parquet_file.read_row_group(i).to_pandas(
+                integer_object_nulls=True
+            )
 
             # Convert all the unicode columns to utf-8
             data_row_df = convert_unicode_col_to_utf8(data_row_df)
-- 
2.43.0


From 924de8ffb7a179c9b755ed3e246b68dcde714c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:30 +0000
Subject: [PATCH 81/89] fix: sampling a csv file split rows with quoted line
 breaks

Rows were sampled line by line, so a row with a line break in a quoted cell
was torn apart and returned as other rows.
---
 dataprofiler/data_readers/data_utils.py | 47 ++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 0ce6eb2..2c51b08 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -12,6 +12,7 @@ from typing import (
     Any,
     Dict,
     Generator,
+    Iterable,
     Iterator,
     List,
     Optional,
@@ -320,12 +321,12 @@ def read_json(
     return lines
 
 
-def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
+def reservoir(file: Iterable[str], sample_nrows: int) -> list:
     """
     Implement the mathematical logic of Reservoir sampling.
 
-    :param file: wrapper of the opened csv file
-    :type file: TextIOWrapper
+    :param file: rows of the opened csv file
+    :type file: Iterable(str)
     :param sample_nrows: number of rows to sample
     :type sample_nrows: int
 
@@ -387,6 +388,39 @@ def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
     return values
 
 
+def csv_rows(lines: Iterable[str], delimiter: str, quotechar: str) -> Iterator[str]:
+    """
+    Join the lines of a csv file which belong to the same row.
+
+    :param lines: lines of the csv file
+    :type lines: Iterable(str)
+    :param delimiter: character used to separate csv values.
+    :type delimiter: str
+    :param quotechar: character used to quote csv values.
+    :type quotechar: str
+    :return: rows of the csv file, with all the lines their quoted cells span
+    :rtype: Iterator(str)
+    """
+    row = ""
+    in_quotes = False
+    for line in lines:
+        row += line
+        if in_quotes or quotechar in line:
+            # a quote only has a meaning at the start of a cell or within quotes
+            is_special = True
+            for char in line:
+                if char == quotechar and (in_quotes or is_special):
+                    in_quotes = not in_quotes
+                    is_special = True
+                else:
+                    is_special = char == delimiter
+        if not in_quotes:
+            yield row
+            row = ""
+    if row:
+        yield row
+
+
 def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO:
     """
     Implement Reservoir Sampling to sample n rows out of a total of M rows.
@@ -400,12 +434,15 @@ def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO
     """
     header = args["header"]
     result = []
+    rows = csv_rows(
+        file_path, args.get("delimiter") or ",", args.get("quotechar") or '"'
+    )
 
     if header is not None:
-        result = [[next(file_path) for i in range(header + 1)][-1]]
+        result = [[next(rows) for i in range(header + 1)][-1]]
         args["header"] = 0
 
-    result += reservoir(file_path, sample_nrows)
+    result += reservoir(rows, sample_nrows)
 
     fo = StringIO("".join([i if (i[-1] == "\n") else i + "\n" for i in result]))
     return fo
-- 
2.43.0


From 4c9d85ec3184c7304838874c70c601eef7695ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:48 +0000
Subject: [PATCH 82/89] fix: a csv cell with line separators was split over
 several records

The records of a csv file were its text cut at every character Python counts
as a line boundary, also within quoted cells.
---
 dataprofiler/data_readers/csv_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 16228fe..85e16a8 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -619,7 +619,8 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         sep = self.delimiter if self.delimiter else self._default_delimiter
         quote = self.quotechar if self.quotechar else self._default_quotechar
         data = data.to_csv(sep=sep, quotechar=quote, index=False)
-        data = data.splitlines()
+        rows = data_utils.csv_rows(StringIO(data), sep, quote)
+        data = [row[:-1] for row in rows]
         return super()._get_data_as_records(data)
 
     @classmethod
-- 
2.43.0


From 50be22cd788341724cb034ea97e10546a65240bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:35 +0000
Subject: [PATCH 83/89] fix: JSON lines given as a string were cut at line
 separators within values

---
 dataprofiler/data_readers/json_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..e7aaad8 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -249,7 +249,7 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         try:
             data = json.loads(data_as_str)
         except json.JSONDecodeError:
-            data_generator = data_utils.data_generator(data_as_str.splitlines())
+            data_generator = StringIO(data_as_str, newline=None)
             data = data_utils.read_json(
                 data_generator=data_generator,
                 selected_columns=self.selected_keys,
-- 
2.43.0


From 84be01deda3b4a545cb69931cd0d3ecbfb606660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:49 +0000
Subject: [PATCH 84/89] fix: keys of S3 objects were cut at '#' and '?'

so that another object was read, or none.
---
 dataprofiler/data_readers/data_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 2c51b08..2c58678 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -1141,10 +1141,8 @@ class S3Helper:
             BytesIO: A BytesIO object containing the content of
                 the downloaded S3 object.
         """
-        # Parse the S3 URI
-        parsed_uri = urllib.parse.urlsplit(s3_uri)
-        bucket_name = parsed_uri.netloc
-        file_key = parsed_uri.path.lstrip("/")
+        # Parse the S3 URI, any character may be part of the key
+        bucket_name, _, file_key = s3_uri.strip().split("://", 1)[1].partition("/")
         # Download the S3 object
         response = s3_client.get_object(Bucket=bucket_name, Key=file_key)
 
-- 
2.43.0


From 499ae433770516df2eb0e37981e71d8ea957707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:49 +0000
Subject: [PATCH 85/89] fix: column names of a graph file were not found beyond
 row 256

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index a4bdc68..aa9349d 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -130,7 +130,7 @@ class GraphData(BaseData):
             # fetch only column names
             row_count = 0
             for row in csv_reader:
-                if row_count is header:
+                if row_count == header:
                     column_names = row
                     break
                 row_count += 1
-- 
2.43.0


From 0a4180b0205d1d049bdc157d2264b391a25bb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:52 +0000
Subject: [PATCH 86/89] fix: the quote character of a graph file was ignored

---
 dataprofiler/data_readers/graph_data.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index aa9349d..5b634a6 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -116,6 +116,7 @@ class GraphData(BaseData):
         header: Optional[int],
         delimiter: Optional[str],
         encoding: str = "utf-8",
+        quotechar: Optional[str] = None,
     ) -> List[str]:
         """Fetch a list of column names from the csv file."""
         column_names: List[str] = []
@@ -125,7 +126,9 @@ class GraphData(BaseData):
             return column_names
 
         with FileOrBufferHandler(file_path, encoding=encoding) as csv_file:
-            csv_reader = csv.reader(csv_file, delimiter=delimiter)
+            csv_reader = csv.reader(
+                csv_file, delimiter=delimiter, quotechar=quotechar or '"'
+            )
 
             # fetch only column names
             row_count = 0
@@ -158,7 +161,7 @@ class GraphData(BaseData):
         delimiter: str = options.get("delimiter", ",")
         encoding: str = options.get("encoding", "utf-8")
         column_names: List[str] = cls.csv_column_names(
-            file_path, header, delimiter, encoding
+            file_path, header, delimiter, encoding, options.get("quotechar")
         )
         source_keywords: List[str] = options.get(
             "source_keywords", ["source", "src", "origin"]
@@ -240,7 +243,11 @@ class GraphData(BaseData):
             and self.file_encoding is not None
         ):
             self._column_names = self.csv_column_names(
-                self.input_file_path, self._header, self._delimiter, self.file_encoding
+                self.input_file_path,
+                self._header,
+                self._delimiter,
+                self.file_encoding,
+                self._quotechar,
             )
         if self._source_node is None and self._column_names is not None:
             self._source_node = self._find_target_string_in_column(
@@ -258,6 +265,7 @@ class GraphData(BaseData):
             selected_columns=[],
             read_in_string=True,
             encoding=self.file_encoding,
+            quotechar=self._quotechar,
         )
         data_as_pd = data_as_pd.apply(lambda x: x.str.strip())
         csv_as_list = data_as_pd.values.tolist()
-- 
2.43.0


From 623d609bd817071da2c44cd23d67cebb1d7d88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 87/89] fix: empty cells counted as null when no null values
 are set

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6c6b0e5..0d577e2 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -627,7 +627,8 @@ class StructuredColProfiler:
             f"(?i:{key})" if flag & re.IGNORECASE else key
             for key, flag in null_values.items()
         )
-        regex = f"^(?:{(query)})$"
+        # without null values, no cell is null (not even an empty one)
+        regex = f"^(?:{(query)})$" if null_values else "(?!)"
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
 
-- 
2.43.0


From 1518506a1d8e29be2238930a0aaa589868c6c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 88/89] fix: a cell with a line break after a null value
 counted as that null value

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0d577e2..1e6dad7 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -628,7 +628,7 @@ class StructuredColProfiler:
             for key, flag in null_values.items()
         )
         # without null values, no cell is null (not even an empty one)
-        regex = f"^(?:{(query)})$" if null_values else "(?!)"
+        regex = f"^(?:{(query)})\\Z" if null_values else "(?!)"
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
 
-- 
2.43.0


From e0b950a46b649ff68ebcbb6ae78a53b5f98d7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:12 +0000
Subject: [PATCH 89/89] fix: rows with repeated index labels counted as one
 null row

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1e6dad7..04cc8ad 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2839,6 +2839,10 @@ class StructuredProfiler(BaseProfiler):
         elif isinstance(data, list):
             data = pd.DataFrame(data, dtype=object)
 
+        # Rows are told apart by their label, number them if labels repeat
+        if not data.index.is_unique:
+            data = data.reset_index(drop=True)
+
         # Calculate schema of incoming data
         mapping_given = defaultdict(list)
         for col_idx in range(len(data.columns)):
-- 
2.43.0


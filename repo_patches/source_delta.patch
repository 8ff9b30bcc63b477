From 7f75b6a85a093a1dcecf4603f7a14d3102abff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 001/102] fix: loading a bounded section from an HDFDataStore
 raised ValueError on Python >= 3.12

---
 nilmtk/datastore/hdfdatastore.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..7dab940 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,10 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    # one expression, not a list of terms: on Python >= 3.12
+                    # Pandas resolves names in lists in the wrong stack frame
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +295,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(
+                key, ' & '.join(terms) if terms else None)
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From 47980bacdb1f9f31244f5f24920dbf8b06be789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 002/102] fix: np.NaN no longer exists in NumPy 2; use np.nan

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From c78d5865e4a615e94a537aefc29756e33223751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 003/102] fix: TimeFrame.intersection of frames with the same
 end included the end although one of them excludes it

---
 nilmtk/timeframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..62ecf13 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -162,7 +162,9 @@ class TimeFrame(object):
                 end = min(self.end, other.end)
 
             # set include_end
-            if end == other.end:
+            if end == other.end and end == self.end:
+                include_end = self.include_end and other.include_end
+            elif end == other.end:
                 include_end = other.include_end
             elif end == self.end:
                 include_end = self.include_end
-- 
2.43.0


From c7a9e5a2dc6e5eec0b45d34219b41a3663d9e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 004/102] fix: comparing two TimeFrames without a start raised
 TypeError

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 62ecf13..f66094b 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -232,7 +232,7 @@ class TimeFrame(object):
     def __lt__(self, other):
         if self.start is None and other.start is not None:
             return True
-        if other.start is None and self.start is not None:
+        if other.start is None:
             return False
         return self.start < other.start
 
-- 
2.43.0


From 5e57afd5ced45a9ec8b1e1b53e00a7c1ae03792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 005/102] fix: TimeFrame.slice failed for empty and open-ended
 TimeFrames

---
 nilmtk/timeframe.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index f66094b..b58e282 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -204,13 +204,19 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame.iloc[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None:
+                if self.include_end:
+                    sliced = sliced[sliced.index <= self.end]
+                else:
+                    sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame.copy()
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From dfb90e045f144ecb8b4ac2af0151889f3b397049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 006/102] fix: HDFDataStore.load raised ValueError after the
 last chunk of a table of n * chunksize + 1 rows

---
 nilmtk/datastore/hdfdatastore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 7dab940..0908d55 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,9 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                # index of the last row, as for sections below
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i < 1:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From 0a232bfe7a36996ab3829d3e70397e7d71d9c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 007/102] fix: HDFDataStore.load dropped the row of sections
 which contain a single row

---
 nilmtk/datastore/hdfdatastore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 0908d55..508ffc2 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -103,8 +103,10 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
-            n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
+            # A section may consist of a single row
+            slice_end_i = max(section_end_i, section_start_i + 1)
+            slice_starts = range(section_start_i, slice_end_i, chunksize)
+            n_chunks = int(np.ceil((slice_end_i - section_start_i) / chunksize))
 
             if n_chunks > 1:
                 self.all_sections_smaller_than_chunksize = False
@@ -343,5 +345,8 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
         start = index[0]
     if end is None:
         end = index[-1]
+    if start == end:
+        # A single row in an open-ended section
+        return window_intersect
 
     return TimeFrame(start, end)
-- 
2.43.0


From 67a888e0d2bed7864b99b7f166d7fe3c001d3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 008/102] fix: CSVDataStore.elements_below_key raised NameError
 below the root, so CSV datasets could not be converted

---
 nilmtk/datastore/csvdatastore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..a7c3f63 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -194,11 +194,12 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    # tables are files called '<name>.csv'
+                    elements += [re.sub(r'\.csv$', '', element)]
 
         return elements
 
-- 
2.43.0


From 351dde7623734318d6f8fdb5a08c023b95800da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 009/102] fix: CSVDataStore.append wrote the header again in
 the middle of the data

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index a7c3f63..2c43873 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -113,7 +113,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From d55ab6c9c088784852f80beb0d9143d0a4f9f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 010/102] fix: CSVDataStore.load raised ValueError for chunks
 of a single row

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 2c43873..fc706a7 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -85,7 +85,11 @@ class CSVDataStore(DataStore):
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    timeframe_end = subchunk.index[-1]
+                    if len(subchunk) == 1:
+                        # A TimeFrame cannot start and end at the same time
+                        timeframe_end += pd.Timedelta(1, unit='ns')
+                    subchunk.timeframe = TimeFrame(subchunk.index[0], timeframe_end)
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-- 
2.43.0


From 60d220265449d43d8f9ba4d7ec5c96645dd95096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 011/102] fix: CSVDataStore.load ignored TimeFrame.include_end

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index fc706a7..4c8a2f8 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -78,7 +78,11 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
+                    if window_intersect.include_end:
+                        before_end = chunk.index<=window_intersect.end
+                    else:
+                        before_end = chunk.index<window_intersect.end
+                    subchunk_idx = np.logical_and(subchunk_idx, before_end)
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
                 subchunk = chunk[subchunk_idx]
-- 
2.43.0


From 95cfeab70b6e9c56c511af615e3222b5ac154386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 012/102] fix: CSVDataStore.load did not give back empty column
 names, e.g. ('voltage', '')

---
 nilmtk/datastore/csvdatastore.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4c8a2f8..995ce92 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -18,6 +18,14 @@ from nilmtk.datastore.key import Key
 from nilmtk.datastore.datastore import write_yaml_to_file, join_key
 from nilmtk.docinherit import doc_inherit
 
+def _restore_empty_column_names(df):
+    """Pandas calls empty cells in the header of a CSV file 'Unnamed: <column>_level_<row>'."""
+    df.columns = pd.MultiIndex.from_tuples(
+        [tuple(re.sub(r'^Unnamed: \d+_level_\d+$', '', name) for name in column)
+         for column in df.columns], names=df.columns.names)
+    return df
+
+
 class CSVDataStore(DataStore):
 
     @doc_inherit
@@ -69,6 +77,8 @@ class CSVDataStore(DataStore):
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
                 
+                chunk = _restore_empty_column_names(chunk)
+
                 # filter dataframe by specified columns
                 if columns:
                     chunk = chunk[columns]
-- 
2.43.0


From 2292ea1b8d4530a268bcb22e08010e7d072e7cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 013/102] fix: CSVDataStore.load returned look_ahead without
 column names and, for files without a line for the name of the index, one row
 too late

---
 nilmtk/datastore/csvdatastore.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 995ce92..c17c753 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -107,16 +107,16 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
-                            try:
-                                subchunk.look_ahead = pd.read_csv(file_path, 
-                                                index_col=0, 
-                                                header=None, 
-                                                parse_dates=True,
-                                                skiprows=rows_to_skip,
-                                                nrows=n_look_ahead_rows)
-                            except ValueError:
-                                subchunk.look_ahead = pd.DataFrame()
+                            rows_to_skip = (chunk_idx*chunksize)+subchunk_end+1
+                            look_ahead = pd.read_csv(file_path, 
+                                            index_col=0, 
+                                            header=header_rows, 
+                                            parse_dates=True,
+                                            nrows=rows_to_skip+n_look_ahead_rows)
+                            look_ahead = _restore_empty_column_names(look_ahead)
+                            if columns:
+                                look_ahead = look_ahead[columns]
+                            subchunk.look_ahead = look_ahead.iloc[rows_to_skip:]
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
-- 
2.43.0


From 6e8064844845b09b096f3b33bf8725ae2cdd2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 014/102] fix: CSVDataStore[key] returned the header and the
 index as data

---
 nilmtk/datastore/csvdatastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index c17c753..4b92951 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -47,7 +47,8 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return _restore_empty_column_names(
+                pd.read_csv(file_path, index_col=0, header=[0,1], parse_dates=True))
         else:
             raise KeyError('{} not found'.format(key))
 
-- 
2.43.0


From 81666eae2b85932b847d9b351b1f5d85ae7989fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 015/102] fix: CSVDataStore.load did not raise KeyError for
 unknown keys nor return an empty DataFrame for sections without data

---
 nilmtk/datastore/csvdatastore.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4b92951..4ab9e5c 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -57,6 +57,8 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
+        if not isfile(file_path):
+            raise KeyError('{} not found'.format(key))
         
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
@@ -68,6 +70,7 @@ class CSVDataStore(DataStore):
         # requires 1 pass through file for each section
         for section in sections:
             window_intersect = self.window.intersection(section)
+            section_has_data = False
             header_rows = [0,1]
             text_file_reader = pd.read_csv(file_path, 
                                             index_col=0, 
@@ -121,8 +124,14 @@ class CSVDataStore(DataStore):
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
+                    section_has_data = True
                     yield subchunk
 
+            if not section_has_data:
+                data = pd.DataFrame()
+                data.timeframe = section if window_intersect.empty else window_intersect
+                yield data
+
     @doc_inherit
     def append(self, key, value):
 
-- 
2.43.0


From c141d206143b7ed4516ffae9f35b3f5d62a02d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 016/102] fix: HDFDataStore.save_metadata raised AttributeError
 for groups without data, so no dataset could be converted to HDF

---
 nilmtk/datastore/hdfdatastore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 508ffc2..77b23fb 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -198,6 +198,11 @@ class HDFDataStore(DataStore):
             node = self.store.root
         else:
             node = self.store.get_node(key)
+            if node is None:
+                # e.g. a building without any data yet
+                parent, _, name = key.strip('/').rpartition('/')
+                node = self.store._handle.create_group(
+                    '/' + parent, name, createparents=True)
 
         node._v_attrs.metadata = metadata
         self.store.flush()
-- 
2.43.0


From 0fc5fec57c0e4bac298721635e18d6f3895f5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 017/102] fix: CSVDataStore could not read tables appended in
 pieces with and without fractions of a second

---
 nilmtk/datastore/csvdatastore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4ab9e5c..32657d5 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -48,7 +48,7 @@ class CSVDataStore(DataStore):
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
             return _restore_empty_column_names(
-                pd.read_csv(file_path, index_col=0, header=[0,1], parse_dates=True))
+                pd.read_csv(file_path, index_col=0, header=[0,1], parse_dates=True, date_format='mixed'))
         else:
             raise KeyError('{} not found'.format(key))
 
@@ -76,6 +76,7 @@ class CSVDataStore(DataStore):
                                             index_col=0, 
                                             header=header_rows, 
                                             parse_dates=True,
+                                            date_format='mixed',
                                             chunksize=chunksize)
                                             
             # iterate through all chunks in file
@@ -116,6 +117,7 @@ class CSVDataStore(DataStore):
                                             index_col=0, 
                                             header=header_rows, 
                                             parse_dates=True,
+                                            date_format='mixed',
                                             nrows=rows_to_skip+n_look_ahead_rows)
                             look_ahead = _restore_empty_column_names(look_ahead)
                             if columns:
@@ -249,6 +251,7 @@ class CSVDataStore(DataStore):
                                         index_col=0, 
                                         header=[0,1], 
                                         parse_dates=True,
+                                        date_format='mixed',
                                         chunksize=MAX_MEM_ALLOWANCE_IN_BYTES)
         start = None
         end = None
-- 
2.43.0


From e7b19470cf50fcafb612b48f308e2ad0a40c3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 018/102] fix: CSVDataStore lost the first row of tables whose
 first row has no values

---
 nilmtk/datastore/csvdatastore.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 32657d5..11d14ef 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -18,11 +18,18 @@ from nilmtk.datastore.key import Key
 from nilmtk.datastore.datastore import write_yaml_to_file, join_key
 from nilmtk.docinherit import doc_inherit
 
+# Without a label for the index, Pandas takes a first row without any
+# values for the line which names the index.
+INDEX_LABEL = 'index'
+
+
 def _restore_empty_column_names(df):
     """Pandas calls empty cells in the header of a CSV file 'Unnamed: <column>_level_<row>'."""
     df.columns = pd.MultiIndex.from_tuples(
         [tuple(re.sub(r'^Unnamed: \d+_level_\d+$', '', name) for name in column)
          for column in df.columns], names=df.columns.names)
+    if df.index.name == INDEX_LABEL:
+        df.index.name = None
     return df
 
 
@@ -143,7 +150,8 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=not isfile(file_path))
+                     header=not isfile(file_path),
+                     index_label=value.index.name or INDEX_LABEL)
 
     @doc_inherit
     def put(self, key, value):
@@ -154,7 +162,8 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='w',
-                     header=True)
+                     header=True,
+                     index_label=value.index.name or INDEX_LABEL)
 
     @doc_inherit
     def remove(self, key):
-- 
2.43.0


From 15b7d15a8408d82955a8e4d06e1e3a5ce9cdec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:37 +0000
Subject: [PATCH 019/102] fix: load_series raised ValueError for physical
 quantities without AC types, e.g. voltage

---
 nilmtk/electric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..63d6257 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -627,8 +627,10 @@ class Electric(object):
             if chunk.empty:
                 yield chunk
                 continue
-            chunk_to_yield = chunk[physical_quantity].sum(axis=1, skipna=False)
-            ac_types = '+'.join(chunk[physical_quantity].columns)
+            # `[[...]]` because `chunk['voltage']` is a Series: it has no AC type
+            selected = chunk[[physical_quantity]]
+            chunk_to_yield = selected.sum(axis=1, skipna=False)
+            ac_types = '+'.join(selected.columns.get_level_values(-1))
             chunk_to_yield.name = (physical_quantity, ac_types)
             chunk_to_yield.timeframe = getattr(chunk, 'timeframe', None)
             chunk_to_yield.look_ahead = getattr(chunk, 'look_ahead', None)
-- 
2.43.0


From d781bc5ff46d42071c09bc6ce8fb3e6b1ff280d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 020/102] fix: Clip did not clip measurements which have only
 one limit

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..79a830d 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -28,7 +28,7 @@ class Clip(Node):
                 lower, upper = _find_limits(measurement, measurements)
                 lower = lower if self.lower is None else self.lower
                 upper = upper if self.upper is None else self.upper
-                if lower is not None and upper is not None:
+                if lower is not None or upper is not None:
                     # We use `chunk.iloc[:,icol]` instead of iterating
                     # through each column so we can to the clipping in place
                     icol = index_of_column_name(chunk, measurement)
-- 
2.43.0


From 8009e55ce28abf9ac39a779b291511b965bf4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 021/102] fix: Clip ignored the limits of measurements without
 an AC type, e.g. voltage

---
 nilmtk/preprocessing/clip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index 79a830d..06c7856 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,8 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        # columns for measurements without an AC type have '' as their type
+        if ((m.get('physical_quantity'), m.get('type') or '') == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From 2c1717b6b6f311cf21366813bc122a2074cf29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:37 +0000
Subject: [PATCH 022/102] fix: TotalEnergy counted energy measurements twice
 where two chunks share a row

---
 nilmtk/stats/totalenergy.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..c25b382 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,8 +22,13 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        previous_end = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # Consecutive chunks of one section share a row
+            shares_row = len(chunk) > 0 and chunk.index[0] == previous_end
+            energy = get_total_energy(chunk, max_sample_period, shares_row)
+            if len(chunk) > 0:
+                previous_end = chunk.index[-1]
             self.results.append(chunk.timeframe, energy)
             yield chunk
 
@@ -36,13 +41,15 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, ignore_energy_of_first_row=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    ignore_energy_of_first_row : bool
+        True if the energy of the first row has already been counted.
 
     Returns
     -------
@@ -72,6 +79,8 @@ def get_total_energy(df, max_sample_period):
         elif physical_quantity == 'cumulative energy':
             energy[ac_type] = series.iloc[-1] - series.iloc[0]
         elif physical_quantity == 'energy':
+            if ignore_energy_of_first_row:
+                series = series.iloc[1:]
             energy[ac_type] = series.sum()
 
     return energy
-- 
2.43.0


From 5a7fa309d89108499556a2429161118c185629e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:40 +0000
Subject: [PATCH 023/102] fix: GoodSectionsResults.combined modified the
 results, so a second call raised or gave other sections

---
 nilmtk/stats/goodsectionsresults.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..6464459 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,4 +1,5 @@
 import pandas as pd
+from copy import deepcopy
 from datetime import timedelta
 import matplotlib.pyplot as plt
 from ..results import Results
@@ -46,7 +47,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # copy because we modify the list and its TimeFrames below
+            row_sections = deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
@@ -57,7 +59,8 @@ class GoodSectionsResults(Results):
                     <= index <=
                     end_date_of_prev_row)
 
-                if rows_are_adjacent and row_sections[0].start is None:
+                if (rows_are_adjacent and row_sections
+                        and row_sections[0].start is None):
                     assert sections[-1].end is None
                     sections[-1].end = row_sections[0].end
                     row_sections.pop(0)
-- 
2.43.0


From 91fadd697124dbae0ee023d09b15be9666072462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:33 +0000
Subject: [PATCH 024/102] fix: GoodSections continued an open good section in a
 later section which does not adjoin it

---
 nilmtk/stats/goodsections.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..b88b36c 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -14,6 +14,7 @@ class GoodSections(Node):
     Attributes
     ----------
     previous_chunk_ended_with_open_ended_good_section : bool
+    end_of_previous_chunk : pd.Timestamp or None
     """
 
     requirements = {'device': {'max_sample_period': 'ANY VALUE'}}
@@ -22,6 +23,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,16 +63,22 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # A good section cannot continue in a chunk which does not start
+        # where the previous chunk ended
+        if timeframe.start != self.end_of_previous_chunk:
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
             self.previous_chunk_ended_with_open_ended_good_section)
 
         # Set self.previous_chunk_ended_with_open_ended_good_section
-        if good_sections:
-            self.previous_chunk_ended_with_open_ended_good_section = (
-                good_sections[-1].end is None)
+        self.previous_chunk_ended_with_open_ended_good_section = (
+            bool(good_sections) and good_sections[-1].end is None)
 
+        if good_sections:
             # Update self.results
             self.results.append(timeframe, {'sections': [good_sections]})
 
-- 
2.43.0


From 15338dcc97758ab1a49604a3fb333442e4629c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:09 +0000
Subject: [PATCH 025/102] fix: good_sections raised IndexError when no row of
 the look-ahead is complete

---
 nilmtk/stats/goodsections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index b88b36c..83a4f5c 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -134,9 +134,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 914c03ea595fce311c9a51e264ee178234bccbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 026/102] fix: ElecMeter.dropout_rate(full_results=True) raised
 TypeError unless ignore_gaps=False

---
 nilmtk/elecmeter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..7fbd269 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -610,7 +610,8 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            loader_kwargs['sections'] = self.good_sections(
+                **{**loader_kwargs, 'full_results': False})
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
-- 
2.43.0


From 21ff0757ae88590f2ad99cd77855552d1b64b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 027/102] fix: statistics of a meter were taken from the cache
 of a meter with the same number in another dataset

---
 nilmtk/datastore/datastore.py |  4 ++++
 nilmtk/elecmeter.py           | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..d5e9d5c 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -1,3 +1,4 @@
+import uuid
 import yaml
 from nilmtk.timeframe import TimeFrame
 from io import open
@@ -29,6 +30,8 @@ class DataStore(object):
     ----------
     window : nilmtk.TimeFrame
         Defines the timeframe we are interested in.
+    identifier : string
+        Unique to this object.
     """
     def __init__(self):
         """
@@ -37,6 +40,7 @@ class DataStore(object):
         filename : string
         """
         self.window = TimeFrame()
+        self.identifier = uuid.uuid4().hex
 
     def __getitem__(self, key):
         """Loads all of a DataFrame from disk.
diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 7fbd269..5438e63 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -639,8 +639,8 @@ class ElecMeter(Hashable, Electric):
         cache.
 
         Cached statistics lives in the DataStore at
-        'building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'building1/elec/cache/meter1/total_energy'.  We store the
+        'store<J>/building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
+        'store0a1b/building1/elec/cache/meter1/total_energy'.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
         DataFrame. Some times we need to do some conversion to store
         `Results._data` on disk.  The logic for doing this conversion lives
@@ -790,8 +790,10 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        # All stores share one cache
+        return ("store{}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(getattr(self.store, 'identifier', ''), self.building(),
+                        meter_str, stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 547740d6329adaedca95c805765150fef68bf98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 028/102] fix: statistics of all columns of a meter were taken
 from the cache of statistics of some of its columns

---
 nilmtk/elecmeter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 5438e63..c834a41 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -683,7 +683,11 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
+        # (statistics of some of the columns differ from those of all columns)
+        key_for_cached_stat = self.key_for_cached_stat('_'.join(
+            [results_obj.name] +
+            ['{}_{}'.format(*column).replace(' ', '_')
+             for column in sorted(columns)]))
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
-- 
2.43.0


From 814060ed263480f8d5080b60c98038cfa83cdf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:04 +0000
Subject: [PATCH 029/102] fix: cached statistics of a section were used
 whatever the window, and vice versa

---
 nilmtk/elecmeter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index c834a41..12affeb 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -680,6 +680,8 @@ class ElecMeter(Hashable, Electric):
             tf.include_end = True
             sections = [tf]
         sections = TimeFrameGroup(sections)
+        # We only load (and cache) what is within the window
+        sections = [self.store.window.intersection(s) for s in sections]
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-- 
2.43.0


From ad2863744f91a43dc58db647372a2aee4a154082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:09 +0000
Subject: [PATCH 030/102] fix: Results.unify raised KeyError instead of
 refusing results which lack a section

---
 nilmtk/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..a0295ea 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -122,8 +122,8 @@ class Results(object):
         """
         assert isinstance(other, self.__class__)
         for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
+            if (i not in other._data.index or
+                other._data['end'].loc[i] != row['end']):
                 raise RuntimeError("The sections we are trying to merge"
                                    " do not have the same end times so we"
                                    " cannot merge them.")
-- 
2.43.0


From 700262f2adb88f8eed649069df0b5d35914b79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:10 +0000
Subject: [PATCH 031/102] fix: activity_histogram raised TypeError:
 pd.date_range has no parameter 'closed' any more

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 63d6257..5850372 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -698,7 +698,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From 87137d67a8819df2b805fbd4c9090bfaf0ec2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:42 +0000
Subject: [PATCH 032/102] fix: entropy and mutual_information raised TypeError
 on Python 3

---
 nilmtk/electric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 5850372..fd26416 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -515,7 +515,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean([log(distance) for distance in nn]))/log(base)
 
         out = []
         for power in self.power_series():
@@ -524,7 +524,7 @@ class Electric(object):
             x = x.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
 
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 y = np.array_split(x, splits)
                 for z in y:            
                     out.append(kdtree_entropy(z))                    
@@ -580,7 +580,7 @@ class Electric(object):
             power_x_val = power_x_val.reshape((num_elements, 1))
             power_y_val = power_y_val.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 x_split = np.array_split(power_x_val, splits)
                 y_split = np.array_split(power_y_val, splits)
                 for x, y  in zip(x_split, y_split):
-- 
2.43.0


From 1b8ee6be4cb0f2950836fe88bcd29158fae20bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:52 +0000
Subject: [PATCH 033/102] fix: good_sections raised ValueError when a good
 section starts with the last sample of a section

---
 nilmtk/stats/goodsectionsresults.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 6464459..1c4c919 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -70,8 +70,9 @@ class GoodSectionsResults(Results):
                     if sections and sections[-1].end is None:
                         try:
                             sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
+                        except ValueError:
+                            # only the last sample of the row
+                            sections.pop()
                     if row_sections and row_sections[0].start is None:
                         try:
                             row_sections[0].start = index
@@ -81,10 +82,14 @@ class GoodSectionsResults(Results):
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        if sections and sections[-1].end is None:
+            try:
+                sections[-1].end = end_date_of_prev_row
+            except ValueError:
+                # only the last sample of the row
+                sections.pop()
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
-- 
2.43.0


From 4bfd117d44b00885492ff071454f4f2dbf07dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:46 +0000
Subject: [PATCH 034/102] fix: groupby and values_for_appliance_metadata_key
 raised AttributeError for meters without appliances

---
 nilmtk/metergroup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..32f6fc7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -515,6 +515,8 @@ class MeterGroup(Electric):
             appliances = self.appliances
 
         for appliance in appliances:
+            if appliance is None: # a meter without appliances
+                continue
             value = appliance.metadata.get(key)
             append_or_extend_list(values, value)
             value = appliance.type.get(key)
-- 
2.43.0


From 651433aaab5623cb3603ed998d06fa1a7ca792de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 035/102] fix: MeterGroup.select selected a meter once per
 matching value of a list, so its energy counted several times

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 32f6fc7..1d30261 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -365,7 +365,9 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        # several values of a list can match the same meter
+                        if meter not in selected_meters:
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From b2545bc69579ff3e6ff739a7423ead6b81e64798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 036/102] fix: equal MeterGroups with their meters in another
 order had different hashes

---
 nilmtk/metergroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1d30261..36951b0 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
+        Provide a hash based on the MeterGroup's meters, in any order:
+        equal MeterGroups (see `__eq__`) must have equal hashes.
         """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From f5a10f4983286e9f54d224792e9f606385bc0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:35 +0000
Subject: [PATCH 037/102] fix: MeterGroup.load raised AttributeError for UTC
 data and AmbiguousTimeError for sections bounded in the hour after daylight
 saving ends

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 36951b0..175ac56 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -718,10 +718,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From b0f883db2b4ec1f0375e01cbed3618f0a943fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:13 +0000
Subject: [PATCH 038/102] fix: MeterGroup.load raised ValueError for quantities
 to average, e.g. voltage, and counted missing values in the mean

---
 nilmtk/metergroup.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 175ac56..448e70f 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1778,9 +1778,8 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
     # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
-    # which tells us what to divide by in order to compute the 
-    # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
+    # `n_values` array which tells us what to divide by in order to
+    # compute the mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
     # Regarding doing an in-place addition:
     # We convert out cumulator dataframe to a numpy matrix.
@@ -1791,7 +1790,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    n_values = np.zeros(cumulator_arr.shape, dtype=np.uint16)
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1830,34 +1829,22 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            n_values[:,i] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
-    del cumulator_arr
-    gc.collect()
-
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    # (we do not add up columns like 'voltage' which should be averaged)
+    for i, column_name in enumerate(columns):
+        if column_name[0] in PHYSICAL_QUANTITIES_TO_AVERAGE:
+            cumulator_arr[:,i] /= n_values[:,i]
 
-    del columns_to_average_counter
+    del cumulator_arr
+    del n_values
     gc.collect()
     print()
     print("Done loading data all meters for this chunk.")
-- 
2.43.0


From c9f4d990b7d5161467821753d089e69977f07b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 039/102] fix: TimeFrame defined __nonzero__, which Python 3
 ignores, so empty sections were not skipped

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index b58e282..fab8b24 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -220,7 +220,7 @@ class TimeFrame(object):
         sliced.timeframe = self
         return sliced
 
-    def __nonzero__(self):
+    def __bool__(self):
         if self.empty:
             return False
         else:
-- 
2.43.0


From 07cde7339257365afafbce0f40906f1fb2814796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 040/102] fix: MeterGroup.get_timeframe raised TypeError when
 the first meter has no data in the window

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 448e70f..440d604 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1383,7 +1383,7 @@ class MeterGroup(Electric):
         """
         timeframe = None
         for meter in self.meters:
-            if timeframe is None:
+            if timeframe is None or timeframe.empty:
                 timeframe = meter.get_timeframe()
             elif meter.get_timeframe().empty:
                 pass
-- 
2.43.0


From 09408a518d3eb5e7b724a8cc405d36bc7e27a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:50 +0000
Subject: [PATCH 041/102] fix: energy of a group was NaN for AC types which not
 all its meters record, and its full results KeyError

---
 nilmtk/metergroup.py               |  3 ++-
 nilmtk/stats/totalenergyresults.py | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 440d604..1176ad6 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -871,7 +871,8 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
diff --git a/nilmtk/stats/totalenergyresults.py b/nilmtk/stats/totalenergyresults.py
index 89e2b2d..fb9dd4b 100644
--- a/nilmtk/stats/totalenergyresults.py
+++ b/nilmtk/stats/totalenergyresults.py
@@ -27,10 +27,13 @@ class TotalEnergyResults(Results):
 
     def unify(self, other):
         super(TotalEnergyResults, self).unify(other)
-        ac_types = set(self._data.columns) - set(['end'])
-        for i, row in self._data.iterrows():
-            for ac_type in ac_types:
-                self._data[ac_type].loc[i] += other._data[ac_type].loc[i]
+        ac_types = set(other._data.columns) - set(['end'])
+        for ac_type in ac_types:
+            if ac_type in self._data:
+                self._data[ac_type] = self._data[ac_type].add(
+                    other._data[ac_type], fill_value=0)
+            else:
+                self._data[ac_type] = other._data[ac_type]
 
     def to_dict(self):
         return {'total_energy': self.combined().to_dict()}
-- 
2.43.0


From c175fd973c00eda811f425c23cf26b88f3293cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:50 +0000
Subject: [PATCH 042/102] fix: full results of a group with nested groups
 raised AttributeError: MeterGroup has no store

---
 nilmtk/metergroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1176ad6..d04804d 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -883,6 +883,7 @@ class MeterGroup(Electric):
                                                **load_kwargs)
             collected_stats.append(single_stat)
             if (full_results and len(self.meters) > 1 and
+                    not isinstance(meter, MeterGroup) and
                     not meter.store.all_sections_smaller_than_chunksize):
                 warnings.warn("at least one section requested from '{}' required"
                      " multiple chunks to be loaded into memory. This may cause"
-- 
2.43.0


From ee4488e34c11a695973eac8eb2a8596de3dfc019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 043/102] fix: energy_per_meter with mains raised
 AttributeError (Series.sort), and ignored the AC types of the meters

---
 nilmtk/metergroup.py | 5 +++--
 nilmtk/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d04804d..abd123b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1183,7 +1183,8 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        ac_types = [ac_type for ac_type, energies in energy_per_meter.iterrows()
+                    for energy in energies.dropna()]
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
@@ -1594,7 +1595,7 @@ class MeterGroup(Electric):
         energy = self.energy_per_meter(mains=mains, per_period='D',
                                         use_meter_labels=True)
 
-        energy.sort(ascending=False)
+        energy = energy.sort_values(ascending=False)
 
         # Plot
         ax = pd.DataFrame(energy).T.plot(kind='bar', stacked=True, grid=True,
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..e899771 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts = counts.sort_values()
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From 09ea6b82f2fe0a88d3094c9fcedf25d3f1af850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 044/102] fix: proportion_of_upstream_total_per_meter raised
 KeyError for groups with nested groups

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index abd123b..d77fd9e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1221,7 +1221,7 @@ class MeterGroup(Electric):
         return energy_per_meter / total_energy
 
     def proportion_of_upstream_total_per_meter(self, **load_kwargs):
-        prop_per_meter = pd.Series(index=self.identifier.meters)
+        prop_per_meter = pd.Series(index=list(self.identifier.meters))
         n_meters = len(self.meters)
         for i, meter in enumerate(self.meters):
             proportion = meter.proportion_of_upstream(**load_kwargs)
-- 
2.43.0


From c02f86723e7e583c0933db42b1d29d47ee5f17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 045/102] fix: sort_meters raised TypeError on Python 3 for
 groups with nested groups

---
 nilmtk/metergroup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d77fd9e..0fd8779 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1855,4 +1855,8 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     return cumulator
 
 
-meter_sorting_key = lambda meter: meter.instance()
+def meter_sorting_key(meter):
+    """Instances as a flat tuple: nested MeterGroups have several."""
+    if isinstance(meter, MeterGroup):
+        return sum([meter_sorting_key(m) for m in meter.meters], ())
+    return (meter.instance(),)
-- 
2.43.0


From 9a5393088809485504d6b0429526edd8d6cc4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:21 +0000
Subject: [PATCH 046/102] fix: dropout_rate raised KeyError for a meter without
 good sections

---
 nilmtk/stats/dropoutrateresults.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 4b92bfa..af1d569 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -21,6 +21,8 @@ class DropoutRateResults(Results):
         -------
         dropout_rate : float, [0,1]
         """
+        if self._data.empty:
+            return float('nan')
         tot_samples = self._data['n_samples'].sum()
         proportion = self._data['n_samples'] / tot_samples
         dropout_rate = (self._data['dropout_rate'] * proportion).sum()
-- 
2.43.0


From 228d23e7cf7af718db622a546fe4214881126d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:11 +0000
Subject: [PATCH 047/102] fix: upstream_meter returned the meter of whichever
 dataset of that name was opened first, with its window and maybe closed

---
 nilmtk/elecmeter.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 12affeb..642da64 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -59,8 +59,16 @@ class ElecMeter(Hashable, Electric):
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
             assert isinstance(self.identifier, ElecMeterID)
-            if self not in nilmtk.global_meter_group.meters:
-                nilmtk.global_meter_group.meters.append(self)
+            all_meters = nilmtk.global_meter_group.meters
+            if self in all_meters:
+                # e.g. because the dataset has been opened before
+                all_meters[all_meters.index(self)] = self
+            else:
+                all_meters.append(self)
+            if self.store is not None:
+                if not hasattr(self.store, 'elec_meters'):
+                    self.store.elec_meters = {}
+                self.store.elec_meters[self.identifier] = self
 
     @property
     def key(self):
@@ -129,7 +137,13 @@ class ElecMeter(Hashable, Electric):
                                      building=self.identifier.building,
                                      dataset=self.identifier.dataset)
 
-        upstream_meter = nilmtk.global_meter_group[id_of_upstream]
+        # The dataset may be open several times (e.g. with different windows)
+        # so look for the upstream meter in the same store.
+        if self.store is None:
+            meters = nilmtk.global_meter_group
+        else:
+            meters = nilmtk.MeterGroup(list(self.store.elec_meters.values()))
+        upstream_meter = meters[id_of_upstream]
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
-- 
2.43.0


From 2aa12176c0bf263ea802de9fb130e0b72b69871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:08 +0000
Subject: [PATCH 048/102] fix: MeterGroup.from_other_metergroup always raised
 KeyError or AttributeError

---
 nilmtk/metergroup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 0fd8779..8a770bc 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -15,6 +15,7 @@ from matplotlib.ticker import FuncFormatter
 from matplotlib import MatplotlibDeprecationWarning
 
 # NILMTK imports
+import nilmtk
 from .elecmeter import ElecMeter, ElecMeterID
 from .appliance import Appliance
 from .datastore.datastore import join_key
@@ -463,8 +464,9 @@ class MeterGroup(Electric):
         other_identifiers = other.identifier.meters
         new_identifiers = []
         for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
+            new_id = replace_dataset(other_id, dataset)
+            if (isinstance(new_id, ElecMeterID) and
+                    isinstance(new_id.instance, tuple)):
                 nested = []
                 for instance in new_id.instance:
                     new_nested_id = new_id._replace(instance=instance)
@@ -472,9 +474,7 @@ class MeterGroup(Electric):
                 new_identifiers.append(tuple(nested))
             else:
                 new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        return nilmtk.global_meter_group.from_list(new_identifiers)
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From 663b7f74f71a3529441cffa20a07dfd9aedf79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:37 +0000
Subject: [PATCH 049/102] fix: dataframe_of_meters dropped everything after a
 section or chunk in which no meter has data

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 8a770bc..bdbcad9 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -973,12 +973,14 @@ class MeterGroup(Electric):
         while True:
             chunks = []
             ids = []
+            exhausted = True
             for meter_id, generator in zip(identifiers, generators):
                 try:
                     chunk_from_next_meter = next(generator)
                 except StopIteration:
                     continue
 
+                exhausted = False
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
                     chunks.append(chunk_from_next_meter.sum(axis=1))
@@ -987,7 +989,7 @@ class MeterGroup(Electric):
                 df = pd.concat(chunks, axis=1)
                 df.columns = ids
                 segments.append(df)
-            else:
+            elif exhausted:
                 break
 
         if segments:
-- 
2.43.0


From 894362c639304cd02154d8908ff66517ba8c641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:13 +0000
Subject: [PATCH 050/102] fix: metrics ignored everything after the first good
 section with fewer than two samples to compare

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index fd26416..de4b4cf 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -845,7 +845,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From 2a2cc3c907ab0bd06f83122ae425724977c8d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:13 +0000
Subject: [PATCH 051/102] fix: fraction_energy_assigned_correctly raised
 AttributeError for nested groups

---
 nilmtk/metrics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..f37b6d2 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -104,8 +104,11 @@ def fraction_energy_assigned_correctly(predictions, ground_truth):
     fraction_per_meter_predictions = predictions_submeters.fraction_per_meter()
     fraction_per_meter_ground_truth = ground_truth_submeters.fraction_per_meter()
 
-    fraction_per_meter_ground_truth.index = fraction_per_meter_ground_truth.index.map(lambda meter: meter.instance)
-    fraction_per_meter_predictions.index = fraction_per_meter_predictions.index.map(lambda meter: meter.instance)
+    # Index by instance: an int, or a tuple for MeterGroups
+    fraction_per_meter_ground_truth = dict(
+        zip(ground_truth_submeters.instance(), fraction_per_meter_ground_truth))
+    fraction_per_meter_predictions = dict(
+        zip(predictions_submeters.instance(), fraction_per_meter_predictions))
 
     fraction = 0
     for meter_instance in predictions_submeters.instance():
-- 
2.43.0


From ef4b454e876fb08db8fd07470109dfa1c4eaa876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 052/102] fix: Mean counted missing samples as measurements,
 and so predicted too little

---
 nilmtk/disaggregate/mean.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..a7318aa 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -22,7 +22,7 @@ class Mean(Disaggregator):
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
             app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['n_elem'] += int(np.count_nonzero(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
@@ -33,7 +33,9 @@ class Mean(Disaggregator):
             appliance_powers = pd.DataFrame()
             for i, app_name in enumerate(self.model):
                 app_model = self.model[app_name]
-                predicted_power = [app_model['sum'] / app_model['n_elem']] * test_df.shape[0]
+                # An appliance without a single valid sample is predicted as off
+                mean_power = app_model['sum'] / app_model['n_elem'] if app_model['n_elem'] else 0.
+                predicted_power = [mean_power] * test_df.shape[0]
                 appliance_powers[app_name] = pd.Series(predicted_power, index=test_df.index, name=i)
             test_predictions_list.append(appliance_powers)
         return test_predictions_list
-- 
2.43.0


From 5348e631c0b1f7f7a02e60cfe4299035ffa017d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 053/102] fix: FHMM could not use an appliance whose states
 have equal means (e.g. one that is always off)

---
 nilmtk/disaggregate/fhmm_exact.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..2a275ab 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,14 +128,8 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # A permutation, also when several states have the same mean
+    return dict(enumerate(np.argsort(np.ravel(means), kind='stable')))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From ec269618b26b268489a5cfab701e8ed1bea53243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 054/102] fix: FHMM prediction of an empty chunk had repeated
 or untrained appliances

---
 nilmtk/disaggregate/fhmm_exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 2a275ab..b062826 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -274,7 +274,7 @@ class FHMMExact(Disaggregator):
             
             learnt_states_array = []
             if len(test_mains) == 0:
-                tmp = pd.DataFrame(index = test_mains.index, columns = self.app_names)
+                tmp = pd.DataFrame(index = test_mains.index, columns = self.meters)
                 test_prediction_list.append(tmp)
             else:
                 length = len(test_mains.index)
-- 
2.43.0


From 16201ffe17faa5af8a789bf5337d5139a08b53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 055/102] fix: FHMM predictions lost the timestamps of the
 mains

---
 nilmtk/disaggregate/fhmm_exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index b062826..a977b8f 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -297,7 +297,8 @@ class FHMMExact(Disaggregator):
                     decoded_states_array.append(decoded_states)
                     decoded_power_array.append(decoded_power)
 
-                appliance_powers = pd.DataFrame(decoded_power_array[0], dtype='float32')
+                appliance_powers = pd.DataFrame(
+                    decoded_power_array[0], index=test_mains.index, dtype='float32')
                 test_prediction_list.append(appliance_powers)
         
         return test_prediction_list
\ No newline at end of file
-- 
2.43.0


From 4ed647bf56ba602ffeef045b6da7aa0031791e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 056/102] fix: chunk-wise training passed the epoch in the
 wrong argument (Mean raised TypeError)

---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..dd183b1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From 441a22607db9edd833a66d86388c03d35f6c7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 057/102] fix: chunk-wise artificial aggregate failed after the
 last chunk of an appliance

---
 nilmtk/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index dd183b1..82a8b49 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -140,7 +140,9 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            train_df+=app_reading
+                            # A meter which has run out of chunks has no columns to add
+                            if not app_reading.empty:
+                                train_df+=app_reading
                     train_appliances = []
 
                     for cnt,i in enumerate(appliance_readings):
@@ -182,7 +184,9 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            test_df+=app_reading
+                            # A meter which has run out of chunks has no columns to add
+                            if not app_reading.empty:
+                                test_df+=app_reading
 
                     test_appliances = []
 
-- 
2.43.0


From 65b24dd30bea83df8145671a79f2f29eb1fe4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 058/102] fix: Hart85 could not assign a learnt power (array
 put in a scalar)

---
 nilmtk/disaggregate/hart_85.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..9cc1fc6 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -518,6 +518,9 @@ class Hart85(Disaggregator):
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
+            on_power = self.centroids.loc[appliance].values
+            if ndim == 1:
+                on_power = on_power[0]
             # on = False
             i = 0
             while i < len(values) - 1:
@@ -525,10 +528,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = on_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -561,10 +564,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = on_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From 73e03d3af807fcf71228b3d565a84d774e1c766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 059/102] fix: find_steady_states raised IndexError when
 nothing exceeds the noise level

---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..2f022f3 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From f5797b57d7c6e4a7400d7deb1eaa02625aa1c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 060/102] fix: Hart85 took the state at the end of the chunk
 for the one before it

---
 nilmtk/disaggregate/hart_85.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 9cc1fc6..e9e94bb 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -309,7 +309,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
@@ -451,7 +450,6 @@ class Hart85(Disaggregator):
                     else:
                         # Turned off
                         states.loc[transient_tuple[0]][index_least_delta] = 0
-            prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
-- 
2.43.0


From cdb479adfacb8eeaa0ebea6715072a92ea6542ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 061/102] fix: Hart85.import_model could not read an exported
 model

---
 nilmtk/disaggregate/hart_85.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index e9e94bb..54ba1cf 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -584,8 +584,10 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, 'rb') as pickle_in:
+            self.model = pickle.load(pickle_in)
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
-- 
2.43.0


From b9f26d1ea3751a2698d4bc29718a7b7f65ef39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 062/102] fix: Hart85.disaggregate_chunk ignored all chunks but
 one

---
 nilmtk/disaggregate/hart_85.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 54ba1cf..938652a 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -404,7 +404,7 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -478,13 +478,13 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
- 
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
+            temp_df=temp_df.fillna(0)
+
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)
           
         
         return test_predictions_list
-- 
2.43.0


From 8e09045ade05f6141a9f0ff09b90aaa78c554865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 063/102] fix: Hart85.disaggregate_chunk failed for chunks
 without transitions or samples

---
 nilmtk/disaggregate/hart_85.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 938652a..814f4e9 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -402,7 +402,11 @@ class Hart85(Disaggregator):
         test_predictions_list = []
         
         for chunk in test_mains:
-          
+            if len(chunk) == 0:
+                test_predictions_list.append(
+                    pd.DataFrame(index=chunk.index, columns=self.appliances))
+                continue
+
             [_, transients] = find_steady_states(
             chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
@@ -454,7 +458,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
-- 
2.43.0


From 93a5b7da2f1f544d0ced4a6982432dc3df7660db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 064/102] fix: converters writing CSV failed, CSVDataStore.open
 took no mode

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 11d14ef..4cca564 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -248,7 +248,7 @@ class CSVDataStore(DataStore):
         pass
 
     @doc_inherit
-    def open(self):
+    def open(self, mode='a'):
         # not needed for CSV data store
         pass
         
-- 
2.43.0


From e85a44e79bfae8cbd8f5a6f4c73a9a1d904a1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 065/102] fix: converters dropped the timestamp column with a
 positional axis

---
 nilmtk/dataset_converters/ampds/convert_ampds.py | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py   | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..1820edc 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..01d75c2 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..b187d54 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 7b9ad086bb50faad62d5ee3498c3e7d292a0d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 066/102] fix: convert_combed failed dropping timestamps and
 left its store open

---
 nilmtk/dataset_converters/combed/convert_combed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..66e2e4c 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop(columns="timestamp")
                         dfs.append(df)
                     else:
                         exists = False
@@ -83,6 +83,8 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                     store.put(str(key), total)
                     any_file_converted = True
                     
+    store.close()
+
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
-- 
2.43.0


From 9728e1a56aef98e7be9fc8c73674e2089aacbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 067/102] fix: convert_hipe found its metadata only from its
 own directory

---
 nilmtk/dataset_converters/hipe/convert_hipe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hipe/convert_hipe.py b/nilmtk/dataset_converters/hipe/convert_hipe.py
index 541bf35..dc5dbe6 100644
--- a/nilmtk/dataset_converters/hipe/convert_hipe.py
+++ b/nilmtk/dataset_converters/hipe/convert_hipe.py
@@ -35,7 +35,8 @@ def convert_hipe(hipe_path, output_filename, format="HDF"):
     _convert(hipe_path, datastore,
              _hipe_measurement_mapping_func, "Europe/Berlin")
 
-    metadata_path = "metadata"
+    metadata_path = join(get_module_directory(),
+                         "dataset_converters", "hipe", "metadata")
 
     save_yaml_to_datastore(metadata_path, datastore)
 
-- 
2.43.0


From 6a95045c89bceeac2eae3b5de64f8d2c5a6b7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 068/102] fix: convert_greend used a removed read_csv option
 and depended on the directory order

---
 nilmtk/dataset_converters/greend/convert_greend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..91970ae 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,10 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
+            on_bad_lines = 'warn' if (
                 ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
-            )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            ) else 'error'
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, on_bad_lines=on_bad_lines)
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
@@ -131,7 +131,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
     for house in houses:
         print('Loading', house)
         abs_house = join(greend_path, house)
-        dates = [d for d in listdir(abs_house) if d.startswith('dataset')]
+        dates = sorted(d for d in listdir(abs_house) if d.startswith('dataset'))
         target_filenames = [join(abs_house, date) for date in dates]
         if use_mp:
             house_data = pool.map(_get_blocks, target_filenames)
-- 
2.43.0


From e3eaed610eb0dbddd6c34676b0ecf26102a78825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 069/102] fix: convert_hes mixed houses and appliances and lost
 metadata after the mains

---
 nilmtk/dataset_converters/hes/convert_hes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index eaf2c72..dcde89d 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -56,7 +56,7 @@ CIRCUIT_CODES = list(range(208, 218)) + [222]
 def load_list_of_house_ids(data_dir):
     """Returns a list of house IDs in HES (ints)."""
     filename = join(data_dir, 'anonhes', 'ipsos-anonymised-corrected_310713.csv')
-    series = pd.read_csv(filename, usecols=[0], index_col=False, squeeze=True)
+    series = pd.read_csv(filename, usecols=[0], index_col=False).iloc[:, 0]
     return series.tolist()
 
 
@@ -163,11 +163,11 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
                 nilmtk_house_id = house_codes.index(hes_house_id)+1
                 
                 # Iterate over appliances in house
-                for appliance_code, appliance_df in chunk.groupby('appliance code'):
+                for appliance_code, appliance_df in hes_house_id_df.groupby('appliance code'):
                     if appliance_code not in house_appliance_codes[hes_house_id]:
                         house_appliance_codes[hes_house_id].append(appliance_code)
                     nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
-                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, hes_house_id_df, store, appliance_code)
+                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, appliance_df, store, appliance_code)
                     
             chunk_i += 1
             
@@ -194,12 +194,12 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
             if appliance_code in MAINS_CODES:
                 meter_metadata = {'device_model': 'multivoies',
                                   'site_meter': True}
-                break
+                continue
             elif appliance_code in CIRCUIT_CODES:
                 meter_metadata = {'device_model': 'multivoies'}
-                break
+                continue
             elif appliance_code in TEMPERATURE_CODES:
-                break
+                continue
             else: # is appliance
                 meter_metadata = {'device_model': 'wattmeter'}
                 
-- 
2.43.0


From 09b2872e40b1f08d87218ef133b470c78943d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 070/102] fix: dataport csv converter renumbered the meters of
 a building in every file

---
 .../dataport/csv_converter.py                 | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..7539685 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -334,8 +334,23 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         nilmtk_b_id = tuple(nilmtk_metadata).index(b_id) + 1
         nilmtk_metadata[b_id]["instance"] = nilmtk_b_id
 
-    for m_id, meter in enumerate(b_data.columns):
-        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id + 1)
+    # A building can be spread over several files: a column keeps the meter
+    # which it was given in the first file where it was found.
+    known_meters = {
+            app["original_name"]: app["meters"][0]
+            for app in nilmtk_metadata[b_id]["appliances"]
+    }
+    for m_id, meter_metadata in nilmtk_metadata[b_id]["elec_meters"].items():
+        if meter_metadata.get("site_meter"):
+            known_meters["use"] = m_id
+
+    for meter in b_data.columns:
+        is_new_meter = meter not in known_meters
+        if is_new_meter:
+            known_meters[meter] = len(known_meters) + 1
+
+        m_id = known_meters[meter]
+        key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id)
         msg = "\tWriting {}".format(str(key))
         print(msg, end='\r')
         # Meter data.
@@ -344,12 +359,15 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         m_data.columns.set_names(nilmtk.measurement.LEVEL_NAMES, inplace=True)
         hdf_store.put(str(key), m_data, format="table", append=True)
         hdf_store.flush()
+        if not is_new_meter:
+            continue
+
         # Meter & appliance metadata
         if meter == 'use':
             meter_metadata = { "device_model": "eGauge", "site_meter": True }
         else:
             meter_metadata = { "device_model": "eGauge", "submeter_of": 0 }
-            app_metadata = { "original_name": meter, "meters": [ m_id + 1, ] }
+            app_metadata = { "original_name": meter, "meters": [ m_id, ] }
             app_metadata.update(COL_MAPPING[meter])
             app_id = 1
             app_type = app_metadata["type"]
@@ -360,7 +378,7 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
             app_metadata["instance"] = app_id
             nilmtk_metadata[b_id]["appliances"].append(app_metadata)
 
-        nilmtk_metadata[b_id]["elec_meters"][m_id + 1] = meter_metadata
+        nilmtk_metadata[b_id]["elec_meters"][m_id] = meter_metadata
         print("\t" + " " * len(msg), end='\r')
 
     print("\tWriting done.")
-- 
2.43.0


From c09759d51e971deeb501a428bcc0aef0aaef4ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 071/102] fix: convert_smart stored kW as W, unsorted, and
 changed the working directory

---
 nilmtk/dataset_converters/smart/convert_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index cede480..70c09dd 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -90,7 +90,7 @@ def _convert(input_path, store, measurement_mapping_func, tz, sort_index=True):
         b_cnt = b_cnt + 1
         print('Loading Home:', house_id, end='... ')
         stdout.flush()
-        years = _find_year(input_path, house_id)
+        years = sorted(_find_year(input_path, house_id))
         meters_paths_csv = []
         df_all_years = pd.DataFrame()
 
@@ -138,6 +138,12 @@ def _convert(input_path, store, measurement_mapping_func, tz, sort_index=True):
         df_all_years.set_index('Date & Time', inplace=True)
         df_all_years = df_all_years.tz_convert('US/Eastern')
 
+        # The raw readings are in kW
+        df_all_years = df_all_years * 1000
+
+        if sort_index:
+            df_all_years = df_all_years.sort_index()
+
         # Append key value pairs to DataStore
         chan_id = 0
         for col in df_all_years.columns:
@@ -222,10 +228,9 @@ def _find_all_csv_paths(input_path, house_id, year):
     """
     house_year_path = (input_path + '/' + 'Home' + house_id + '/' + year)
     extension = 'csv'
-    os.chdir(house_year_path)
     csv_names = glob.glob(house_year_path + '/*.csv')
 
-    txt_paths = glob.glob(house_year_path + '/*.txt')
+    txt_paths = sorted(glob.glob(house_year_path + '/*.txt'))
 
     paths = []
     # Take only those csv files which have 30 minutes as sample period
-- 
2.43.0


From bf69f8c3457a4c78c2132628d0c64519aa09ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:32 +0000
Subject: [PATCH 072/102] fix: convert_deddiag failed to import and left its
 store open

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index a42020a..d047360 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -21,8 +21,8 @@ measurements_conf = [['power'], ['active']]
 DEFAULT_TZ = 'Europe/Berlin'
 
 # Analyzed time period
-DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00', freq='MS')
-DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59', freq='MS')
+DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00')
+DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59')
 
 # channels
 channels = [24, 26, 27, 28, 35, 51, 52, 53, 59]
@@ -62,6 +62,7 @@ def convert_deddiag(connection,
 
     # Add metadata
     save_yaml_to_datastore(path_to_metadata, dest_file)
+    dest_file.close()
 
     print("Done converting DEDDIAG to HDF5!")
 
-- 
2.43.0


From 385ad6d71055b29e1303fc2d1cbece2bfdfa72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 073/102] fix: a meter could not be pickled, so legacy models
 could not be exported

---
 nilmtk/elecmeter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 642da64..a9c09cb 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -70,6 +70,16 @@ class ElecMeter(Hashable, Electric):
                     self.store.elec_meters = {}
                 self.store.elec_meters[self.identifier] = self
 
+    def __getstate__(self):
+        # The cache is an open file, it can't be pickled
+        state = self.__dict__.copy()
+        state.pop('cache', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.cache = nilmtk.STATS_CACHE
+
     @property
     def key(self):
         return self.metadata['data_location']
-- 
2.43.0


From 99327cb2a0c18ab93a422b13bd70fddc7fcb601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 074/102] fix: legacy Hart85 could not disaggregate, and took
 states from the end of a chunk

---
 nilmtk/legacy/disaggregate/hart_85.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..b6bd400 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -325,13 +325,12 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0]][index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
 
         # Check whether 1d data or 2d data and converting dict to dataframe
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
 
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)
             return temp_df, 2
@@ -366,6 +365,9 @@ class Hart85(Disaggregator):
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
+            on_power = self.centroids.loc[appliance].values
+            if ndim == 1:
+                on_power = on_power[0]
             # on = False
             i = 0
             while i < len(values) - 1:
@@ -373,10 +375,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = on_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -409,10 +411,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = on_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From 9749a550d49b63d367414fd0a2daf74541a108a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:16 +0000
Subject: [PATCH 075/102] fix: legacy FHMM mixed up states with equal means

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index fd82e0c..518244e 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -126,14 +126,8 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # A permutation, also when several states have the same mean
+    return dict(enumerate(np.argsort(np.ravel(means), kind='stable')))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From ee2d1abd390cd65aa355a314c7b6977544569772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 076/102] fix: legacy FHMM failed across buildings and used the
 sections of the first one for all

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index 518244e..a819ca7 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -240,9 +240,8 @@ class FHMM(Disaggregator):
                     pass
 
             if len(o) > 1:
-                o = np.array(o)
                 mod = hmm.GaussianHMM(2, "full")
-                mod.fit(o)
+                mod.fit(np.concatenate(o), lengths=[len(x) for x in o])
                 models[appliance] = mod
                 print("Means for %s are" % appliance)
                 print(mod.means_)
@@ -254,8 +253,9 @@ class FHMM(Disaggregator):
             startprob, means, covars, transmat = sort_learnt_parameters(
                 appliance_model.startprob_, appliance_model.means_,
                 appliance_model.covars_, appliance_model.transmat_)
-            new_learnt_models[appliance] = hmm.GaussianHMM(
-                startprob.size, "full", startprob, transmat)
+            new_learnt_models[appliance] = hmm.GaussianHMM(startprob.size, "full")
+            new_learnt_models[appliance].startprob_ = startprob
+            new_learnt_models[appliance].transmat_ = transmat
             new_learnt_models[appliance].means_ = means
             new_learnt_models[appliance].covars_ = covars
 
@@ -479,10 +479,10 @@ class FHMM(Disaggregator):
         for building in list_of_buildings:
             print("Disaggregating for building %d" % building)
             mains = ds.buildings[building].elec.mains()
-            load_kwargs = self._pre_disaggregation_checks(load_kwargs)
+            building_kwargs = self._pre_disaggregation_checks(load_kwargs.copy())
 
-            load_kwargs.setdefault('sample_period', 60)
-            load_kwargs.setdefault('sections', mains.good_sections())
+            building_kwargs.setdefault('sample_period', 60)
+            building_kwargs.setdefault('sections', mains.good_sections())
 
             timeframes = []
             building_path = '/building{}'.format(mains.building())
@@ -498,7 +498,7 @@ class FHMM(Disaggregator):
                 else:
                     pass
 
-            for chunk in mains.power_series(**load_kwargs):
+            for chunk in mains.power_series(**building_kwargs):
                 # Check that chunk is sensible size before resampling
                 if len(chunk) < self.MIN_CHUNK_LENGTH:
                     continue
@@ -535,7 +535,7 @@ class FHMM(Disaggregator):
             if data_is_available:
                 self._save_metadata_for_disaggregation(
                     output_datastore=output_datastore,
-                    sample_period=load_kwargs['sample_period'],
+                    sample_period=building_kwargs['sample_period'],
                     measurement=measurement,
                     timeframes=timeframes,
                     building=mains.building(),
-- 
2.43.0


From 9e1d5b225f30c167a4fa043a052fc6073808b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:45 +0000
Subject: [PATCH 077/102] fix: Appliance.matches compares 'count' with the
 metadata

'count' (and 'index') are methods of the namedtuple of the identifier, so a
key 'count' was compared with a method and never matched the metadata.
---
 nilmtk/appliance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..4b0f53d 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -116,7 +116,7 @@ class Appliance(Hashable):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in self.identifier._fields:
                 if Appliance.allow_synonyms and k == 'type':
                     synonyms = self.type.get('synonyms', [])
                     synonyms.append(self.identifier.type)
-- 
2.43.0


From 581c2ca6e069756c9f1b0ae1113ff6f6a306601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 078/102] fix: HDFDataStore.remove did not flush

put, append and save_metadata are on disk when they return; a removal was
lost when the process died before the store was closed.
---
 nilmtk/datastore/hdfdatastore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 77b23fb..68530a9 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -181,6 +181,7 @@ class HDFDataStore(DataStore):
     @doc_inherit
     def remove(self, key):
         self.store.remove(key)
+        self.store.flush()
 
     @doc_inherit
     def load_metadata(self, key='/'):
-- 
2.43.0


From 73955a727dd70d4dd9b762a09de32d1b2fd28800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 079/102] fix: CSVDataStore.append ignored the column names

The values of columns in another order than those of the table were swapped
without a word, and those of other columns went anywhere.  HDFDataStore
orders them, or raises ValueError.
---
 nilmtk/datastore/csvdatastore.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4cca564..988c13b 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -148,9 +148,18 @@ class CSVDataStore(DataStore):
         path = dirname(file_path)
         if not exists(path):
             makedirs(path)
+        new_table = not isfile(file_path)
+        if not new_table:
+            # The header is only written once: the rows have to fit it
+            columns = _restore_empty_column_names(
+                pd.read_csv(file_path, index_col=0, header=[0,1], nrows=0)).columns
+            if set(columns) != set(value.columns):
+                raise ValueError('cannot append columns {} to {} which has columns {}'
+                                 .format(list(value.columns), key, list(columns)))
+            value = value[list(columns)]
         value.to_csv(file_path,
                      mode='a',
-                     header=not isfile(file_path),
+                     header=new_table,
                      index_label=value.index.name or INDEX_LABEL)
 
     @doc_inherit
-- 
2.43.0


From 76080db940d99c85280ed96b26b4c5265fa695c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 080/102] fix: phase angles of a group of meters were summed,
 not averaged

The list of quantities to average spelt it 'phase_angle'.
---
 nilmtk/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..8c96fd6 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
-- 
2.43.0


From 9d8919176b60b59aa7904cec634d3aea2794d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 081/102] fix: plot_series failed with current matplotlib

---
 nilmtk/plots.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index a68003d..ed52f57 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -4,14 +4,6 @@ import matplotlib.dates as mdates
 import numpy as np
 from math import sqrt
 
-try:
-    _to_ordinalf_np_vectorized = np.vectorize(mdates._to_ordinalf)
-except:
-    try:
-        _to_ordinalf_np_vectorized = np.vectorize(mdates._dt64_to_ordinalf)
-    except:
-        raise RuntimeError('This matplotlib version is not supported.')
-
 
 def plot_series(series, ax=None, fig=None, 
                 date_format='%d/%m/%y %H:%M:%S', tz_localize=True, **kwargs):
@@ -39,8 +31,7 @@ def plot_series(series, ax=None, fig=None,
     if fig is None:
         fig = plt.gcf()
 
-    #TODO: we probably don't need this anymore
-    x = _to_ordinalf_np_vectorized(series.index.to_pydatetime())
+    x = mdates.date2num(series.index.to_pydatetime())
     ax.plot(x, series, **kwargs)
     tz = series.index.tzinfo if tz_localize else None
     ax.xaxis.set_major_formatter(
-- 
2.43.0


From a720e13dd7755700bc5e062db3b178c4a9314d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 082/102] fix: the pairwise heatmap kept its tick marks

---
 nilmtk/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index ed52f57..6a753ee 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -66,7 +66,7 @@ def plot_pairwise_heatmap(df, labels, edgecolors='w',
     ax.set_aspect('equal')  # ensure heatmap cells are square
     ax.xaxis.set_ticks_position('top')  # put column labels at the top
     # turn off ticks:
-    ax.tick_params(bottom='off', top='off', left='off', right='off')
+    ax.tick_params(bottom=False, top=False, left=False, right=False)
 
     plt.yticks(np.arange(len(df.index)) + 0.5, labels)
     plt.xticks(np.arange(len(df.columns)) + 0.5, labels, rotation=90)
-- 
2.43.0


From 9da4d52d688c5664a06dc75becf407f5ff3d29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 083/102] fix: plotting less than half a second per pixel
 divided by zero

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index de4b4cf..775b574 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -200,7 +200,7 @@ class Electric(object):
     def _set_sample_period(self, timeframe, width=800, **kwargs):
         # Calculate the resolution for the x axis
         duration = timeframe.timedelta.total_seconds()
-        secs_per_pixel = int(round(duration / width))
+        secs_per_pixel = max(1, int(round(duration / width)))
         kwargs.update({'sample_period': secs_per_pixel, 'resample': True})
         return kwargs
 
-- 
2.43.0


From a764182655b6fd2c5b14f2acd58b727008f93ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 084/102] fix: plot_spectrum called the scipy.fft module

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 775b574..37122a5 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -3,7 +3,7 @@ import numpy as np
 from collections import Counter
 from warnings import warn
 import scipy.spatial as ss
-from scipy import fft
+from scipy.fft import fft
 from pandas.plotting import lag_plot, autocorrelation_plot
 from scipy.special import digamma,gamma
 from math import log,pi
@@ -410,7 +410,7 @@ class Electric(object):
             frq = k/T # two sides frequency range
             frq = frq[range(n//2)] # one side frequency range
 
-            Y = fft(power)/n # fft computing and normalization
+            Y = fft(power.values)/n # fft computing and normalization
             Y = Y[range(n//2)]
 
             ax.plot(frq,abs(Y)) # plotting the spectrum
-- 
2.43.0


From 7054501840e8cc191578721646c311650bf629d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 085/102] fix: plot wrote its label into the caller's
 plot_kwargs

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 37122a5..cf65803 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -183,8 +183,8 @@ class Electric(object):
         if unit == 'kW':
             power_series /= 1000
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        # Copy, as the caller may use the same dict for several meters
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs.setdefault('label', self.label())
         # Pandas 0.16.1 has a bug where 'label' isn't respected. See:
         # https://github.com/nilmtk/nilmtk/issues/407
-- 
2.43.0


From 7a21726ce732c995a1c54e7cf34fd5750ea79672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 086/102] fix: plots of a data set with one building failed

---
 nilmtk/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset.py b/nilmtk/dataset.py
index c7bc7f1..487cfb2 100644
--- a/nilmtk/dataset.py
+++ b/nilmtk/dataset.py
@@ -114,7 +114,8 @@ class DataSet(object):
                                      for elec in self.elecs()]
             gridspec_kw = dict(height_ratios=n_meters_per_building)
             fig, axes = plt.subplots(
-                n, 1, sharex=True, gridspec_kw=gridspec_kw)
+                n, 1, sharex=True, gridspec_kw=gridspec_kw, squeeze=False)
+            axes = axes[:, 0]
 
         assert n == len(axes)
         for i, (ax, elec) in enumerate(zip(axes, self.elecs())):
@@ -146,7 +147,8 @@ class DataSet(object):
     def plot_mains_power_histograms(self, axes=None, **kwargs):
         n = len(self.buildings)
         if axes is None:
-            fig, axes = plt.subplots(n, 1, sharex=True)
+            fig, axes = plt.subplots(n, 1, sharex=True, squeeze=False)
+            axes = axes[:, 0]
         assert n == len(axes)
 
         for ax, elec in zip(axes, self.elecs()):
-- 
2.43.0


From 1ebfe1f812272b2ce3bcf45cc6f04d87f5aacd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 087/102] fix: the plot of dropout rates added numbers to times

---
 nilmtk/stats/dropoutrateresults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index af1d569..3bb84ad 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -45,7 +45,7 @@ class DropoutRateResults(Results):
             ax = plt.gca()
         ax.xaxis.axis_date()
         for index, row in self._data.iterrows():
-            length = (row['end'] - index).total_seconds() / SECS_PER_DAY
+            length = row['end'] - index
             rect = plt.Rectangle((index, 0), # bottom left corner
                                  length,
                                  row['dropout_rate'], # width
-- 
2.43.0


From 4e10748e264d43ddb1c32718c400d981d3d8f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 088/102] fix: the energy bar needed mains and misplaced its
 first label

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index bdbcad9..42a0201 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1597,6 +1597,8 @@ class MeterGroup(Electric):
         energy = self.energy_per_meter(mains=mains, per_period='D',
                                         use_meter_labels=True)
 
+        if mains is None:
+            energy = energy.sum() # Collapse AC_TYPEs into Series
         energy = energy.sort_values(ascending=False)
 
         # Plot
@@ -1607,7 +1609,7 @@ class MeterGroup(Electric):
                       labelpad=15)
 
         cumsum = energy.cumsum()
-        text_ys = cumsum - (cumsum.diff().fillna(energy['Remainder']) / 2)
+        text_ys = cumsum - (energy / 2)
         for kwh, (label, y) in zip(energy.values, text_ys.items()):
             label += " ({:.2f})".format(kwh)
             ax.annotate(label, (0, y), color='white', size=8,
-- 
2.43.0


From 0e2fe5c51b428939a1b0c17cc1fd7ff06737b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 089/102] fix: area and energy bar plots ignored the given axes

---
 nilmtk/metergroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 42a0201..92bab09 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1512,7 +1512,7 @@ class MeterGroup(Electric):
         # Set a tiny linewidth otherwise we get lines even if power is zero
         # and this looks ugly when drawn above other lines.
         plot_kwargs.setdefault('linewidth', 0.0001)
-        ax = df.plot(kind='area', **plot_kwargs)
+        ax = df.plot(kind='area', ax=ax, **plot_kwargs)
         ax.set_ylabel("Power ({:s})".format(unit))
         return ax, df
 
@@ -1602,7 +1602,7 @@ class MeterGroup(Electric):
         energy = energy.sort_values(ascending=False)
 
         # Plot
-        ax = pd.DataFrame(energy).T.plot(kind='bar', stacked=True, grid=True,
+        ax = pd.DataFrame(energy).T.plot(ax=ax, kind='bar', stacked=True, grid=True,
                                          edgecolor="none", legend=False, width=2)
         ax.set_xticks([])
         ax.set_ylabel('kWh\nper\nday', rotation=0, ha='center', va='center', 
-- 
2.43.0


From 617f37dcbd41cb3004bcd748d20708f1d2c81ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 090/102] fix: plot drew the legend on the current axes, not
 the given ones

---
 nilmtk/electric.py   | 2 +-
 nilmtk/metergroup.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index cf65803..60ba197 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -193,7 +193,7 @@ class Electric(object):
         ax = power_series.plot(ax=ax, **plot_kwargs)
         ax.set_ylabel('Power ({})'.format(unit))
         if plot_legend:
-            plt.legend()
+            ax.legend()
 
         return ax
 
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 92bab09..71dbf4c 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1430,8 +1430,8 @@ class MeterGroup(Electric):
                 ax = meter.plot(ax=ax, plot_legend=False, kind='sum', **kwargs)
             else:
                 ax = meter.plot(ax=ax, plot_legend=False, **kwargs)
-        if plot_legend:
-            plt.legend()
+        if plot_legend and ax is not None:
+            ax.legend()
         return ax
 
     def _plot_sankey(self):
-- 
2.43.0


From ee18154bd6298ace533a96c48fa671173f4d8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 091/102] fix: latexify failed with current matplotlib

---
 nilmtk/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index 6a753ee..1c7d476 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -111,7 +111,7 @@ def latexify(fig_width=None, fig_height=None, columns=1, fontsize=8):
 
     params = {
         'backend': 'ps',
-        'text.latex.preamble': ['\\usepackage{gensymb}'],
+        'text.latex.preamble': '\\usepackage{gensymb}',
         'axes.labelsize': fontsize,  # fontsize for x and y labels (was 10)
         'axes.titlesize': fontsize,
         'font.size': fontsize,
-- 
2.43.0


From dd6283c649dc434e5134b3fc6c645075ecbaf884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 092/102] fix: get_datastore(None) raised an AttributeError

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e899771..ec496d6 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -312,7 +312,7 @@ def get_datastore(filename, format=None, mode='r'):
     -------
     metadata : dict
     """
-    if not format:
+    if not format and filename is not None:
         if filename.endswith(".h5"):
             format = "HDF"
         elif filename.endswith(".csv"):
@@ -326,7 +326,7 @@ def get_datastore(filename, format=None, mode='r'):
         else:
             raise ValueError('format not recognised')
     else:
-        ValueError('filename is None')
+        raise ValueError('filename is None')
 
 
 def normalise_timestamp(timestamp, freq):
-- 
2.43.0


From b7d31bda5e2a841bb3efec88cc7eeda6a6de45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 093/102] fix: compute_rmse paired appliances by position

With columns in another order, or an appliance without predictions, the
errors of an appliance were computed from the predictions of another.
Appliances without predictions are not listed, as documented.
---
 nilmtk/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index ec496d6..5a59692 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -425,8 +425,10 @@ def compute_rmse(ground_truth, predictions, pretty=True):
             app_label = app
         
         gt_app = ground_truth.iloc[:, app_idx]
-        pred_app = predictions.iloc[:, app_idx]
-        if pred_app.empty: 
+        if app not in predictions.columns:
+            continue
+        pred_app = predictions[app]
+        if pred_app.dropna().empty:
             continue
             
         df_app = pd.DataFrame({'gt': gt_app, 'pr': pred_app}, index=gt_app.index).dropna()
-- 
2.43.0


From 30837935ad64a2b0a8cb83109a940e307ef2eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 094/102] fix: compute_rmse wrote methods into duplicate labels

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 5a59692..6549ae8 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -456,8 +456,8 @@ def compute_rmse(ground_truth, predictions, pretty=True):
                 app = app_data[0]
                 app_data[1] = '{} ({}, {})'.format(
                     current_label,
-                    app.building,
-                    app.instance
+                    app.building(),
+                    app.instance()
                 )
             
     return pd.Series(dict(
-- 
2.43.0


From 8334541d2672b8f920d605f5c5089fa1dabc5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 095/102] fix: load changed the caller's resample_kwargs, so
 meters of a group shared one limit

---
 nilmtk/elecmeter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index a9c09cb..c5b0fc3 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -444,7 +444,8 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
-- 
2.43.0


From 3c930042090563b4f71c4e73bf560fae1dce537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 096/102] fix: load added its resampling to the caller's list
 of preprocessing nodes

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 60ba197..3235c25 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -142,8 +142,8 @@ class Electric(object):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            kwargs['preprocessing'] = kwargs.get('preprocessing', []) + [
+                Apply(func=resample_func)]
 
         return kwargs
 
-- 
2.43.0


From c0eba0f0b7b2b0961f53199362dd252a806ab1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 097/102] fix: histogram and area plots wrote their defaults
 into the caller's plot_kwargs

---
 nilmtk/electric.py   | 6 ++----
 nilmtk/metergroup.py | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 3235c25..d820f3a 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -455,8 +455,7 @@ class Electric(object):
             ax = plt.gca()
         if load_kwargs is None:
             load_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         generator = self.power_series(**load_kwargs)
 
         # set range
@@ -726,8 +725,7 @@ class Electric(object):
             ax = plt.gca()
         hist = self.activity_histogram(bin_duration=bin_duration,
                                        period=period, **kwargs)
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         n_bins = len(hist)
         plot_kwargs.setdefault('align', 'center')
         plot_kwargs.setdefault('linewidth', 0)
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 71dbf4c..6c28b16 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1506,8 +1506,7 @@ class MeterGroup(Electric):
         if unit == 'kW':
             df /= 1000
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         df.columns = self.get_labels(df.columns, pretty=pretty_labels)
         # Set a tiny linewidth otherwise we get lines even if power is zero
         # and this looks ugly when drawn above other lines.
-- 
2.43.0


From c6bf101ad704a0f661600cb2347211369f4e84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 098/102] fix: resampling failed on days whose midnight is
 ambiguous or missing

---
 nilmtk/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 6549ae8..4a64412 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -335,8 +335,7 @@ def normalise_timestamp(timestamp, freq):
     """
     timestamp = pd.Timestamp(timestamp)
     series = pd.Series(np.nan, index=[timestamp])
-    resampled = series.resample(freq).mean()
-    return resampled.index[0]
+    return safe_resample(series, rule=freq, how='mean').index[0]
 
 
 def print_on_line(*strings):
@@ -511,11 +510,11 @@ def safe_resample(data, **resample_kwargs):
             warnings.warn("Found duplicate index. Keeping first value")
             data = data[~dups_in_index]
             
-        data = _resample_chain(data, resample_kwargs)
-    except pytz.AmbiguousTimeError:
+        data = _resample_chain(data, dict(resample_kwargs))
+    except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
         # Work-around for
         # https://github.com/pydata/pandas/issues/10117
-        tz = data.index.tz.zone
+        tz = data.index.tz
         data = data.tz_convert('UTC')
         data = _resample_chain(data, resample_kwargs)
         
-- 
2.43.0


From 2650a0ca37e44d576e4c87dd44257aff085c11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 099/102] fix: activity_histogram failed across a change of the
 clocks

---
 nilmtk/electric.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d820f3a..76ba676 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -18,7 +18,8 @@ from .timeframe import TimeFrame
 from .measurement import select_best_ac_type
 from .utils import (offset_alias_to_seconds, convert_to_timestamp,
                     flatten_2d_list, append_or_extend_list,
-                    timedelta64_to_secs, safe_resample)
+                    timedelta64_to_secs, safe_resample,
+                    normalise_timestamp)
 from .plots import plot_series
 from .preprocessing import Apply
 from nilmtk.stats.histogram import histogram_from_generator
@@ -690,21 +691,15 @@ class Electric(object):
 
             on_chunk = on_chunk.fillna(0).astype(int)
 
-            # Trick using resample to 'normalise' start and end dates
-            # to natural boundaries of 'period'.
-            resampled_to_period = on_chunk.iloc[[0, -1]].resample(period).mean().index
-            start = resampled_to_period[0]
-            end = resampled_to_period[-1] + 1 * resampled_to_period.freq
-
-            # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
-            on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
-
-            # reshape
-            matrix = on_chunk.values.reshape((-1, n_bins))
+            # Use local time without time zone because a period (e.g. a
+            # day) across a change of the clocks has more or fewer bins.
+            times = on_chunk.index.tz_localize(None)
+            start = normalise_timestamp(times[0], period)
+            bin_width = pd.Timedelta(seconds=kwargs['sample_period'])
+            bins = (times - start) // bin_width % n_bins
 
             # histogram
-            hist += matrix.sum(axis=0)
+            np.add.at(hist, bins.values, on_chunk.values)
 
         return hist
 
-- 
2.43.0


From 1fd5294a351f0a5c3e53f04d3b869721aa4a5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 100/102] fix: aligning two meters failed on days whose
 midnight is ambiguous or missing

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 76ba676..c272e3c 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -846,12 +846,12 @@ def align_two_meters(master, slave, func='power_series'):
 
         # TODO: do this resampling in the pipeline?
         if not slave_chunk.empty:
-            slave_chunk = slave_chunk.resample(period_alias).mean()
+            slave_chunk = safe_resample(slave_chunk, rule=period_alias, how='mean')
             
         if slave_chunk.empty:
             continue
             
-        master_chunk = master_chunk.resample(period_alias).mean()
+        master_chunk = safe_resample(master_chunk, rule=period_alias, how='mean')
 
         yield pd.DataFrame({'master': master_chunk, 'slave': slave_chunk})
 
-- 
2.43.0


From ed9782a8899333551b50a6e6fabeec39f553d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 101/102] fix: preprocessing nodes used for two loads read the
 data of the last one

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index c5b0fc3..71a24d4 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,6 +1,6 @@
 from warnings import warn
 from collections import namedtuple
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 import pandas as pd
 from .preprocessing import Clip
@@ -478,6 +478,8 @@ class ElecMeter(Hashable, Electric):
 
         # Connect together all preprocessing nodes
         for node in preprocessing:
+            # Copy, as the caller may use the same nodes for several loads
+            node = copy(node)
             node.upstream = last_node
             last_node = node
             generator = last_node.process()
-- 
2.43.0


From 0e327ce586966f0a3f755fc300d5a76c03e4e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:09 +0000
Subject: [PATCH 102/102] fix: CSV tables across a change of the offset from
 UTC have no time index

---
 nilmtk/datastore/csvdatastore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 988c13b..bf25efa 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -30,6 +30,9 @@ def _restore_empty_column_names(df):
          for column in df.columns], names=df.columns.names)
     if df.index.name == INDEX_LABEL:
         df.index.name = None
+    if df.index.dtype == object and len(df):
+        # Pandas gives up if the offset from UTC changes (daylight saving)
+        df.index = pd.to_datetime(df.index, utc=True)
     return df
 
 
-- 
2.43.0


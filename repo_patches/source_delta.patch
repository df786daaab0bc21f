From 830b3172d1a27511ef297e1a2723f35d745172a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 001/120] fix: np.NaN was removed in numpy 2, use np.nan

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From 690bb0825a77cf3b3a8bb2e91eb83e1cf24b68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 002/120] fix: TimeFrame truth value was ignored on Python 3
 (only __nonzero__ was defined)

---
 nilmtk/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..741c08c 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -218,6 +218,8 @@ class TimeFrame(object):
         else:
             return (self.start is not None) or (self.end is not None)
 
+    __bool__ = __nonzero__
+
     def __repr__(self):
         return ("TimeFrame(start='{}', end='{}', empty={})"
                 .format(self.start, self.end, self.empty))
-- 
2.43.0


From 98abc7d4fd89157cbabd833392eb7744b52e67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 003/120] fix: TimeFrame.union raised TypeError for open-ended
 or empty TimeFrames

---
 nilmtk/timeframe.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 741c08c..16a620e 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -120,8 +120,18 @@ class TimeFrame(object):
 
     def union(self, other):
         """Return a single TimeFrame combining self and other."""
-        start = min(self.start, other.start)
-        end = max(self.end, other.end)
+        if self.empty:
+            return TimeFrame(other)
+        if other.empty:
+            return TimeFrame(self)
+        if self.start is None or other.start is None:
+            start = None
+        else:
+            start = min(self.start, other.start)
+        if self.end is None or other.end is None:
+            end = None
+        else:
+            end = max(self.end, other.end)
         return TimeFrame(start, end)
 
     @property
-- 
2.43.0


From 73f995604dc777cd6145cb6264d54a3787587fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 004/120] fix: TimeFrame.slice failed for empty and open-ended
 TimeFrames

---
 nilmtk/timeframe.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 16a620e..09a72fc 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -212,13 +212,19 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame.iloc[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None:
+                if self.include_end:
+                    sliced = sliced[sliced.index <= self.end]
+                else:
+                    sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame.copy()
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From dbaa983dc94bd3651f4b67d332be62197b01ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 005/120] fix: comparing two TimeFrames without a start raised
 TypeError

---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 09a72fc..78b8a11 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -248,7 +248,7 @@ class TimeFrame(object):
     def __lt__(self, other):
         if self.start is None and other.start is not None:
             return True
-        if other.start is None and self.start is not None:
+        if other.start is None:
             return False
         return self.start < other.start
 
-- 
2.43.0


From 7add25a2ebaad8cbc0e835592f02fb2c2a8fe03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 006/120] fix: TimeFrame.split on half-open frames, and its
 last piece lost include_end

---
 nilmtk/timeframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 78b8a11..d5c63b3 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -291,7 +291,7 @@ class TimeFrame(object):
         -------
         generator of new TimeFrame objects
         """
-        if not self:
+        if self.empty or self.start is None or self.end is None:
             raise ValueError("Cannot split a TimeFrame if `start` or `end`"
                              " is None")
 
@@ -309,6 +309,7 @@ class TimeFrame(object):
             else:
                 yield TimeFrame(start=timeframe.start, end=allowed_end)
                 timeframe = TimeFrame(start=allowed_end, end=timeframe.end)
+                timeframe.include_end = self.include_end
 
 
 def split_timeframes(timeframes, duration_threshold):
-- 
2.43.0


From 07d320b467118a83bc44a465968f1c4905c68bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 007/120] fix: HDFDataStore could not load a time section on
 Python 3.12

pandas resolves the names in a *list* of where-terms in a frame that no longer
exists since comprehensions are inlined (Python 3.12), so every load with a
window or section raised.  Pass a single expression instead.
---
 nilmtk/datastore/hdfdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..5dbacf2 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,8 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +293,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(
+                key, ' & '.join(terms))
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From afefb2cfec1d316b32ecba5d1be3f0285d47ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 008/120] fix: HDFDataStore.load raised or repeated the last
 row when nrows-1 is a multiple of chunksize

---
 nilmtk/datastore/hdfdatastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 5dbacf2..1950d27 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,8 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i <= 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From 9def605222d939c475016640a72a8488d25a4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 009/120] fix: HDFDataStore.load dropped sections which contain
 exactly one row

---
 nilmtk/datastore/hdfdatastore.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 1950d27..6ff8e5a 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -100,8 +100,10 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
-            n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
+            slice_starts = range(section_start_i,
+                                 max(section_end_i, section_start_i + 1),
+                                 chunksize)
+            n_chunks = len(slice_starts)
 
             if n_chunks > 1:
                 self.all_sections_smaller_than_chunksize = False
@@ -341,4 +343,8 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
     if end is None:
         end = index[-1]
 
+    if start >= end:
+        # A single row on the very edge of the section
+        return window_intersect
+
     return TimeFrame(start, end)
-- 
2.43.0


From 3c7f78edd1ca973f3ac7520d8c3de01cf62727c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 010/120] fix: HDFDataStore.save_metadata failed for a building
 without data

convert_datastore saves the metadata of a building before its data.
---
 nilmtk/datastore/hdfdatastore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 6ff8e5a..9a742b3 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -195,6 +195,11 @@ class HDFDataStore(DataStore):
             node = self.store.root
         else:
             node = self.store.get_node(key)
+            if node is None:
+                # There is no data below `key` (yet)
+                where, _, name = ('/' + key.strip('/')).rpartition('/')
+                node = self.store._handle.create_group(
+                    where or '/', name, createparents=True)
 
         node._v_attrs.metadata = metadata
         self.store.flush()
-- 
2.43.0


From 95fa6bff9c44eace3b0e08a994d5a4ee77ce3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 011/120] fix: CSVDataStore.elements_below_key raised NameError
 or found nothing below the root

---
 nilmtk/datastore/csvdatastore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..097a475 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from collections import OrderedDict
 import numpy as np
 import yaml
-from os.path import isdir, isfile, join, exists, dirname
+from os.path import isdir, isfile, join, exists, dirname, splitext
 from os import listdir, makedirs, remove
 from shutil import rmtree
 import re
@@ -194,11 +194,11 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    elements += [splitext(element)[0]]
 
         return elements
 
-- 
2.43.0


From 68a77f6228f16bc4c324bd813f49231da9896d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 012/120] fix: CSVDataStore.append wrote the header again in
 the middle of the file

---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 097a475..d691501 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -113,7 +113,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From 0caac0c092efe23417523848f0a1b622c73ae8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 013/120] fix: CSVDataStore.load ignored TimeFrame.include_end

---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index d691501..d67af24 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -78,7 +78,11 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
+                    if window_intersect.include_end:
+                        before_end = chunk.index <= window_intersect.end
+                    else:
+                        before_end = chunk.index < window_intersect.end
+                    subchunk_idx = np.logical_and(subchunk_idx, before_end)
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
                 subchunk = chunk[subchunk_idx]
-- 
2.43.0


From d0cbf567edbe2b557f7c5167b0fccc485c35725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 014/120] fix: CSVDataStore look-ahead skipped a row, ignored
 `columns` and had no column names

The third header line is only there if the index has a name, and the look-ahead
was read without the header.
---
 nilmtk/datastore/csvdatastore.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index d67af24..26b1f57 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -59,12 +59,7 @@ class CSVDataStore(DataStore):
         # requires 1 pass through file for each section
         for section in sections:
             window_intersect = self.window.intersection(section)
-            header_rows = [0,1]
-            text_file_reader = pd.read_csv(file_path, 
-                                            index_col=0, 
-                                            header=header_rows, 
-                                            parse_dates=True,
-                                            chunksize=chunksize)
+            text_file_reader = self._read_csv(file_path, chunksize=chunksize)
                                             
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
@@ -93,16 +88,14 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
-                            try:
-                                subchunk.look_ahead = pd.read_csv(file_path, 
-                                                index_col=0, 
-                                                header=None, 
-                                                parse_dates=True,
-                                                skiprows=rows_to_skip,
-                                                nrows=n_look_ahead_rows)
-                            except ValueError:
-                                subchunk.look_ahead = pd.DataFrame()
+                            rows_to_skip = (chunk_idx*chunksize)+subchunk_end+1
+                            look_ahead = self._read_csv(
+                                file_path,
+                                nrows=rows_to_skip+n_look_ahead_rows)
+                            look_ahead = look_ahead.iloc[rows_to_skip:]
+                            if columns:
+                                look_ahead = look_ahead[columns]
+                            subchunk.look_ahead = look_ahead
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
@@ -234,6 +227,13 @@ class CSVDataStore(DataStore):
         timeframe = TimeFrame(start, end)
         return self.window.intersection(timeframe)
         
+    def _read_csv(self, file_path, **kwargs):
+        return pd.read_csv(file_path,
+                           index_col=0,
+                           header=[0,1],
+                           parse_dates=True,
+                           **kwargs)
+
     def _get_metadata_path(self):
         return join(self.filename, 'metadata')
         
-- 
2.43.0


From 70f2090430ca5a06e7e9a73a9b6092d1aff49992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 015/120] fix: CSVDataStore.load raised for one-row chunks and
 yielded nothing for empty sections

---
 nilmtk/datastore/csvdatastore.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 26b1f57..52a624e 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -61,6 +61,7 @@ class CSVDataStore(DataStore):
             window_intersect = self.window.intersection(section)
             text_file_reader = self._read_csv(file_path, chunksize=chunksize)
                                             
+            section_is_empty = True
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
                 
@@ -84,7 +85,11 @@ class CSVDataStore(DataStore):
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    section_is_empty = False
+                    if subchunk.index[0] < subchunk.index[-1]:
+                        subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    else:
+                        subchunk.timeframe = window_intersect
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
@@ -101,6 +106,11 @@ class CSVDataStore(DataStore):
                     
                     yield subchunk
 
+            if section_is_empty:
+                data = pd.DataFrame()
+                data.timeframe = section if window_intersect.empty else window_intersect
+                yield data
+
     @doc_inherit
     def append(self, key, value):
 
-- 
2.43.0


From 282ce3cd80a11ca72104d43d311a1ad55fd1fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 016/120] fix: CSVDataStore.load raised FileNotFoundError
 instead of the documented KeyError

---
 nilmtk/datastore/csvdatastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 52a624e..493e295 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -48,7 +48,9 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
-        
+        if not isfile(file_path):
+            raise KeyError('{} not found'.format(key))
+
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
         sections = TimeFrameGroup(sections)
-- 
2.43.0


From 5aa03b52dc694cea452a7de39eea088bf11ae3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 017/120] fix: CSVDataStore lost the names of columns without a
 type, and store[key] mangled the header

---
 nilmtk/datastore/csvdatastore.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 493e295..8b4f99e 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -39,7 +39,7 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return self._read_csv(file_path)
         else:
             raise KeyError('{} not found'.format(key))
 
@@ -225,11 +225,8 @@ class CSVDataStore(DataStore):
     def get_timeframe(self, key):
     
         file_path = self._key_to_abs_path(key)
-        text_file_reader = pd.read_csv(file_path, 
-                                        index_col=0, 
-                                        header=[0,1], 
-                                        parse_dates=True,
-                                        chunksize=MAX_MEM_ALLOWANCE_IN_BYTES)
+        text_file_reader = self._read_csv(file_path,
+                                          chunksize=MAX_MEM_ALLOWANCE_IN_BYTES)
         start = None
         end = None
         for df in text_file_reader:
@@ -240,11 +237,24 @@ class CSVDataStore(DataStore):
         return self.window.intersection(timeframe)
         
     def _read_csv(self, file_path, **kwargs):
-        return pd.read_csv(file_path,
+        data = pd.read_csv(file_path,
                            index_col=0,
                            header=[0,1],
                            parse_dates=True,
                            **kwargs)
+        if isinstance(data, pd.DataFrame):
+            return self._restore_empty_column_names(data)
+        return map(self._restore_empty_column_names, data)
+
+    @staticmethod
+    def _restore_empty_column_names(data):
+        # e.g. pandas reads ('voltage', '') as ('voltage', 'Unnamed: 3_level_1')
+        data.columns = pd.MultiIndex.from_tuples(
+            [tuple('' if str(name).startswith('Unnamed: ') else name
+                   for name in column)
+             for column in data.columns],
+            names=data.columns.names)
+        return data
 
     def _get_metadata_path(self):
         return join(self.filename, 'metadata')
-- 
2.43.0


From 1b89b5bcf3d153d8204dc17474aa5513a6da0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:54 +0000
Subject: [PATCH 018/120] fix: CSVDataStore could not load appended rows whose
 times pandas formats differently

---
 nilmtk/datastore/csvdatastore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 8b4f99e..4999338 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -254,6 +254,9 @@ class CSVDataStore(DataStore):
                    for name in column)
              for column in data.columns],
             names=data.columns.names)
+        if not isinstance(data.index, pd.DatetimeIndex):
+            # e.g. pandas writes '2012-01-01' if all rows are at midnight
+            data.index = pd.to_datetime(data.index, format='mixed')
         return data
 
     def _get_metadata_path(self):
-- 
2.43.0


From b3dd26f5bf7b4beb3653bee4a52093bf479c72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 019/120] fix: every TmpDataStore leaked an open file
 descriptor

---
 nilmtk/datastore/tmpdatastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/tmpdatastore.py b/nilmtk/datastore/tmpdatastore.py
index cddf721..c536fa6 100644
--- a/nilmtk/datastore/tmpdatastore.py
+++ b/nilmtk/datastore/tmpdatastore.py
@@ -10,7 +10,8 @@ class TmpDataStore(HDFDataStore):
         """ Create a `HDFDataStore` in the OS temporary directory in append mode.
             The created HDF file will remain on the disk until a call to the `close()` method.
         """
-        _, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        fd, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        os.close(fd)
         self.full_path = tmp_path
         super().__init__(filename=self.full_path, mode="a")
 
-- 
2.43.0


From a6367013ff875f389e18d9fec5a690745cd19d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:18 +0000
Subject: [PATCH 020/120] fix: HDFDataStore.save_metadata kept a reference to
 the caller's dict, so later edits changed the open store

---
 nilmtk/datastore/hdfdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 9a742b3..257ddaa 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -201,7 +201,7 @@ class HDFDataStore(DataStore):
                 node = self.store._handle.create_group(
                     where or '/', name, createparents=True)
 
-        node._v_attrs.metadata = metadata
+        node._v_attrs.metadata = deepcopy(metadata)
         self.store.flush()
 
     @doc_inherit
-- 
2.43.0


From 4d361eb76884fc2c58ac0471786480135908df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:59 +0000
Subject: [PATCH 021/120] fix: loading a list of AC types silently ignored
 unavailable ones instead of raising

---
 nilmtk/elecmeter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..aa8bfb7 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -555,6 +555,11 @@ class ElecMeter(Hashable, Electric):
                 else:
                     columns = cols_matching_pq
 
+            if isinstance(ac_type, list):
+                not_found = set(ac_type) - set(col[1] for col in columns)
+                if not_found:
+                    msg += "AC types {} not available. ".format(sorted(not_found))
+
         if msg:
             msg += "Available columns = {}. ".format(self.available_columns())
             raise MeasurementError(msg)
-- 
2.43.0


From 166c1d1a870d18eb8f76e5f9702d3d88f6b1af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:59 +0000
Subject: [PATCH 022/120] fix: load_series failed for physical quantities
 without AC type, such as voltage

---
 nilmtk/electric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..91885c0 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -627,8 +627,10 @@ class Electric(object):
             if chunk.empty:
                 yield chunk
                 continue
-            chunk_to_yield = chunk[physical_quantity].sum(axis=1, skipna=False)
-            ac_types = '+'.join(chunk[physical_quantity].columns)
+            # `chunk[physical_quantity]` would be a Series if there is no AC type
+            columns = chunk.loc[:, [physical_quantity]]
+            chunk_to_yield = columns.sum(axis=1, skipna=False)
+            ac_types = '+'.join(columns.columns.get_level_values(1))
             chunk_to_yield.name = (physical_quantity, ac_types)
             chunk_to_yield.timeframe = getattr(chunk, 'timeframe', None)
             chunk_to_yield.look_ahead = getattr(chunk, 'look_ahead', None)
-- 
2.43.0


From d3dc5629484ec985566a7d0381d5508f0960b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 023/120] fix: ElecMeter.load changed the caller's
 resample_kwargs, so the fill limit leaked into later loads

---
 nilmtk/elecmeter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index aa8bfb7..51a4e42 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -420,7 +420,8 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
-- 
2.43.0


From e94f984752b2a108afd5c3698d9724f712477e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 024/120] fix: loading with resampling appended its own node to
 the caller's preprocessing list

---
 nilmtk/electric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 91885c0..da8d963 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -142,8 +142,8 @@ class Electric(object):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            kwargs['preprocessing'] = kwargs.get('preprocessing', []) + [
+                Apply(func=resample_func)]
 
         return kwargs
 
-- 
2.43.0


From 8f695cc68f856e2d1a0b692d5a4218a8d74f196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 025/120] fix: ElecMeter.load raised TypeError for its
 documented default sample_period=None

---
 nilmtk/elecmeter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 51a4e42..6b2cd88 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -415,7 +415,7 @@ class ElecMeter(Hashable, Electric):
             print("ElecMeter.load")
             print(self)
 
-        if 'sample_period' in kwargs:
+        if kwargs.get('sample_period') is not None:
             kwargs.setdefault('resample', True)
 
         if kwargs.get('resample'):
@@ -426,8 +426,10 @@ class ElecMeter(Hashable, Electric):
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
                 default_sample_period = self.sample_period()
-                sample_period = kwargs.get('sample_period', default_sample_period)
-                
+                sample_period = kwargs.get('sample_period')
+                if sample_period is None:
+                    sample_period = default_sample_period
+
                 if default_sample_period is not None and sample_period < default_sample_period:
                     warn("The provided sample_period ({}) is shorter than the meter's sample_period ({})".format(
                         sample_period, default_sample_period
-- 
2.43.0


From 80575373ce989492cf8023a42468ea6d4f9722b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 026/120] fix: MeterGroup.load failed for sections that start
 or end in the hour repeated at the end of summer time

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..eefcfa1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From 2202b07b279cf6097ce7b96183d8b3ef69b824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 027/120] fix: MeterGroup.load with a chunksize delivered the
 sample at a chunk boundary twice, each time from only part of the data

---
 nilmtk/metergroup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index eefcfa1..9553826 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -710,8 +710,15 @@ class MeterGroup(Electric):
             yield pd.DataFrame(columns=columns)
             return
 
+        def split_on_sample_boundaries():
+            for section in sections:
+                aligned = TimeFrame(
+                    normalise_timestamp(section.start, freq), section.end)
+                for split in split_timeframes([aligned], duration_threshold):
+                    yield section.intersection(split)
+
         # Loop through each section to load
-        for section in split_timeframes(sections, duration_threshold):
+        for section in split_on_sample_boundaries():
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
             index = pd.date_range(
-- 
2.43.0


From dd825561b67d82d781bd03ab9ca4c6c07c5e86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 028/120] fix: MeterGroup.load could not load quantities to be
 averaged (voltage etc) and counted missing samples in the average

---
 nilmtk/metergroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9553826..4619d23 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1843,9 +1843,9 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
         columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
                               .intersection(physical_quantities))
         if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
+            counter_increment = pd.DataFrame(
+                {column: chunk_from_next_meter.loc[:, [column]].notnull().any(axis=1)
+                 for column in columns_to_average}, dtype=np.uint16)
             columns_to_average_counter = columns_to_average_counter.add(
                 counter_increment, fill_value=0)
             del counter_increment
-- 
2.43.0


From 68a0ec2287f4f821c825ab62fc82143514284366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 029/120] fix: phase angles were added up across meters because
 of a misspelt physical quantity

---
 nilmtk/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..8c96fd6 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor', 'phase angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
-- 
2.43.0


From 87b765e74834182091108175c492211dfaabc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 030/120] fix: dataframe_of_meters dropped all sections after
 the first one without data

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 4619d23..7aae0c7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -974,12 +974,14 @@ class MeterGroup(Electric):
         while True:
             chunks = []
             ids = []
+            exhausted = True
             for meter_id, generator in zip(identifiers, generators):
                 try:
                     chunk_from_next_meter = next(generator)
                 except StopIteration:
                     continue
 
+                exhausted = False
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
                     chunks.append(chunk_from_next_meter.sum(axis=1))
@@ -988,7 +990,7 @@ class MeterGroup(Electric):
                 df = pd.concat(chunks, axis=1)
                 df.columns = ids
                 segments.append(df)
-            else:
+            elif exhausted:
                 break
 
         if segments:
-- 
2.43.0


From 004d989b459d39b6c3c3a2a2d7b0e1caac9018f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 031/120] fix: dataframe_of_meters reported gaps in the data as
 zero power

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 7aae0c7..ff8496f 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -984,7 +984,7 @@ class MeterGroup(Electric):
                 exhausted = False
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
-                    chunks.append(chunk_from_next_meter.sum(axis=1))
+                    chunks.append(chunk_from_next_meter.sum(axis=1, min_count=1))
 
             if chunks:
                 df = pd.concat(chunks, axis=1)
-- 
2.43.0


From 7e59b0430792d86a8848f5504d2b1b5fd074c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:11 +0000
Subject: [PATCH 032/120] fix: total energy of a cumulative register was lost
 when its first or last sample was missing

---
 nilmtk/stats/totalenergy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..06f9756 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -70,7 +70,9 @@ def get_total_energy(df, max_sample_period):
         if physical_quantity == 'power':
             energy[ac_type] = _energy_for_power_series(series, max_sample_period)
         elif physical_quantity == 'cumulative energy':
-            energy[ac_type] = series.iloc[-1] - series.iloc[0]
+            series = series.dropna()
+            energy[ac_type] = (
+                series.iloc[-1] - series.iloc[0] if len(series) else 0.0)
         elif physical_quantity == 'energy':
             energy[ac_type] = series.sum()
 
-- 
2.43.0


From 27965611fb67343ac4259b191f190c1a4fe8003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:11 +0000
Subject: [PATCH 033/120] fix: MeterGroup.total_energy returned NaN or dropped
 AC types not measured by every meter

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index ff8496f..46b3bbd 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -874,7 +874,8 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From 9ed78659c18d1ad209a230af563ac8182825f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:11 +0000
Subject: [PATCH 034/120] fix: total energy counted the 'energy' sample shared
 by two chunks twice

---
 nilmtk/stats/totalenergy.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 06f9756..184828d 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,8 +22,15 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        previous_end = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # Consecutive chunks of a section share the row at their boundary
+            shares_first_row = (not chunk.empty and
+                                chunk.index[0] == previous_end)
+            if not chunk.empty:
+                previous_end = chunk.index[-1]
+            energy = get_total_energy(
+                chunk, max_sample_period, shares_first_row)
             self.results.append(chunk.timeframe, energy)
             yield chunk
 
@@ -36,13 +43,16 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, ignore_first_energy=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    ignore_first_energy : bool
+        If True then the first row was already counted with the previous
+        chunk so must not be added to the sum of 'energy' columns again.
 
     Returns
     -------
@@ -74,7 +84,7 @@ def get_total_energy(df, max_sample_period):
             energy[ac_type] = (
                 series.iloc[-1] - series.iloc[0] if len(series) else 0.0)
         elif physical_quantity == 'energy':
-            energy[ac_type] = series.sum()
+            energy[ac_type] = series.iloc[int(ignore_first_energy):].sum()
 
     return energy
 
-- 
2.43.0


From 7cf5303471d9603f64c463c0681d9312c4f9136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 035/120] fix: the intersection of [a, b] with [a, b) contained
 b, so statistics counted the sample at the excluded end of the window

---
 nilmtk/timeframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index d5c63b3..13d5997 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -172,7 +172,9 @@ class TimeFrame(object):
                 end = min(self.end, other.end)
 
             # set include_end
-            if end == other.end:
+            if self.end == other.end:
+                include_end = self.include_end and other.include_end
+            elif end == other.end:
                 include_end = other.include_end
             elif end == self.end:
                 include_end = self.include_end
-- 
2.43.0


From 63590b00cb9b3aef6a4697f316b95f37f96de932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 036/120] fix: good sections raised IndexError if all samples
 following a chunk were missing values

---
 nilmtk/stats/goodsections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..11b80ab 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -126,9 +126,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 07c5c597999405f94035e8853430b3704a06cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 037/120] fix: a good section reaching the end of one section
 was continued in the next one, however far apart they are

---
 nilmtk/stats/goodsections.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 11b80ab..75a01b7 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numpy import diff, concatenate
 import gc
+from datetime import timedelta
 from .goodsectionsresults import GoodSectionsResults
 from ..timeframe import TimeFrame
 from ..utils import timedelta64_to_secs
@@ -22,6 +23,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,16 +63,24 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # A good section can only continue in an adjacent chunk
+        # (see `GoodSectionsResults.combined()`)
+        if not (self.end_of_previous_chunk is not None and
+                (self.end_of_previous_chunk - timedelta(seconds=max_sample_period))
+                <= timeframe.start <= self.end_of_previous_chunk):
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
             self.previous_chunk_ended_with_open_ended_good_section)
 
         # Set self.previous_chunk_ended_with_open_ended_good_section
-        if good_sections:
-            self.previous_chunk_ended_with_open_ended_good_section = (
-                good_sections[-1].end is None)
+        self.previous_chunk_ended_with_open_ended_good_section = (
+            bool(good_sections) and good_sections[-1].end is None)
 
+        if good_sections:
             # Update self.results
             self.results.append(timeframe, {'sections': [good_sections]})
 
-- 
2.43.0


From 34a095ae46e739a6c5eb0bd1a1a60965114cb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 038/120] fix: GoodSectionsResults.combined modified its own
 data, so that asking twice gave different answers

---
 nilmtk/stats/goodsectionsresults.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..f3dbe60 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -46,7 +46,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # copy, so that merging does not modify `self._data`
+            row_sections = [TimeFrame(section) for section in row['sections']]
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
@@ -57,7 +58,8 @@ class GoodSectionsResults(Results):
                     <= index <=
                     end_date_of_prev_row)
 
-                if rows_are_adjacent and row_sections[0].start is None:
+                if (rows_are_adjacent and row_sections and
+                        row_sections[0].start is None):
                     assert sections[-1].end is None
                     sections[-1].end = row_sections[0].end
                     row_sections.pop(0)
-- 
2.43.0


From 869d816b88cb0ef6aa743d54ee5e6c13a1d69eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 039/120] fix: good sections raised ValueError if the only
 sample of a good section is the included end of the requested section

---
 nilmtk/stats/goodsectionsresults.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index f3dbe60..4d2e159 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -66,11 +66,7 @@ class GoodSectionsResults(Results):
                 else:
                     # row_sections[0] and sections[-1] were not in adjacent chunks
                     # so check if they are both open-ended and close them...
-                    if sections and sections[-1].end is None:
-                        try:
-                            sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
+                    self._close_last_section(sections, end_date_of_prev_row)
                     if row_sections and row_sections[0].start is None:
                         try:
                             row_sections[0].start = index
@@ -80,13 +76,21 @@ class GoodSectionsResults(Results):
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        self._close_last_section(sections, end_date_of_prev_row)
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
+    @staticmethod
+    def _close_last_section(sections, end):
+        """Close the last section at `end`, if it is open-ended."""
+        if sections and sections[-1].end is None:
+            if sections[-1].start is not None and sections[-1].start >= end:
+                sections.pop() # just a single instant
+            else:
+                sections[-1].end = end
+
     def unify(self, other):
         super(GoodSectionsResults, self).unify(other)
         for start, row in self._data.iterrows():
-- 
2.43.0


From c98f262065433e1bf46db7273ed6f75ca6eca100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:09 +0000
Subject: [PATCH 040/120] fix: dropout_rate(full_results=True) always failed
 unless gaps were counted

---
 nilmtk/elecmeter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 6b2cd88..63b120a 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -618,7 +618,9 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            kwargs_for_good_sections = dict(loader_kwargs, full_results=False)
+            loader_kwargs['sections'] = self.good_sections(
+                **kwargs_for_good_sections)
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
-- 
2.43.0


From 14f6bca7c5dd29fe35f1771d1450053571a849a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:09 +0000
Subject: [PATCH 041/120] fix: dropout rate counted sections with too few
 samples as free of dropouts, and failed if there are no good sections

---
 nilmtk/stats/dropoutrateresults.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 4b92bfa..34bfde8 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -1,3 +1,4 @@
+import numpy as np
 import matplotlib.pyplot as plt
 from ..results import Results
 from ..consts import SECS_PER_DAY
@@ -21,9 +22,15 @@ class DropoutRateResults(Results):
         -------
         dropout_rate : float, [0,1]
         """
-        tot_samples = self._data['n_samples'].sum()
-        proportion = self._data['n_samples'] / tot_samples
-        dropout_rate = (self._data['dropout_rate'] * proportion).sum()
+        if self._data.empty:
+            return np.nan
+        # Chunks with too few samples have no dropout rate
+        data = self._data[self._data['dropout_rate'].notnull()]
+        if data.empty:
+            return np.nan
+        tot_samples = data['n_samples'].sum()
+        proportion = data['n_samples'] / tot_samples
+        dropout_rate = (data['dropout_rate'] * proportion).sum()
         return dropout_rate
 
     def unify(self, other):
-- 
2.43.0


From 01acad323984eb20d19166c1bc541a20c4b82ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 042/120] fix: the Mean model counted missing samples as if
 they were zero

---
 nilmtk/disaggregate/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..b357085 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -22,7 +22,7 @@ class Mean(Disaggregator):
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
             app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['n_elem'] += int(np.sum(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From 580bd28523803286d8a71972ead0e99dacbb901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 043/120] fix: the Mean model lost the fractional watts of
 every chunk it was trained on

---
 nilmtk/disaggregate/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index b357085..03f9feb 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -21,7 +21,7 @@ class Mean(Disaggregator):
             print("Training %s in %s model".format(app_name, self.MODEL_NAME), end="\r")
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
-            app_dict['sum'] += int(np.nansum(power_.values))
+            app_dict['sum'] += float(np.nansum(power_.values))
             app_dict['n_elem'] += int(np.sum(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
-- 
2.43.0


From daccb6f11c4a78c9742d9f37ab471de74abde6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 044/120] fix: find_steady_states raised IndexError for data
 without any transition

---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..2f022f3 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From 79a37af4a222f016c09da063ba6ee69d20a7ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 045/120] fix: find_steady_states_transients raised ValueError
 if there is no data

---
 nilmtk/feature_detectors/steady_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index 2f022f3..570e315 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -30,6 +30,8 @@ def find_steady_states_transients(metergroup, columns, noise_level,
             state_threshold=state_threshold)
         steady_states_list.append(x)
         transients_list.append(y)
+    if not steady_states_list:
+        return [pd.DataFrame(), pd.DataFrame()]
     return [pd.concat(steady_states_list), pd.concat(transients_list)]
 
 
-- 
2.43.0


From d556abdbc66a1c8d527c2dedf0b0be99698ff927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 046/120] fix: PairBuffer.add_transition raised
 UnboundLocalError for transitions given as a list

---
 nilmtk/disaggregate/hart_85.py        | 3 +--
 nilmtk/legacy/disaggregate/hart_85.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..570eb7c 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -79,8 +79,7 @@ class PairBuffer(object):
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
         # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..05e7da1 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -79,8 +79,7 @@ class PairBuffer(object):
         # Check that we have both active and reactive powers.
         assert len(transition) == self._num_measurements
         # Convert as appropriate
-        if isinstance(transition, tuple):
-            mtransition = list(transition)
+        mtransition = list(transition)
         # Add transition to List of transitions (set marker as unpaired)
         mtransition.append(False)
         self.transition_list.append(mtransition)
-- 
2.43.0


From e9c891d3d96250880c0751ebaea6c310c9fe3485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 047/120] fix: Hart85 could not disaggregate with numpy 2
 because it assigns one-element arrays to scalars

---
 nilmtk/disaggregate/hart_85.py        | 10 ++++++----
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 570eb7c..0b63c76 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -513,7 +513,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            centroid = self.centroids.loc[appliance].values
             if ndim == 1:
+                centroid = centroid[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -524,10 +526,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = centroid
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -560,10 +562,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = centroid
                             i = i + 1
 
             di[appliance] = power
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 05e7da1..ee2cbef 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -361,7 +361,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            centroid = self.centroids.loc[appliance].values
             if ndim == 1:
+                centroid = centroid[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -372,10 +374,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = centroid
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -408,10 +410,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = centroid
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = centroid
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From 46e644fefd704479c47d9a0dcb38b552823bef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:20 +0000
Subject: [PATCH 048/120] fix: Hart85 recorded the learnt states by chained
 assignment, which pandas does not guarantee to keep

---
 nilmtk/disaggregate/hart_85.py        | 8 ++++----
 nilmtk/legacy/disaggregate/hart_85.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 0b63c76..6d88b14 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -304,10 +304,10 @@ class Hart85(Disaggregator):
                         abs_value_transient_minus_centroid["multidim"].idxmin())
                 if positive:
                     # Turned on
-                    states.loc[transient_tuple[0]][index_least_delta] = 1
+                    states.loc[transient_tuple[0], index_least_delta] = 1
                 else:
                     # Turned off
-                    states.loc[transient_tuple[0]][index_least_delta] = 0
+                    states.loc[transient_tuple[0], index_least_delta] = 0
         prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
@@ -446,10 +446,10 @@ class Hart85(Disaggregator):
                             abs_value_transient_minus_centroid["multidim"].idxmin())
                     if positive:
                         # Turned on
-                        states.loc[transient_tuple[0]][index_least_delta] = 1
+                        states.loc[transient_tuple[0], index_least_delta] = 1
                     else:
                         # Turned off
-                        states.loc[transient_tuple[0]][index_least_delta] = 0
+                        states.loc[transient_tuple[0], index_least_delta] = 0
             prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index ee2cbef..67077ff 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -320,10 +320,10 @@ class Hart85(Disaggregator):
                         abs_value_transient_minus_centroid["multidim"].idxmin())
                 if positive:
                     # Turned on
-                    states.loc[transient_tuple[0]][index_least_delta] = 1
+                    states.loc[transient_tuple[0], index_least_delta] = 1
                 else:
                     # Turned off
-                    states.loc[transient_tuple[0]][index_least_delta] = 0
+                    states.loc[transient_tuple[0], index_least_delta] = 0
         prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
-- 
2.43.0


From 9ed6b42525f0b14d739161d0e44de1938e05237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 049/120] fix: Hart85 returned a prediction for the last chunk
 of mains only, from the transitions of the first one

---
 nilmtk/disaggregate/hart_85.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 6d88b14..48184a1 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -404,7 +404,7 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -479,15 +479,14 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
- 
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
-          
-        
+            temp_df=temp_df.fillna(0)
+
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)
+
         return test_predictions_list
     
     def min_rmse_column(self,temp_df,gt_df):
-- 
2.43.0


From 8254ec81191cd7f09b2f5962b754354c139d7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 050/120] fix: Hart85 could not disaggregate a chunk without
 any transition

---
 nilmtk/disaggregate/hart_85.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 48184a1..494a8a0 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -455,7 +455,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
-- 
2.43.0


From 172e68091d5e8a05aad5ae26b73e62a5f321135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:12 +0000
Subject: [PATCH 051/120] fix: Hart85 took the state of an appliance at the end
 of a chunk for its state at the beginning

---
 nilmtk/disaggregate/hart_85.py        | 2 --
 nilmtk/legacy/disaggregate/hart_85.py | 1 -
 2 files changed, 3 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 494a8a0..8f1101d 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -308,7 +308,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0], index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
@@ -450,7 +449,6 @@ class Hart85(Disaggregator):
                     else:
                         # Turned off
                         states.loc[transient_tuple[0], index_least_delta] = 0
-            prev = states.iloc[-1].to_dict()
             power_chunk_dict = self.assign_power_from_states(states, prev)
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 67077ff..198d6f0 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -324,7 +324,6 @@ class Hart85(Disaggregator):
                 else:
                     # Turned off
                     states.loc[transient_tuple[0], index_least_delta] = 0
-        prev = states.iloc[-1].to_dict()
         power_chunk_dict = self.assign_power_from_states(states, prev)
         self.power_dict = power_chunk_dict
         self.chunk_index = chunk.index
-- 
2.43.0


From 7a116c26164723aef225caecdd8c0100fdefa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 052/120] fix: FHMM lost the probabilities of a state whose
 mean equals that of another state

---
 nilmtk/disaggregate/fhmm_exact.py        | 9 ++-------
 nilmtk/legacy/disaggregate/fhmm_exact.py | 9 ++-------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..42eb16c 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,14 +128,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
     # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    order = np.argsort(np.asarray(means).flatten(), kind='stable')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index fd82e0c..ed5783a 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -126,14 +126,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
     # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    order = np.argsort(np.asarray(means).flatten(), kind='stable')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From 9b7748a8c60b6cefd5b1dad8e8ceb565956c7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 053/120] fix: statistics cached while a section lay outside
 the window were returned after the window was changed

---
 nilmtk/elecmeter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 63b120a..fd85141 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -689,6 +689,8 @@ class ElecMeter(Hashable, Electric):
             tf.include_end = True
             sections = [tf]
         sections = TimeFrameGroup(sections)
+        # The store only delivers the part of each section within its window
+        sections = [s.intersection(self.store.window) for s in sections]
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-- 
2.43.0


From 58c595bb1442e13eb84c5da7747cdc2a990ff6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 054/120] fix: statistics cached for other options, sections or
 chunks were returned for a different request

---
 nilmtk/elecmeter.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index fd85141..ffc52f2 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,6 +1,7 @@
 from warnings import warn
 from collections import namedtuple
 from copy import deepcopy
+from hashlib import md5
 import numpy as np
 import pandas as pd
 from .preprocessing import Clip
@@ -694,7 +695,14 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
+        # Results depend on the options and on all sections (a good section
+        # may continue in the next one), so only reuse those of the same request
+        request = (sorted((key, str(value)) for key, value in loader_kwargs.items()
+                          if key not in ['sections', 'verbose']),
+                   [(str(s), s.include_end) for s in sections])
+        key_for_cached_stat = self.key_for_cached_stat(
+            '{}/{}'.format(results_obj.name,
+                           'request' + md5(repr(request).encode()).hexdigest()))
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
@@ -729,14 +737,17 @@ class ElecMeter(Hashable, Electric):
             # Merge cached results with newly computed
             results_obj.update(computed_result.results)
 
-            # Save to disk newly computed stats
-            stat_for_store = computed_result.results.export_to_cache()
-            try:
-                self.cache.append(key_for_cached_stat, stat_for_store)
-            except ValueError:
-                # the old table probably had different columns
-                self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+            # Save to disk newly computed stats (unless sections were
+            # processed in several chunks, which cannot be looked up again)
+            if (loader_kwargs.get('preprocessing') is None and
+                    set(computed_result.results.timeframes()) <= set(sections)):
+                stat_for_store = computed_result.results.export_to_cache()
+                try:
+                    self.cache.append(key_for_cached_stat, stat_for_store)
+                except ValueError:
+                    # the old table probably had different columns
+                    self.cache.remove(key_for_cached_stat)
+                    self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
 
         if full_results:
             return results_obj
-- 
2.43.0


From e4a368402a695911c558da01304064b8f29a398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 055/120] fix: cached statistics of one dataset were returned
 for the same meter of another dataset

---
 nilmtk/elecmeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index ffc52f2..8a99156 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -812,8 +812,10 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        # All datasets share one cache
+        dataset = md5(str(self.dataset()).encode()).hexdigest()
+        return ("dataset{}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(dataset, self.building(), meter_str, stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 5bb9f7c205079d6e23129b5b96b39c12b9f2df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:30 +0000
Subject: [PATCH 056/120] fix: an AC type without an energy result for a
 section came back from the cache as zero energy

---
 nilmtk/stats/totalenergyresults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/totalenergyresults.py b/nilmtk/stats/totalenergyresults.py
index 89e2b2d..4401a92 100644
--- a/nilmtk/stats/totalenergyresults.py
+++ b/nilmtk/stats/totalenergyresults.py
@@ -39,5 +39,6 @@ class TotalEnergyResults(Results):
         return self.combined()
 
     def export_to_cache(self):
-        return self._data.fillna(0).apply(pd.to_numeric, errors='ignore')
+        # An AC type without a result for some section must stay missing
+        return self._data.apply(pd.to_numeric, errors='ignore')
                 
-- 
2.43.0


From ee35c01ec89be2bf0adc068e9eafa7c537d205e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:21 +0000
Subject: [PATCH 057/120] fix: Clip ignored a measurement's limit unless both
 limits were given

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..79a830d 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -28,7 +28,7 @@ class Clip(Node):
                 lower, upper = _find_limits(measurement, measurements)
                 lower = lower if self.lower is None else self.lower
                 upper = upper if self.upper is None else self.upper
-                if lower is not None and upper is not None:
+                if lower is not None or upper is not None:
                     # We use `chunk.iloc[:,icol]` instead of iterating
                     # through each column so we can to the clipping in place
                     icol = index_of_column_name(chunk, measurement)
-- 
2.43.0


From 97f0f4c5e234950a175321ef9bf0871e4a2ddb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:21 +0000
Subject: [PATCH 058/120] fix: Clip never applied the limits of measurements
 without an AC type, e.g. voltage

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index 79a830d..f059d55 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,7 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        if ((m.get('physical_quantity'), m.get('type', '')) == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From d2a831c98f1030e281b3fb4774175d0f712d149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 059/120] fix: the upstream meter came from a previously opened
 dataset of the same name

---
 nilmtk/elecmeter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 8a99156..4484030 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -60,8 +60,12 @@ class ElecMeter(Hashable, Electric):
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
             assert isinstance(self.identifier, ElecMeterID)
-            if self not in nilmtk.global_meter_group.meters:
-                nilmtk.global_meter_group.meters.append(self)
+            known_meters = nilmtk.global_meter_group.meters
+            if self not in known_meters:
+                known_meters.append(self)
+            elif self.store is not None:
+                # The dataset was opened again, the known meter may be closed
+                known_meters[known_meters.index(self)] = self
 
     @property
     def key(self):
-- 
2.43.0


From c4883e8d19ae5edf4cc3c50502f603c6055e52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 060/120] fix: most_common relied on Series.sort, removed from
 pandas

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..e899771 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts = counts.sort_values()
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From b42624189d329df8ec4a89d0d485e802aef605d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 061/120] fix: energy_per_meter with mains looked for the most
 common AC type among the meter identifiers

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 46b3bbd..f8fe41f 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1187,7 +1187,8 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        ac_types = [ac_type for ac_type, energies in energy_per_meter.iterrows()
+                    for _ in range(energies.count())]
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
-- 
2.43.0


From 7268c9d67e8f0aa177389a9e394aeddb0babf890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 062/120] fix: the energy bar plot relied on Series.sort,
 removed from pandas

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index f8fe41f..6761878 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1599,7 +1599,7 @@ class MeterGroup(Electric):
         energy = self.energy_per_meter(mains=mains, per_period='D',
                                         use_meter_labels=True)
 
-        energy.sort(ascending=False)
+        energy = energy.sort_values(ascending=False)
 
         # Plot
         ax = pd.DataFrame(energy).T.plot(kind='bar', stacked=True, grid=True,
-- 
2.43.0


From 1e8ea8136a5ef691fe3fa7a5f095606115d399be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 063/120] fix: grouping by appliance metadata failed for groups
 with a meter without appliances

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 6761878..e05ec22 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -493,7 +493,9 @@ class MeterGroup(Electric):
     def dominant_appliances(self):
         appliances = set()
         for meter in self.meters:
-            appliances.add(meter.dominant_appliance())
+            appliance = meter.dominant_appliance()
+            if appliance is not None:
+                appliances.add(appliance)
         return list(appliances)
 
     def values_for_appliance_metadata_key(self, key, 
-- 
2.43.0


From 5627d7dcc9d077a657933f45a8d34097e229b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 064/120] fix: entropy failed on Python 3

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index da8d963..79cd913 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -515,7 +515,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean(list(map(log, nn))))/log(base)
 
         out = []
         for power in self.power_series():
-- 
2.43.0


From 107476d0498bc12fd9ad6c997c7d112c144e2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 065/120] fix: plot_spectrum called the scipy.fft module

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 79cd913..bb15126 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -3,7 +3,7 @@ import numpy as np
 from collections import Counter
 from warnings import warn
 import scipy.spatial as ss
-from scipy import fft
+from scipy.fft import fft
 from pandas.plotting import lag_plot, autocorrelation_plot
 from scipy.special import digamma,gamma
 from math import log,pi
-- 
2.43.0


From c0cd3a2c29abb35eaae9cf1e28af8ac07ebd64d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 066/120] fix: activity_histogram relied on an argument removed
 from pandas

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index bb15126..0c053bc 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -698,7 +698,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From 1c7af6d8f29ae8dc6d0e211ac08ed6329bc3d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:18 +0000
Subject: [PATCH 067/120] fix: aligning two meters stopped at the first short
 section of the master meter

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 0c053bc..d472068 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -845,7 +845,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From 7181d4c5437cdf63c3b880956fd79938a4626646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 068/120] fix: activity_histogram failed for data across a
 daylight saving transition

---
 nilmtk/electric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d472068..c8d99da 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -690,6 +690,9 @@ class Electric(object):
                 continue
 
             on_chunk = on_chunk.fillna(0).astype(int)
+            # Use wall clock time because days with a daylight saving
+            # transition do not have the usual number of bins
+            on_chunk = on_chunk.tz_localize(None).groupby(level=0).max()
 
             # Trick using resample to 'normalise' start and end dates
             # to natural boundaries of 'period'.
-- 
2.43.0


From c4a187c1741affe53e534500704973aa6eb70d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 069/120] fix: activity_histogram dropped the first week of a
 weekly histogram

---
 nilmtk/electric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index c8d99da..00a248a 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -696,7 +696,8 @@ class Electric(object):
 
             # Trick using resample to 'normalise' start and end dates
             # to natural boundaries of 'period'.
-            resampled_to_period = on_chunk.iloc[[0, -1]].resample(period).mean().index
+            resampled_to_period = on_chunk.iloc[[0, -1]].resample(
+                period, closed='left', label='left').mean().index
             start = resampled_to_period[0]
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
-- 
2.43.0


From 5aa125e964be177c14ad101c55f2c3ea6e45c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:39 +0000
Subject: [PATCH 070/120] fix: the proportion of upstream energy was undefined
 if the upstream meter also measures a better AC type

---
 nilmtk/electric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 00a248a..e959f76 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -213,6 +213,10 @@ class Electric(object):
         proportion_of_energy = (self.total_energy(sections=upstream_good_sects) /
                                 upstream.total_energy(sections=upstream_good_sects))
         if isinstance(proportion_of_energy, pd.Series):
+            # Only consider AC types measured by both meters
+            proportion_of_energy = proportion_of_energy.dropna()
+            if proportion_of_energy.empty:
+                return np.nan
             best_ac_type = select_best_ac_type(proportion_of_energy.keys())
             return proportion_of_energy[best_ac_type]
         else:
-- 
2.43.0


From 32c9a848c5d093e90be3ca4f8728f22031e302ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:36 +0000
Subject: [PATCH 071/120] fix: f1_score failed if the meters have no common
 sample in one of the chunks

---
 nilmtk/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..b1c4ed0 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -219,6 +219,8 @@ def f1_score(predictions, ground_truth):
             pred_meter, ground_truth_meter, 'when_on')
         for aligned_states_chunk in aligned_meters:
             aligned_states_chunk.dropna(inplace=True)
+            if aligned_states_chunk.empty:
+                continue
             aligned_states_chunk = aligned_states_chunk.astype(int)
             score = sklearn_f1_score(aligned_states_chunk.iloc[:, 0],
                                      aligned_states_chunk.iloc[:, 1])
-- 
2.43.0


From 3a04344e0c876e7b84b1273ccbe3584152a3af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:30 +0000
Subject: [PATCH 072/120] fix: the correlation of meters with gaps was wrong
 because missing samples were counted

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index e959f76..d22ecb3 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -334,7 +334,7 @@ class Electric(object):
             n = 0
             cumulator = 0.0
             for power in electric.power_series(**load_kwargs):
-                n += len(power.index)
+                n += power.count()
                 cumulator += power.sum()
             return n, cumulator
 
-- 
2.43.0


From c1cf249c33d4df1556bda565ecffb369504b6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:44 +0000
Subject: [PATCH 073/120] fix: unifying results for different time frames
 failed with KeyError instead of RuntimeError

---
 nilmtk/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..a0295ea 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -122,8 +122,8 @@ class Results(object):
         """
         assert isinstance(other, self.__class__)
         for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
+            if (i not in other._data.index or
+                other._data['end'].loc[i] != row['end']):
                 raise RuntimeError("The sections we are trying to merge"
                                    " do not have the same end times so we"
                                    " cannot merge them.")
-- 
2.43.0


From e0be00f3d230090628638c819143973b56bf322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:44 +0000
Subject: [PATCH 074/120] fix: energy results of meters with different AC types
 could not be unified

---
 nilmtk/stats/totalenergyresults.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nilmtk/stats/totalenergyresults.py b/nilmtk/stats/totalenergyresults.py
index 4401a92..c6636d2 100644
--- a/nilmtk/stats/totalenergyresults.py
+++ b/nilmtk/stats/totalenergyresults.py
@@ -27,10 +27,11 @@ class TotalEnergyResults(Results):
 
     def unify(self, other):
         super(TotalEnergyResults, self).unify(other)
-        ac_types = set(self._data.columns) - set(['end'])
-        for i, row in self._data.iterrows():
-            for ac_type in ac_types:
-                self._data[ac_type].loc[i] += other._data[ac_type].loc[i]
+        # Like when adding total energies, an AC type which is only
+        # measured by one of the meters counts as zero for the other.
+        other_data = other._data.loc[self._data.index].drop(columns='end')
+        total = self._data.drop(columns='end').add(other_data, fill_value=0)
+        self._data = self._data[['end']].join(total)
 
     def to_dict(self):
         return {'total_energy': self.combined().to_dict()}
-- 
2.43.0


From 7d1818761185b15a8a5484229b4f59e39ec91492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 075/120] fix: full results of groups of groups failed because
 a group has no store

---
 nilmtk/metergroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index e05ec22..0c67706 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -888,6 +888,7 @@ class MeterGroup(Electric):
                                                **load_kwargs)
             collected_stats.append(single_stat)
             if (full_results and len(self.meters) > 1 and
+                    not isinstance(meter, MeterGroup) and
                     not meter.store.all_sections_smaller_than_chunksize):
                 warnings.warn("at least one section requested from '{}' required"
                      " multiple chunks to be loaded into memory. This may cause"
-- 
2.43.0


From b8fb9f170ec3317f5ebb006d9ce9ae39a9c9b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:15 +0000
Subject: [PATCH 076/120] fix: chunk-wise training failed because partial_fit
 takes the epoch as keyword

---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..dd183b1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From ccf79de780b9d17002596e2b517d439dd41e8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 077/120] fix: matching appliances by 'count' or 'index'
 compared with a method of the identifier tuple

---
 nilmtk/appliance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/appliance.py b/nilmtk/appliance.py
index a43508e..4b0f53d 100644
--- a/nilmtk/appliance.py
+++ b/nilmtk/appliance.py
@@ -116,7 +116,7 @@ class Appliance(Hashable):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in self.identifier._fields:
                 if Appliance.allow_synonyms and k == 'type':
                     synonyms = self.type.get('synonyms', [])
                     synonyms.append(self.identifier.type)
-- 
2.43.0


From 076836cc371c97fdae7067241c11db514fa30657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 078/120] fix: matching meters by 'count' or 'index' compared
 with a method of the identifier tuple

---
 nilmtk/elecmeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 4484030..906c0f3 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -329,7 +329,7 @@ class ElecMeter(Hashable, Electric):
 
         match = True
         for k, v in key.items():
-            if hasattr(self.identifier, k):
+            if k in getattr(self.identifier, '_fields', ()):
                 if getattr(self.identifier, k) != v:
                     match = False
 
-- 
2.43.0


From 8b2d0dd9087182e3f47df43177945d4f5bb009f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 079/120] fix: equal meter groups had different hashes

---
 nilmtk/metergroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 0c67706..fd6b181 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
+        Provide a hash based on the MeterGroup's meters, in any order, so
+        that equal MeterGroups have equal hashes
         """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From 575e80936fbcc5cf93ccf1d94564f65370be7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 080/120] fix: selecting by a list of values selected a meter
 that matches several of them more than once

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index fd6b181..33dba75 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -365,7 +365,9 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        # a meter can match several values of a list
+                        if meter not in selected_meters:
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From 4f64f2cc0f24cda4c83dc3395748bcdd86da3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 081/120] fix: meters could not be sorted if a group contains a
 nested group

---
 nilmtk/metergroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 33dba75..d3764b6 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1877,4 +1877,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     return cumulator
 
 
-meter_sorting_key = lambda meter: meter.instance()
+def meter_sorting_key(meter):
+    # The instance of a nested MeterGroup is a tuple
+    instance = meter.instance()
+    return instance if isinstance(instance, tuple) else (instance,)
-- 
2.43.0


From 2e899f66da880589bf818bca3e69dd6eb08f8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 082/120] fix: grouping by category gave no groups

---
 nilmtk/metergroup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d3764b6..caad647 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -522,6 +522,8 @@ class MeterGroup(Electric):
             value = appliance.metadata.get(key)
             append_or_extend_list(values, value)
             value = appliance.type.get(key)
+            if key == 'category':
+                value = appliance.categories()
             append_or_extend_list(values, value)
         return list(set(values))
 
-- 
2.43.0


From e27247d7a7d7c0425ec04495c6c79ab338176dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 083/120] fix: meters below the mains had the disabled,
 redundant mains meters upstream as well

---
 nilmtk/elecmeter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 906c0f3..cf86e48 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -135,6 +135,12 @@ class ElecMeter(Hashable, Electric):
                                      dataset=self.identifier.dataset)
 
         upstream_meter = nilmtk.global_meter_group[id_of_upstream]
+        if isinstance(upstream_meter, nilmtk.MeterGroup):
+            # `global_meter_group` also contains the disabled site meters
+            enabled = [m for m in upstream_meter.meters
+                       if not m.metadata.get('disabled')]
+            if enabled:
+                upstream_meter = nilmtk.MeterGroup(enabled).mains()
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
-- 
2.43.0


From 0ff48258074c9117300c2d92b4382b9e7bb790a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:24 +0000
Subject: [PATCH 084/120] fix: CSVDataStore could not load tables which span a
 clock change in a local time zone

---
 nilmtk/datastore/csvdatastore.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 4999338..f2e4161 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -256,7 +256,14 @@ class CSVDataStore(DataStore):
             names=data.columns.names)
         if not isinstance(data.index, pd.DatetimeIndex):
             # e.g. pandas writes '2012-01-01' if all rows are at midnight
-            data.index = pd.to_datetime(data.index, format='mixed')
+            try:
+                data.index = pd.to_datetime(data.index, format='mixed')
+            except ValueError:
+                # the UTC offset differs, i.e. the clock changes
+                data.index = pd.to_datetime(data.index, format='mixed', utc=True)
+        if data.index.tz is not None:
+            # the same zone for all chunks, whatever their UTC offset
+            data.index = data.index.tz_convert('UTC')
         return data
 
     def _get_metadata_path(self):
-- 
2.43.0


From 3b96f41b9ffe7c264e7dc187b351e8b8aa6d211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 085/120] fix: converters of AMPds, caxe, COMBED and iAWE
 called DataFrame.drop with a positional axis, which pandas 2 rejects

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py     | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..ca5be74 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..9cf963d 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..c6e59a0 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop("timestamp", axis=1)
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..145555e 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 9a334378b0ab1bf2f2c4cf82b1ec3faec0d6c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 086/120] fix: iAWE converter filled gaps through a chained
 inplace call, which need not reach the frame

---
 nilmtk/dataset_converters/iawe/convert_iawe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 145555e..c811c7c 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -16,9 +16,9 @@ def reindex_fill_na(df, idx):
     non_power_columns = [x for x in df.columns if x not in power_columns]
 
     for power in power_columns:
-        df_copy[power].fillna(0, inplace=True)
+        df_copy[power] = df_copy[power].fillna(0)
     for measurement in non_power_columns:
-        df_copy[measurement].fillna(df[measurement].median(), inplace=True)
+        df_copy[measurement] = df_copy[measurement].fillna(df[measurement].median())
 
     return df_copy
 
-- 
2.43.0


From 88ba0b7170f707486f213864575fa03f2864a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 087/120] fix: COMBED converter dropped meters without a
 Current file and left the store open while adding metadata

---
 nilmtk/dataset_converters/combed/convert_combed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index c6e59a0..fe6f6c6 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -57,6 +57,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                 building_number = building_number_mapping[building_name]
                 key = Key(building=building_number, meter=meter_number)
                 dfs = []
+                exists = False
                 for attribute in column_mapping.keys():
                     filename_attribute = join(combed_path, building_name, load_name, load_mapping_path, "%s.csv" %attribute)
                     if not os.path.isfile(filename_attribute):
@@ -71,9 +72,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
                         df = df.drop("timestamp", axis=1)
                         dfs.append(df)
-                    else:
-                        exists = False
-                        
+
                 if exists:
                     total = pd.concat(dfs, axis=1)
                     total = total.tz_localize('UTC').tz_convert('Asia/Kolkata')
@@ -83,6 +82,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                     store.put(str(key), total)
                     any_file_converted = True
                     
+    store.close()
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
-- 
2.43.0


From ac11885c04aa4b2110d948fdbe9c19eaadc067d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 088/120] fix: GREEND converter used error_bad_lines, which
 pandas 2 removed

---
 nilmtk/dataset_converters/greend/convert_greend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..b63ce94 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,10 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
-                ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
-            )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            on_bad_lines = 'error'
+            if 'building5' in filename and 'dataset_2014-02-04.csv' in filename:
+                on_bad_lines = 'warn'
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, on_bad_lines=on_bad_lines)
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From 192c5adf2283220431f55f3ff77d8a03d66752f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 089/120] fix: GREEND converter numbered meters by directory
 order without multiprocessing

---
 nilmtk/dataset_converters/greend/convert_greend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index b63ce94..c179c7d 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -131,7 +131,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
     for house in houses:
         print('Loading', house)
         abs_house = join(greend_path, house)
-        dates = [d for d in listdir(abs_house) if d.startswith('dataset')]
+        dates = sorted(d for d in listdir(abs_house) if d.startswith('dataset'))
         target_filenames = [join(abs_house, date) for date in dates]
         if use_mp:
             house_data = pool.map(_get_blocks, target_filenames)
-- 
2.43.0


From a3dd063677f6bf7a6333dbddf61c8f09530f6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 090/120] fix: GREEND converter added metadata while the store
 was open and leaked its process pool

---
 nilmtk/dataset_converters/greend/convert_greend.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index c179c7d..f1cc384 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -173,12 +173,16 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
             
         h += 1
 
-	# retrieve the dataset metadata in the metadata subfolder
+    if use_mp:
+        pool.close()
+        pool.join()
+
+    # retrieve the dataset metadata in the metadata subfolder
     metadata_dir = join(get_module_directory(), 'dataset_converters', 'greend', 'metadata')
-    convert_yaml_to_hdf5(metadata_dir, hdf_filename)
-    
+
     # close h5
     store.close()
+    convert_yaml_to_hdf5(metadata_dir, hdf_filename)
 
 #is only called when this file is the main file... only test purpose
 if __name__ == '__main__':
-- 
2.43.0


From dd635b3e871e8750e2d098238b1850ca8f9f4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 091/120] fix: DEDDIAG converter could not be imported:
 Timestamp has no freq in pandas 2

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index a42020a..ffdb571 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -21,8 +21,8 @@ measurements_conf = [['power'], ['active']]
 DEFAULT_TZ = 'Europe/Berlin'
 
 # Analyzed time period
-DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00', freq='MS')
-DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59', freq='MS')
+DEFAULT_START_DATE = Timestamp('2017-10-21 00:00:00')
+DEFAULT_END_DATE = Timestamp('2018-01-18 23:59:59')
 
 # channels
 channels = [24, 26, 27, 28, 35, 51, 52, 53, 59]
-- 
2.43.0


From ce7b7cd8bb78fdbb395494fa92d4c5fae1115ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 092/120] fix: DEDDIAG converter did not close its output

---
 nilmtk/dataset_converters/deddiag/convert_deddiag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/dataset_converters/deddiag/convert_deddiag.py b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
index ffdb571..d047360 100644
--- a/nilmtk/dataset_converters/deddiag/convert_deddiag.py
+++ b/nilmtk/dataset_converters/deddiag/convert_deddiag.py
@@ -62,6 +62,7 @@ def convert_deddiag(connection,
 
     # Add metadata
     save_yaml_to_datastore(path_to_metadata, dest_file)
+    dest_file.close()
 
     print("Done converting DEDDIAG to HDF5!")
 
-- 
2.43.0


From bcde5836efce531214addb00c1fd9de48671d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 093/120] fix: HIPE converter looked for its metadata in the
 working directory

---
 nilmtk/dataset_converters/hipe/convert_hipe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hipe/convert_hipe.py b/nilmtk/dataset_converters/hipe/convert_hipe.py
index 541bf35..b8d5715 100644
--- a/nilmtk/dataset_converters/hipe/convert_hipe.py
+++ b/nilmtk/dataset_converters/hipe/convert_hipe.py
@@ -35,7 +35,8 @@ def convert_hipe(hipe_path, output_filename, format="HDF"):
     _convert(hipe_path, datastore,
              _hipe_measurement_mapping_func, "Europe/Berlin")
 
-    metadata_path = "metadata"
+    metadata_path = join(get_module_directory(), "dataset_converters",
+                         "hipe", "metadata")
 
     save_yaml_to_datastore(metadata_path, datastore)
 
-- 
2.43.0


From 99c40b6d426bbc9442e1addebd99d97b846e7df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 094/120] fix: SMART converter changed the working directory

---
 nilmtk/dataset_converters/smart/convert_smart.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index cede480..be99c6d 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -222,7 +222,6 @@ def _find_all_csv_paths(input_path, house_id, year):
     """
     house_year_path = (input_path + '/' + 'Home' + house_id + '/' + year)
     extension = 'csv'
-    os.chdir(house_year_path)
     csv_names = glob.glob(house_year_path + '/*.csv')
 
     txt_paths = glob.glob(house_year_path + '/*.txt')
-- 
2.43.0


From a4b8cc71ae228fea7b10e7f1ef53b58ecc177ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 095/120] fix: SMART converter concatenated years and meters in
 directory order

---
 nilmtk/dataset_converters/smart/convert_smart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index be99c6d..181dc67 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -211,7 +211,7 @@ def _find_year(input_path, house_id):
                 'Home' +
                 house_id,
                 p))]
-    return year_names
+    return sorted(year_names)
 
 
 def _find_all_csv_paths(input_path, house_id, year):
@@ -224,7 +224,7 @@ def _find_all_csv_paths(input_path, house_id, year):
     extension = 'csv'
     csv_names = glob.glob(house_year_path + '/*.csv')
 
-    txt_paths = glob.glob(house_year_path + '/*.txt')
+    txt_paths = sorted(glob.glob(house_year_path + '/*.txt'))
 
     paths = []
     # Take only those csv files which have 30 minutes as sample period
-- 
2.43.0


From 5b474e5fb47fd8b9962f980721d9439bb5da044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 096/120] fix: SMART converter stored kilowatts as watts

---
 nilmtk/dataset_converters/smart/convert_smart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index 181dc67..8e92f8d 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -145,7 +145,8 @@ def _convert(input_path, store, measurement_mapping_func, tz, sort_index=True):
             print(chan_id, end=' ')
             stdout.flush()
             key = Key(building=b_cnt, meter=chan_id)
-            chan_df = pd.DataFrame(df_all_years[col])
+            # Readings are in kW
+            chan_df = pd.DataFrame(df_all_years[col]) * 1000
             chan_df.columns = pd.MultiIndex.from_tuples([('power', 'active')])
             chan_df.columns.set_names(LEVEL_NAMES, inplace=True)
 
-- 
2.43.0


From 2c2094b5556db991ad75f64c82bc1cbb8645feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 097/120] fix: HES converter used squeeze=True, which pandas 2
 removed from read_csv

---
 nilmtk/dataset_converters/hes/convert_hes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index eaf2c72..152124f 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -56,7 +56,7 @@ CIRCUIT_CODES = list(range(208, 218)) + [222]
 def load_list_of_house_ids(data_dir):
     """Returns a list of house IDs in HES (ints)."""
     filename = join(data_dir, 'anonhes', 'ipsos-anonymised-corrected_310713.csv')
-    series = pd.read_csv(filename, usecols=[0], index_col=False, squeeze=True)
+    series = pd.read_csv(filename, usecols=[0], index_col=False).squeeze('columns')
     return series.tolist()
 
 
-- 
2.43.0


From bc7e292037eef791faf138f001ff10b95f575f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 098/120] fix: HES converter stored the readings of the whole
 house under every appliance

---
 nilmtk/dataset_converters/hes/convert_hes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index 152124f..05ebf49 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -163,11 +163,11 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
                 nilmtk_house_id = house_codes.index(hes_house_id)+1
                 
                 # Iterate over appliances in house
-                for appliance_code, appliance_df in chunk.groupby('appliance code'):
+                for appliance_code, appliance_df in hes_house_id_df.groupby('appliance code'):
                     if appliance_code not in house_appliance_codes[hes_house_id]:
                         house_appliance_codes[hes_house_id].append(appliance_code)
                     nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
-                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, hes_house_id_df, store, appliance_code)
+                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, appliance_df, store, appliance_code)
                     
             chunk_i += 1
             
-- 
2.43.0


From 5da895903079db76924c05220958eeea9368bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 099/120] fix: HES converter dropped the metadata of appliances
 behind a mains, circuit or temperature channel

---
 nilmtk/dataset_converters/hes/convert_hes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index 05ebf49..4178169 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -194,12 +194,12 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
             if appliance_code in MAINS_CODES:
                 meter_metadata = {'device_model': 'multivoies',
                                   'site_meter': True}
-                break
+                continue
             elif appliance_code in CIRCUIT_CODES:
                 meter_metadata = {'device_model': 'multivoies'}
-                break
+                continue
             elif appliance_code in TEMPERATURE_CODES:
-                break
+                continue
             else: # is appliance
                 meter_metadata = {'device_model': 'wattmeter'}
                 
-- 
2.43.0


From 12262e0b487bd9ae94871ead3dd22572073aa3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 100/120] fix: Dataport CSV converter used the undefined name
 join

---
 nilmtk/dataset_converters/dataport/csv_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..db800e7 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -158,7 +158,7 @@ def create_tmp_metadata_dir():
     # Clear dynamic metadata (if any)
     for f in os.listdir(metadata_dir):
         if re.search('^building', f):
-            os.remove(join(metadata_dir, f))
+            os.remove(os.path.join(metadata_dir, f))
 
     return metadata_dir
 
-- 
2.43.0


From 60dac14f18a8e51c0877a5a4e8178088b5d5eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:28 +0000
Subject: [PATCH 101/120] fix: Dataport CSV converter listed appliances once
 per CSV file

---
 nilmtk/dataset_converters/dataport/csv_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index db800e7..17297c4 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -358,7 +358,9 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
                     app_id += 1
 
             app_metadata["instance"] = app_id
-            nilmtk_metadata[b_id]["appliances"].append(app_metadata)
+            # The building may have been found in an earlier CSV file already
+            if m_id + 1 not in nilmtk_metadata[b_id]["elec_meters"]:
+                nilmtk_metadata[b_id]["appliances"].append(app_metadata)
 
         nilmtk_metadata[b_id]["elec_meters"][m_id + 1] = meter_metadata
         print("\t" + " " * len(msg), end='\r')
-- 
2.43.0


From 26a86a34da9e64042d562e176135dc44ee17f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:14 +0000
Subject: [PATCH 102/120] fix: trained legacy models could not be exported
 because the statistics cache of a meter cannot be pickled

---
 nilmtk/elecmeter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index cf86e48..093d6c3 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -67,6 +67,16 @@ class ElecMeter(Hashable, Electric):
                 # The dataset was opened again, the known meter may be closed
                 known_meters[known_meters.index(self)] = self
 
+    def __getstate__(self):
+        # The statistics cache is shared and cannot be pickled
+        state = self.__dict__.copy()
+        state.pop('cache', None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.cache = nilmtk.STATS_CACHE
+
     @property
     def key(self):
         return self.metadata['data_location']
-- 
2.43.0


From ce12790e4e3012011311f391cc4079732c257733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 103/120] fix: plot_series relied on a private matplotlib
 function which no longer takes datetimes

---
 nilmtk/plots.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index a68003d..ed52f57 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -4,14 +4,6 @@ import matplotlib.dates as mdates
 import numpy as np
 from math import sqrt
 
-try:
-    _to_ordinalf_np_vectorized = np.vectorize(mdates._to_ordinalf)
-except:
-    try:
-        _to_ordinalf_np_vectorized = np.vectorize(mdates._dt64_to_ordinalf)
-    except:
-        raise RuntimeError('This matplotlib version is not supported.')
-
 
 def plot_series(series, ax=None, fig=None, 
                 date_format='%d/%m/%y %H:%M:%S', tz_localize=True, **kwargs):
@@ -39,8 +31,7 @@ def plot_series(series, ax=None, fig=None,
     if fig is None:
         fig = plt.gcf()
 
-    #TODO: we probably don't need this anymore
-    x = _to_ordinalf_np_vectorized(series.index.to_pydatetime())
+    x = mdates.date2num(series.index.to_pydatetime())
     ax.plot(x, series, **kwargs)
     tz = series.index.tzinfo if tz_localize else None
     ax.xaxis.set_major_formatter(
-- 
2.43.0


From ba09e725fea25f0ae8452ff1bf1ee444824984c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 104/120] fix: latexify gave matplotlib the LaTeX preamble as a
 list, which it rejects

---
 nilmtk/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index ed52f57..32cfdd7 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -111,7 +111,7 @@ def latexify(fig_width=None, fig_height=None, columns=1, fontsize=8):
 
     params = {
         'backend': 'ps',
-        'text.latex.preamble': ['\\usepackage{gensymb}'],
+        'text.latex.preamble': '\\usepackage{gensymb}',
         'axes.labelsize': fontsize,  # fontsize for x and y labels (was 10)
         'axes.titlesize': fontsize,
         'font.size': fontsize,
-- 
2.43.0


From c72db7e84eb7e0cd52bb9c89df6f4c8cee7d3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 105/120] fix: plot_pairwise_heatmap did not turn off the
 ticks, since 'off' is true

---
 nilmtk/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/plots.py b/nilmtk/plots.py
index 32cfdd7..1c7d476 100644
--- a/nilmtk/plots.py
+++ b/nilmtk/plots.py
@@ -66,7 +66,7 @@ def plot_pairwise_heatmap(df, labels, edgecolors='w',
     ax.set_aspect('equal')  # ensure heatmap cells are square
     ax.xaxis.set_ticks_position('top')  # put column labels at the top
     # turn off ticks:
-    ax.tick_params(bottom='off', top='off', left='off', right='off')
+    ax.tick_params(bottom=False, top=False, left=False, right=False)
 
     plt.yticks(np.arange(len(df.index)) + 0.5, labels)
     plt.xticks(np.arange(len(df.columns)) + 0.5, labels, rotation=90)
-- 
2.43.0


From 98afce49464b02bb180594b28061c18f4ae18599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 106/120] fix: plotting a dataset with a single building raised
 TypeError

---
 nilmtk/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset.py b/nilmtk/dataset.py
index c7bc7f1..ccd1d9e 100644
--- a/nilmtk/dataset.py
+++ b/nilmtk/dataset.py
@@ -114,7 +114,8 @@ class DataSet(object):
                                      for elec in self.elecs()]
             gridspec_kw = dict(height_ratios=n_meters_per_building)
             fig, axes = plt.subplots(
-                n, 1, sharex=True, gridspec_kw=gridspec_kw)
+                n, 1, sharex=True, squeeze=False, gridspec_kw=gridspec_kw)
+            axes = axes[:, 0]
 
         assert n == len(axes)
         for i, (ax, elec) in enumerate(zip(axes, self.elecs())):
@@ -146,7 +147,8 @@ class DataSet(object):
     def plot_mains_power_histograms(self, axes=None, **kwargs):
         n = len(self.buildings)
         if axes is None:
-            fig, axes = plt.subplots(n, 1, sharex=True)
+            fig, axes = plt.subplots(n, 1, sharex=True, squeeze=False)
+            axes = axes[:, 0]
         assert n == len(axes)
 
         for ax, elec in zip(axes, self.elecs()):
-- 
2.43.0


From ee1775af6b2ff70ff6f08cf54357176bb9c11606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 107/120] fix: plotting dropout rates added a number of days to
 a time stamp

---
 nilmtk/stats/dropoutrateresults.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 34bfde8..0a65d2c 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -1,7 +1,6 @@
 import numpy as np
 import matplotlib.pyplot as plt
 from ..results import Results
-from ..consts import SECS_PER_DAY
 
 class DropoutRateResults(Results):
     """
@@ -50,7 +49,7 @@ class DropoutRateResults(Results):
             ax = plt.gca()
         ax.xaxis.axis_date()
         for index, row in self._data.iterrows():
-            length = (row['end'] - index).total_seconds() / SECS_PER_DAY
+            length = row['end'] - index
             rect = plt.Rectangle((index, 0), # bottom left corner
                                  length,
                                  row['dropout_rate'], # width
-- 
2.43.0


From c18cc7de05218f86c64c3685312cb557f498ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 108/120] fix: plotting less data than half a second per pixel
 divided by a sample period of zero

---
 nilmtk/electric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d22ecb3..b1d0e0e 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -201,7 +201,9 @@ class Electric(object):
         # Calculate the resolution for the x axis
         duration = timeframe.timedelta.total_seconds()
         secs_per_pixel = int(round(duration / width))
-        kwargs.update({'sample_period': secs_per_pixel, 'resample': True})
+        kwargs['resample'] = True
+        if secs_per_pixel > 0:
+            kwargs['sample_period'] = secs_per_pixel
         return kwargs
 
     def proportion_of_upstream(self, **load_kwargs):
-- 
2.43.0


From 2598be81993bacba42bdb176e55e800390e0a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 109/120] fix: the energy bar put the label of the largest
 meter at the height of half the remainder

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index caad647..b9f348b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1616,7 +1616,7 @@ class MeterGroup(Electric):
                       labelpad=15)
 
         cumsum = energy.cumsum()
-        text_ys = cumsum - (cumsum.diff().fillna(energy['Remainder']) / 2)
+        text_ys = cumsum - energy / 2
         for kwh, (label, y) in zip(energy.values, text_ys.items()):
             label += " ({:.2f})".format(kwh)
             ax.annotate(label, (0, y), color='white', size=8,
-- 
2.43.0


From a6bb3473472b3eb704f5b53b49af483bfb7fa45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 110/120] fix: methods that inherit their documentation lost
 `self` on objects which are false

---
 nilmtk/docinherit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/docinherit.py b/nilmtk/docinherit.py
index acaeaec..814804a 100644
--- a/nilmtk/docinherit.py
+++ b/nilmtk/docinherit.py
@@ -49,7 +49,7 @@ class DocInherit(object):
 
         @wraps(self.mthd, assigned=('__name__', '__module__'))
         def f(*args, **kwargs):
-            if obj:
+            if obj is not None:
                 return self.mthd(obj, *args, **kwargs)
             else:
                 return self.mthd(*args, **kwargs)
-- 
2.43.0


From 78faacfc42fcf35a4f6c2138306157502aa036e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:10 +0000
Subject: [PATCH 111/120] fix: get_datastore(None) raised AttributeError or
 returned None instead of raising ValueError

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e899771..ec496d6 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -312,7 +312,7 @@ def get_datastore(filename, format=None, mode='r'):
     -------
     metadata : dict
     """
-    if not format:
+    if not format and filename is not None:
         if filename.endswith(".h5"):
             format = "HDF"
         elif filename.endswith(".csv"):
@@ -326,7 +326,7 @@ def get_datastore(filename, format=None, mode='r'):
         else:
             raise ValueError('format not recognised')
     else:
-        ValueError('filename is None')
+        raise ValueError('filename is None')
 
 
 def normalise_timestamp(timestamp, freq):
-- 
2.43.0


From dc2108d2795a1a35c1b9b85ac9aa49fc38c6e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:26 +0000
Subject: [PATCH 112/120] fix: a disabled TimeFrame accepted an end before its
 start

---
 nilmtk/timeframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 13d5997..7d0dcb9 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -80,7 +80,7 @@ class TimeFrame(object):
             self._start = None
             return
         new_start = pd.Timestamp(new_start)
-        if self.end and new_start >= self.end:
+        if self._end is not None and new_start >= self._end:
             raise ValueError("start date must be before end date")
         else:
             self._start = new_start
@@ -92,7 +92,7 @@ class TimeFrame(object):
             self._end = None
             return
         new_end = pd.Timestamp(new_end)
-        if self.start and new_end <= self.start:
+        if self._start is not None and new_end <= self._start:
             raise ValueError("end date must be after start date")
         else:
             self._end = new_end
-- 
2.43.0


From be44db20d35134a0f52226128cda38465804fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:38 +0000
Subject: [PATCH 113/120] fix: a meter without data in the window gave a
 DataFrame instead of a Series of power, so its correlation crashed

---
 nilmtk/electric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b1d0e0e..ff562d4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -631,7 +631,10 @@ class Electric(object):
         generator = self.load(**kwargs)
         for chunk in generator:
             if chunk.empty:
-                yield chunk
+                empty = pd.Series(index=chunk.index, dtype='float64')
+                empty.timeframe = getattr(chunk, 'timeframe', None)
+                empty.look_ahead = getattr(chunk, 'look_ahead', None)
+                yield empty
                 continue
             # `chunk[physical_quantity]` would be a Series if there is no AC type
             columns = chunk.loc[:, [physical_quantity]]
-- 
2.43.0


From 169c406d5d34d371546e27105a41590e04e9b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:38 +0000
Subject: [PATCH 114/120] fix: compute_rmse labelled appliances of the same
 type with bound methods instead of building and instance

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index ec496d6..149efee 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -454,8 +454,8 @@ def compute_rmse(ground_truth, predictions, pretty=True):
                 app = app_data[0]
                 app_data[1] = '{} ({}, {})'.format(
                     current_label,
-                    app.building,
-                    app.instance
+                    app.building(),
+                    app.instance()
                 )
             
     return pd.Series(dict(
-- 
2.43.0


From c90c8259ed82a3dfb814a3698369d582cd846f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 115/120] fix: loading a table with a single row from HDF gave
 an empty chunk, and converting the store lost it

---
 nilmtk/datastore/hdfdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 257ddaa..d16d512 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -74,7 +74,7 @@ class HDFDataStore(DataStore):
             if terms is None:
                 section_start_i = 0
                 section_end_i = self.store.get_storer(key).nrows - 1
-                if section_end_i <= 0:
+                if section_end_i < 0:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From e4692ce1c4de4e4c19f2824736181b82a869342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 116/120] fix: removing a table from HDF was not flushed, so a
 crash brought the table back

---
 nilmtk/datastore/hdfdatastore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index d16d512..d38c9f8 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -178,6 +178,7 @@ class HDFDataStore(DataStore):
     @doc_inherit
     def remove(self, key):
         self.store.remove(key)
+        self.store.flush()
 
     @doc_inherit
     def load_metadata(self, key='/'):
-- 
2.43.0


From 179adc9da3d359c69d5e992ef1612b8b507a6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 117/120] fix: Hart85 could not import an exported model, nor
 predict with it

---
 nilmtk/disaggregate/hart_85.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 8f1101d..843e0bc 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -581,8 +581,10 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, "rb") as pickle_in:
+            self.model = pickle.load(pickle_in)
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
-- 
2.43.0


From eeaa60773ae66d9f7a07b980a036ac1b77fddf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 118/120] fix: a group of a meter with and one without
 appliances claimed to have several dominant appliances

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index b9f348b..13f8dcc 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -147,9 +147,7 @@ class MeterGroup(Electric):
         return MeterGroup(set(self.meters).union(other.meters))
 
     def dominant_appliance(self):
-        dominant_appliances = [meter.dominant_appliance()
-                               for meter in self.meters]
-        dominant_appliances = list(set(dominant_appliances))
+        dominant_appliances = self.dominant_appliances()
         n_dominant_appliances = len(dominant_appliances)
         if n_dominant_appliances == 0:
             return
-- 
2.43.0


From 31a59032e30994aa336a7bdb327749bef0c79405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 119/120] fix: the union of time frames lost their inclusive
 end

---
 nilmtk/timeframe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 7d0dcb9..353e35d 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -132,7 +132,10 @@ class TimeFrame(object):
             end = None
         else:
             end = max(self.end, other.end)
-        return TimeFrame(start, end)
+        union = TimeFrame(start, end)
+        union.include_end = end is not None and any(
+            tf.include_end for tf in (self, other) if tf.end == end)
+        return union
 
     @property
     def timedelta(self):
-- 
2.43.0


From aa3dd8e952dac260927da8739929e00f9569d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 120/120] fix: CSVDataStore could not load tables with
 fractions of seconds which span a clock change in a local time zone

---
 nilmtk/datastore/csvdatastore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index f2e4161..bc67e4e 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -257,10 +257,13 @@ class CSVDataStore(DataStore):
         if not isinstance(data.index, pd.DatetimeIndex):
             # e.g. pandas writes '2012-01-01' if all rows are at midnight
             try:
-                data.index = pd.to_datetime(data.index, format='mixed')
+                index = pd.to_datetime(data.index, format='mixed')
             except ValueError:
+                index = None
+            if not isinstance(index, pd.DatetimeIndex):
                 # the UTC offset differs, i.e. the clock changes
-                data.index = pd.to_datetime(data.index, format='mixed', utc=True)
+                index = pd.to_datetime(data.index, format='mixed', utc=True)
+            data.index = index
         if data.index.tz is not None:
             # the same zone for all chunks, whatever their UTC offset
             data.index = data.index.tz_convert('UTC')
-- 
2.43.0


From 5d64c030260f17ef2f437240126d6376f5762c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:33 +0000
Subject: [PATCH 01/88] fix: use np.nan, since np.NaN no longer exists in NumPy
 2

---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From 58fc11d4f7e2d14c029deed51ec2f019d553d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 02/88] fix: pass HDF query terms as one expression

Since Python 3.12 inlines list comprehensions, pandas looks up the variables of
a list of terms one frame too far out, so every load restricted by a section or
by the window raised 'Invalid Attribute context'.
---
 nilmtk/datastore/hdfdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..c822d47 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,8 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +293,8 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            where = None if terms is None else ' & '.join(terms)
+            coords = self.store.select_as_coordinates(key, where)
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From cb356b112c37fcd4612786e71e128699a45edfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 03/88] fix: let MeterGroup.load accept a UTC timezone

pandas represents UTC by datetime.timezone.utc, which has no 'zone', so loading a
group from a dataset kept in UTC raised AttributeError.
---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..d3d6fdb 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,7 +714,7 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
+            tz = start.tz
             index = pd.date_range(
                 start.tz_localize(None), section.end.tz_localize(None), tz=tz,
                 inclusive='left', freq=freq)
-- 
2.43.0


From d345e88c73333fc8859f53811856ff9d1d1030bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 04/88] fix: average voltage over the meters of a group on
 pandas 2

pandas no longer accepts a set as the columns of a DataFrame.
---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d3d6fdb..b1612f8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1838,7 +1838,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
         columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
                               .intersection(physical_quantities))
         if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
+            counter_increment = pd.DataFrame(1, columns=list(columns_to_average), 
                                              dtype=np.uint16,
                                              index=chunk_from_next_meter.index)
             columns_to_average_counter = columns_to_average_counter.add(
-- 
2.43.0


From 88fdf819a9ff881bfc826e824996dfc8bcfa0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 05/88] fix: write the header of a CSV file only once

CSVDataStore.append() wrote the column names again on each call, after which the
file could not be loaded.
---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..68c5841 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -113,7 +113,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From 16478a15bbb8ebacda9ffd4d85e63fafb68cf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 06/88] fix: list the elements below a key of a CSVDataStore

elements_below_key() raised NameError, or returned nothing, for any key other
than '/', so convert_datastore() silently converted no data from CSV.
---
 nilmtk/datastore/csvdatastore.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 68c5841..f7b7c4a 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from collections import OrderedDict
 import numpy as np
 import yaml
-from os.path import isdir, isfile, join, exists, dirname
+from os.path import isdir, isfile, join, exists, dirname, splitext
 from os import listdir, makedirs, remove
 from shutil import rmtree
 import re
@@ -194,11 +194,12 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
+            relative_path = key.strip('/')
             dir_path = join(self.filename, relative_path)
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    # meter data is held in 'meter<I>.csv'
+                    elements += [splitext(element)[0]]
 
         return elements
 
-- 
2.43.0


From 3bbf4e26d46c6d559a8c3999d8ebbf5ad7c80b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 07/88] fix: do not skip a row before the look ahead of a CSV
 chunk

pandas writes a line of index names only if the index has a name; without one,
the look ahead rows started one row too late.
---
 nilmtk/datastore/csvdatastore.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index f7b7c4a..f906354 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -89,7 +89,8 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
+                            rows_to_skip = (_n_header_lines(file_path, len(header_rows))
+                                            +(chunk_idx*chunksize)+subchunk_end+1)
                             try:
                                 subchunk.look_ahead = pd.read_csv(file_path, 
                                                 index_col=0, 
@@ -245,3 +246,14 @@ class CSVDataStore(DataStore):
             if key_object.building and key_object.meter:
                 abs_path += '.csv'
         return abs_path
+
+
+def _n_header_lines(file_path, n_levels):
+    """The column names take up `n_levels` lines, which are followed by a line
+    with the name of the index only if the index has a name (or if the file was
+    written by an old version of pandas)."""
+    with open(file_path) as csv_file:
+        for _ in range(n_levels):
+            csv_file.readline()
+        values = csv_file.readline().rstrip('\r\n').split(',')[1:]
+    return n_levels + (1 if values and not any(values) else 0)
-- 
2.43.0


From e153f94009c3225017228d02e43ceaef69288621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 08/88] fix: read back from CSV the columns and the timestamps
 that were written

A column with an empty level, such as ('voltage', ''), came back under a made-up
name, and data across a change of UTC offset came back without a DatetimeIndex.
---
 nilmtk/datastore/csvdatastore.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index f906354..ec587a1 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -39,7 +39,8 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return _tidy(pd.read_csv(file_path, index_col=0, header=[0,1],
+                                     parse_dates=True))
         else:
             raise KeyError('{} not found'.format(key))
 
@@ -53,6 +54,11 @@ class CSVDataStore(DataStore):
         sections = [TimeFrame()] if sections is None else sections
         sections = TimeFrameGroup(sections)
 
+        # Replace any Nones with '' in columns:
+        if columns is not None:
+            columns = [('' if pq is None else pq, '' if ac is None else ac)
+                       for pq, ac in columns]
+
         self.all_sections_smaller_than_chunksize = True
         
         # iterate through parameter sections
@@ -68,7 +74,8 @@ class CSVDataStore(DataStore):
                                             
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
-                
+                chunk = _tidy(chunk)
+
                 # filter dataframe by specified columns
                 if columns:
                     chunk = chunk[columns]
@@ -226,6 +233,7 @@ class CSVDataStore(DataStore):
         start = None
         end = None
         for df in text_file_reader:
+            df = _tidy(df)
             if start is None:
                 start = df.index[0]
             end = df.index[-1]
@@ -248,6 +256,17 @@ class CSVDataStore(DataStore):
         return abs_path
 
 
+def _tidy(df):
+    """Undoes what `pd.read_csv` makes of an empty column level (e.g. of the
+    'type' of a voltage), and of an index whose UTC offset changes."""
+    df.columns = pd.MultiIndex.from_tuples(
+        [tuple('' if level.startswith('Unnamed: ') else level for level in col)
+         for col in df.columns], names=df.columns.names)
+    if not isinstance(df.index, pd.DatetimeIndex):
+        df.index = pd.to_datetime(df.index, utc=True)
+    return df
+
+
 def _n_header_lines(file_path, n_levels):
     """The column names take up `n_levels` lines, which are followed by a line
     with the name of the index only if the index has a name (or if the file was
-- 
2.43.0


From 26532aec95c7a42546d44472c984d598c980633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 09/88] fix: save metadata for a key which has no data yet

HDFDataStore.save_metadata() raised AttributeError in that case, so
convert_datastore() could not write to an HDF5 store.
---
 nilmtk/datastore/hdfdatastore.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index c822d47..8c3a0fe 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -193,6 +193,11 @@ class HDFDataStore(DataStore):
             node = self.store.root
         else:
             node = self.store.get_node(key)
+            if node is None:
+                # There is no data below `key` yet.
+                where, _, name = key.strip('/').rpartition('/')
+                node = self.store._handle.create_group('/' + where, name,
+                                                       createparents=True)
 
         node._v_attrs.metadata = metadata
         self.store.flush()
-- 
2.43.0


From a4ba17299e3706a7add66a3d366a47bb968691a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 10/88] fix: flush after removing a key from an HDFDataStore

As after append(), put() and save_metadata(): a removed key came back if the
process died before its next write.
---
 nilmtk/datastore/hdfdatastore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8c3a0fe..36399e3 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -176,6 +176,7 @@ class HDFDataStore(DataStore):
     @doc_inherit
     def remove(self, key):
         self.store.remove(key)
+        self.store.flush()
 
     @doc_inherit
     def load_metadata(self, key='/'):
-- 
2.43.0


From 1d3eb8eea62e25618bcd5e9fb1df9bb7fdc6be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 11/88] fix: close the file descriptor of a TmpDataStore

Each TmpDataStore left one descriptor open for the life of the process.
---
 nilmtk/datastore/tmpdatastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/tmpdatastore.py b/nilmtk/datastore/tmpdatastore.py
index cddf721..c536fa6 100644
--- a/nilmtk/datastore/tmpdatastore.py
+++ b/nilmtk/datastore/tmpdatastore.py
@@ -10,7 +10,8 @@ class TmpDataStore(HDFDataStore):
         """ Create a `HDFDataStore` in the OS temporary directory in append mode.
             The created HDF file will remain on the disk until a call to the `close()` method.
         """
-        _, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        fd, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
+        os.close(fd)
         self.full_path = tmp_path
         super().__init__(filename=self.full_path, mode="a")
 
-- 
2.43.0


From cfee7c5680b2ceb20df70d85c653406c4ddf16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 12/88] fix: pass the epoch of chunk wise training by name

partial_fit(train_mains, train_appliances, **load_kwargs) takes no third
positional argument, so chunk wise training of Mean raised TypeError (and other
models took the epoch for one of their own options).
---
 nilmtk/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 5a24499..dd183b1 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -148,7 +148,7 @@ class API():
 
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
-                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch)
+                    clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 
 
         print("...............Finished the Training Process ...................")
-- 
2.43.0


From a630d66119b9c2a5ae5ed85da2b36f0597c81f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:56 +0000
Subject: [PATCH 13/88] fix: keep a copy of the metadata given to an
 HDFDataStore

PyTables caches the object which is assigned to an attribute, so a later
change of the caller's dictionary showed up in load_metadata until the file
was opened again, and differed from what is in the file.
---
 nilmtk/datastore/hdfdatastore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 36399e3..332a35b 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -200,7 +200,8 @@ class HDFDataStore(DataStore):
                 node = self.store._handle.create_group('/' + where, name,
                                                        createparents=True)
 
-        node._v_attrs.metadata = metadata
+        # a copy: PyTables keeps a reference to what it is given
+        node._v_attrs.metadata = deepcopy(metadata)
         self.store.flush()
 
     @doc_inherit
-- 
2.43.0


From a08dab5a7baf8cc225c3067274d25b7c06320160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 14/88] fix: load a whole table whose length is a multiple of
 the chunk size plus one

The last chunk of an unbounded load held nothing but the row that it shares
with the chunk before, and loading ended in a ValueError because a TimeFrame
cannot be that short.
---
 nilmtk/datastore/hdfdatastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 332a35b..26800f3 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,8 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i < 1:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From d2abf5d66f4de1919311fc7200f355b4446ad1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 15/88] fix: load a section which has a single row

Sections with exactly one row were dropped silently, e.g. all of the data
when 60 s data is loaded in sections of one minute.
---
 nilmtk/datastore/hdfdatastore.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 26800f3..51521e3 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -100,8 +100,10 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
-            n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
+            # a section with a single row is one chunk
+            n_steps = max(section_end_i - section_start_i, 1)
+            slice_starts = range(section_start_i, section_start_i + n_steps, chunksize)
+            n_chunks = int(np.ceil(n_steps / chunksize))
 
             if n_chunks > 1:
                 self.all_sections_smaller_than_chunksize = False
@@ -343,9 +345,10 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
         start = window_intersect.start
         end = window_intersect.end
 
-    if start is None:
+    # a TimeFrame cannot start and end with the same row
+    if start is None and (end is None or index[0] < end):
         start = index[0]
-    if end is None:
+    if end is None and index[-1] > start:
         end = index[-1]
 
     return TimeFrame(start, end)
-- 
2.43.0


From da4ae08dd069281068304c249ed77668ce64421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 16/88] fix: load a chunk of a CSV file which has a single row

The TimeFrame of such a chunk would start and end with the same row, which
TimeFrame does not allow, so loading ended in a ValueError.
---
 nilmtk/datastore/csvdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index ec587a1..5fa691c 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -92,7 +92,11 @@ class CSVDataStore(DataStore):
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
+                    start, end = subchunk.index[0], subchunk.index[-1]
+                    if start == end:
+                        # a TimeFrame cannot start and end at the same time
+                        end += pd.Timedelta(1, 'ns')
+                    subchunk.timeframe = TimeFrame(start, end)
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-- 
2.43.0


From c1ed9986cbbd494a2b2e25c9f248920a95470bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:30 +0000
Subject: [PATCH 17/88] fix: load the row at the end of a section of a CSV file
 if it is included

CSVDataStore ignored TimeFrame.include_end, which HDFDataStore respects and
on which the statistics rely: the last row of a meter was left out of them.
---
 nilmtk/datastore/csvdatastore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 5fa691c..b45c7dd 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -85,7 +85,10 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
+                    before_end = ((chunk.index<=window_intersect.end)
+                                  if window_intersect.include_end
+                                  else (chunk.index<window_intersect.end))
+                    subchunk_idx = np.logical_and(subchunk_idx, before_end)
                 if window_intersect.empty:
                     subchunk_idx = [False]*len(chunk)
                 subchunk = chunk[subchunk_idx]
-- 
2.43.0


From 29a0f59e5bbfeea75544f51d7b9a44c1b2ffa95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:44 +0000
Subject: [PATCH 18/88] fix: do not store the rows at which chunks meet twice
 when converting a data store

---
 nilmtk/datastore/datastore.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..81f80cf 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -231,8 +231,15 @@ def convert_datastore(input_store, output_store):
                 if meter == 'cache':
                     continue
                 meter_key = utility_key+'/'+meter
-                # store meter data
+                # store meter data. A chunk may begin with the last row
+                # of the previous chunk, which is stored already.
+                last = None
                 for df in input_store.load(meter_key):
-                    output_store.append(meter_key, df)
+                    if last is not None and len(df) and df.index[0] == last:
+                        df = df.iloc[1:]
+                    if len(df) or last is None:
+                        output_store.append(meter_key, df)
+                    if len(df):
+                        last = df.index[-1]
 
 
-- 
2.43.0


From a148314a58224690d5c2eb2e9db3f04274d57658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:44 +0000
Subject: [PATCH 19/88] fix: read all chunks of a CSV file in the same timezone

---
 nilmtk/datastore/csvdatastore.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index b45c7dd..c3417f3 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -265,12 +265,15 @@ class CSVDataStore(DataStore):
 
 def _tidy(df):
     """Undoes what `pd.read_csv` makes of an empty column level (e.g. of the
-    'type' of a voltage), and of an index whose UTC offset changes."""
+    'type' of a voltage), and of an index with UTC offsets, which may differ
+    between the chunks of a file as well as within them."""
     df.columns = pd.MultiIndex.from_tuples(
         [tuple('' if level.startswith('Unnamed: ') else level for level in col)
          for col in df.columns], names=df.columns.names)
     if not isinstance(df.index, pd.DatetimeIndex):
         df.index = pd.to_datetime(df.index, utc=True)
+    elif df.index.tz is not None:
+        df.index = df.index.tz_convert('UTC')
     return df
 
 
-- 
2.43.0


From 3335b99a0d39256c94172b01f0bc6376d09537c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:49 +0000
Subject: [PATCH 20/88] fix: keep cached statistics of different datasets apart

---
 nilmtk/elecmeter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..0ddaac1 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,3 +1,4 @@
+import re
 from warnings import warn
 from collections import namedtuple
 from copy import deepcopy
@@ -638,8 +639,8 @@ class ElecMeter(Hashable, Electric):
         cache.
 
         Cached statistics lives in the DataStore at
-        'building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'building1/elec/cache/meter1/total_energy'.  We store the
+        'dataset_<name>/building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
+        'dataset_REDD/building1/elec/cache/meter1/total_energy'.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
         DataFrame. Some times we need to do some conversion to store
         `Results._data` on disk.  The logic for doing this conversion lives
@@ -789,8 +790,13 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        # All datasets share one cache. Escape the characters of the dataset's
+        # name which cannot be part of a key.
+        dataset_str = re.sub(r'\W', lambda match: '_{:x}_'.format(ord(match.group())),
+                             str(self.dataset()), flags=re.ASCII)
+
+        return ("dataset_{:s}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(dataset_str, self.building(), meter_str, stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 93ae92d8761bc40c27f3971649eb2a55b7994302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 21/88] fix: do not take statistics of some columns from, or
 save them in, the cache of all columns

---
 nilmtk/elecmeter.py | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 0ddaac1..202c9a9 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -671,7 +671,6 @@ class ElecMeter(Hashable, Electric):
             loader_kwargs = self._convert_physical_quantity_and_ac_type_to_cols(**loader_kwargs)
         columns = loader_kwargs.get('columns', [])
         ac_types = set([m[1] for m in columns if m[1]])
-        results_obj_copy = deepcopy(results_obj)
 
         # Prepare `sections` list
         sections = loader_kwargs.get('sections')
@@ -684,26 +683,15 @@ class ElecMeter(Hashable, Electric):
 
         # Retrieve usable stats from cache
         key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
-        if loader_kwargs.get('preprocessing') is None:
+        # The cache holds statistics of the whole, unprocessed data.
+        use_cache = (loader_kwargs.get('preprocessing') is None and
+                     (not columns or
+                      set(columns) == set(self.available_columns())))
+        if use_cache:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
-
-            def find_sections_to_compute():
-                # Get sections_to_compute
-                results_obj_timeframes = results_obj.timeframes()
-                sections_to_compute = set(sections) - set(results_obj_timeframes)
-                sections_to_compute = sorted(sections_to_compute)
-                return sections_to_compute
-            try:
-                ac_type_keys = results_obj.simple().keys()
-            except:
-                sections_to_compute = find_sections_to_compute()
-            else:
-                if ac_types.issubset(ac_type_keys):
-                    sections_to_compute = find_sections_to_compute()
-                else:
-                    sections_to_compute = sections
-                    results_obj = results_obj_copy
+            sections_to_compute = sorted(
+                set(sections) - set(results_obj.timeframes()))
         else:
             sections_to_compute = sections
 
@@ -719,13 +707,14 @@ class ElecMeter(Hashable, Electric):
             results_obj.update(computed_result.results)
 
             # Save to disk newly computed stats
-            stat_for_store = computed_result.results.export_to_cache()
-            try:
-                self.cache.append(key_for_cached_stat, stat_for_store)
-            except ValueError:
-                # the old table probably had different columns
-                self.cache.remove(key_for_cached_stat)
-                self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+            if use_cache:
+                stat_for_store = computed_result.results.export_to_cache()
+                try:
+                    self.cache.append(key_for_cached_stat, stat_for_store)
+                except ValueError:
+                    # the old table probably had different columns
+                    self.cache.remove(key_for_cached_stat)
+                    self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
 
         if full_results:
             return results_obj
-- 
2.43.0


From 73eca36b4d24e1a9fc5814658165a90a38e8b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:23 +0000
Subject: [PATCH 22/88] fix: use the meter devices of the meter's own dataset

---
 nilmtk/elecmeter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 202c9a9..5047664 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -138,8 +138,10 @@ class ElecMeter(Hashable, Electric):
     @classmethod
     def load_meter_devices(cls, store):
         dataset_metadata = store.load_metadata('/')
-        ElecMeter.meter_devices.update(
-            dataset_metadata.get('meter_devices', {}))
+        meter_devices = dataset_metadata.get('meter_devices', {})
+        ElecMeter.meter_devices.update(meter_devices)
+        # another dataset may use the same name for a different device
+        store.meter_devices = meter_devices
 
     def save(self, destination, key):
         """
@@ -160,7 +162,10 @@ class ElecMeter(Hashable, Electric):
         """
         device_model = self.metadata.get('device_model')
         if device_model:
-            return deepcopy(ElecMeter.meter_devices[device_model])
+            meter_devices = getattr(self.store, 'meter_devices', {})
+            if device_model not in meter_devices:
+                meter_devices = ElecMeter.meter_devices
+            return deepcopy(meter_devices[device_model])
         else:
             return {}
 
-- 
2.43.0


From a03217756ee6358ddb1cc75a87a565c58229ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 23/88] fix: use cached statistics only for exactly the section
 that they were computed for

---
 nilmtk/elecmeter.py | 49 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 5047664..dc86b78 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -693,8 +693,12 @@ class ElecMeter(Hashable, Electric):
                      (not columns or
                       set(columns) == set(self.available_columns())))
         if use_cache:
-            cached_stat = self.get_cached_stat(key_for_cached_stat)
-            results_obj.import_from_cache(cached_stat, sections)
+            # A section which reaches beyond the window is cut off by it.
+            sections_for_cache = [
+                s for s in sections if self.store.window.intersection(s) == s]
+            cached_stat = self._cached_stat_for_sections(
+                key_for_cached_stat, sections_for_cache)
+            results_obj.import_from_cache(cached_stat, sections_for_cache)
             sections_to_compute = sorted(
                 set(sections) - set(results_obj.timeframes()))
         else:
@@ -713,13 +717,8 @@ class ElecMeter(Hashable, Electric):
 
             # Save to disk newly computed stats
             if use_cache:
-                stat_for_store = computed_result.results.export_to_cache()
-                try:
-                    self.cache.append(key_for_cached_stat, stat_for_store)
-                except ValueError:
-                    # the old table probably had different columns
-                    self.cache.remove(key_for_cached_stat)
-                    self.cache.put(key_for_cached_stat, results_obj.export_to_cache())
+                self._save_stat_in_cache(key_for_cached_stat, sections_for_cache,
+                                         computed_result.results)
 
         if full_results:
             return results_obj
@@ -738,6 +737,38 @@ class ElecMeter(Hashable, Electric):
             else:
                 return res
 
+    def _cached_stat_for_sections(self, key_for_cached_stat, sections):
+        """Returns those rows of the cached stat which may belong to one of
+        `sections`."""
+        cached_stat = self.get_cached_stat(key_for_cached_stat)
+        if cached_stat.empty:
+            return cached_stat
+        wanted = set((s.start, bool(s.include_end)) for s in sections)
+        include_end = cached_stat.pop('include_end').astype(bool)
+        return cached_stat[[row in wanted for row in zip(cached_stat.index, include_end)]]
+
+    def _save_stat_in_cache(self, key_for_cached_stat, sections, results):
+        """Saves the results for whole `sections`. The results for a part of a
+        section (a chunk) are not saved. They must not be taken for those of a
+        section, because the row at which two chunks meet belongs to both."""
+        include_end = dict((s.start, float(s.include_end)) for s in sections)
+        has_result = results._data.drop(columns='end').notnull().any(axis=1)
+        starts = [timeframe.start for timeframe, keep
+                  in zip(results.timeframes(), has_result)
+                  if keep and timeframe in sections]
+        if not starts:
+            return
+        stat_for_store = results.export_to_cache()
+        stat_for_store = stat_for_store[stat_for_store.index.isin(starts)]
+        stat_for_store = stat_for_store.assign(
+            include_end=[include_end[start] for start in stat_for_store.index])
+        try:
+            self.cache.append(key_for_cached_stat, stat_for_store)
+        except ValueError:
+            # the old table probably had different columns
+            self.cache.remove(key_for_cached_stat)
+            self.cache.put(key_for_cached_stat, stat_for_store)
+
     def _compute_stat(self, nodes, loader_kwargs):
         """
         Parameters
-- 
2.43.0


From 35bda2a8d5ae2c0f8505571c28e80581b43ba2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 24/88] fix: do not change good sections when combining them

---
 nilmtk/stats/goodsectionsresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..e0a03e0 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 import pandas as pd
 from datetime import timedelta
 import matplotlib.pyplot as plt
@@ -46,7 +47,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # a copy, because the sections are changed below
+            row_sections = deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
-- 
2.43.0


From 7a03a5f20a4181bf1d9a131a10db0167de1519ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 25/88] fix: recover from an interrupted write of a cached
 statistic

---
 nilmtk/elecmeter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index dc86b78..44fc5be 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -862,6 +862,10 @@ class ElecMeter(Hashable, Electric):
             stat_from_cache = self.cache[key_for_stat]
         except KeyError:
             stat_from_cache = None
+        except TypeError:
+            # Saving this stat was interrupted. There is no table below the key.
+            self.cache.remove(key_for_stat)
+            stat_from_cache = None
 
         return pd.DataFrame() if stat_from_cache is None else stat_from_cache
 
-- 
2.43.0


From b876115ca6c5533ba06e641d115f514ae8833209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:59 +0000
Subject: [PATCH 26/88] fix: do not count the energy of a row at which chunks
 meet twice

---
 nilmtk/stats/totalenergy.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..2632626 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,9 +22,16 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        last_timestamp = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # A chunk may begin with the last row of the previous chunk
+            first_row_is_repeated = (len(chunk) > 0 and
+                                     chunk.index[0] == last_timestamp)
+            energy = get_total_energy(chunk, max_sample_period,
+                                      first_row_is_repeated)
             self.results.append(chunk.timeframe, energy)
+            if len(chunk) > 0:
+                last_timestamp = chunk.index[-1]
             yield chunk
 
     def required_measurements(self, state):
@@ -36,13 +43,16 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, first_row_is_repeated=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    first_row_is_repeated : bool
+        True if the first row of `df` is the last row of the data that precede
+        it. Its energy has been counted already.
 
     Returns
     -------
@@ -72,7 +82,7 @@ def get_total_energy(df, max_sample_period):
         elif physical_quantity == 'cumulative energy':
             energy[ac_type] = series.iloc[-1] - series.iloc[0]
         elif physical_quantity == 'energy':
-            energy[ac_type] = series.sum()
+            energy[ac_type] = series.iloc[int(first_row_is_repeated):].sum()
 
     return energy
 
-- 
2.43.0


From f8e286ef52933ff1fb02dd6bc6c088987455d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 27/88] fix: do not continue a good section in a section which
 is further away

---
 nilmtk/stats/goodsections.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..5a9ab97 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -14,6 +14,7 @@ class GoodSections(Node):
     Attributes
     ----------
     previous_chunk_ended_with_open_ended_good_section : bool
+    end_of_previous_chunk : pd.Timestamp or None
     """
 
     requirements = {'device': {'max_sample_period': 'ANY VALUE'}}
@@ -22,6 +23,7 @@ class GoodSections(Node):
         
     def reset(self):
         self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = None
 
     def process(self):
         metadata = self.upstream.get_metadata()
@@ -61,16 +63,21 @@ class GoodSections(Node):
         look_ahead = getattr(df, 'look_ahead', None)
         timeframe = df.timeframe
 
+        # A good section does not continue in a section which is further away
+        if timeframe.start != self.end_of_previous_chunk:
+            self.previous_chunk_ended_with_open_ended_good_section = False
+        self.end_of_previous_chunk = timeframe.end
+
         # Process dataframe
         good_sections = get_good_sections(
             df, max_sample_period, look_ahead,
             self.previous_chunk_ended_with_open_ended_good_section)
 
         # Set self.previous_chunk_ended_with_open_ended_good_section
-        if good_sections:
-            self.previous_chunk_ended_with_open_ended_good_section = (
-                good_sections[-1].end is None)
+        self.previous_chunk_ended_with_open_ended_good_section = (
+            bool(good_sections) and good_sections[-1].end is None)
 
+        if good_sections:
             # Update self.results
             self.results.append(timeframe, {'sections': [good_sections]})
 
-- 
2.43.0


From 5329c77e3e2e6881d96e53b7f7c81e3070698e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 28/88] fix: do not split good sections which span sections of
 which one is cached

---
 nilmtk/stats/goodsectionsresults.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index e0a03e0..1c067d8 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -113,7 +113,10 @@ class GoodSectionsResults(Results):
             for tf_end, sections_df in grouped_by_end:
                 end = tz_localize_naive(tf_end, tz)
                 timeframe = TimeFrame(tf_start, end)
-                if timeframe in sections:
+                # Good sections may continue in an adjacent section, hence
+                # adjacent sections have to be computed together.
+                if timeframe in sections and not any(
+                        timeframe.adjacent(section) for section in sections):
                     timeframes = []
                     for _, row in sections_df.iterrows():
                         section_start = tz_localize_naive(row['section_start'], tz)
@@ -136,6 +139,9 @@ class GoodSectionsResults(Results):
         index_for_cache = []
         data_for_cache = [] # list of dicts with keys 'end', 'section_end', 'section_start'
         for index, row in self._data.iterrows():
+            if row['sections'][0].start is None:
+                # the start is in the previous section
+                continue
             for section in row['sections']:
                 index_for_cache.append(index)
                 data_for_cache.append(
-- 
2.43.0


From 276812381aed231534646bd0ee71d20c9574caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 29/88] fix: do not lose the energy of a group if a meter has
 no data

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index b1612f8..b0b92d4 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -869,7 +869,8 @@ class MeterGroup(Electric):
                 if full_results:
                     total_energy_results.unify(meter_energy)
                 else:
-                    total_energy_results += meter_energy
+                    total_energy_results = total_energy_results.add(
+                        meter_energy, fill_value=0)
             return total_energy_results
 
     def _collect_stats_on_all_meters(self, load_kwargs, func, full_results):
-- 
2.43.0


From 080f31689081c0e2c5fb4d4134dc8c7a638bc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 30/88] fix: find good sections before a long run of missing
 readings

---
 nilmtk/stats/goodsections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 5a9ab97..cdaa7f1 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -133,9 +133,11 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    if look_ahead is not None:
+        look_ahead = look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 705853ba028451c2b6536a237300809a92e769f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:56 +0000
Subject: [PATCH 31/88] fix: combine good sections of which the last one starts
 at the end of its period

---
 nilmtk/stats/goodsectionsresults.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 1c067d8..96bc88c 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -66,11 +66,7 @@ class GoodSectionsResults(Results):
                 else:
                     # row_sections[0] and sections[-1] were not in adjacent chunks
                     # so check if they are both open-ended and close them...
-                    if sections and sections[-1].end is None:
-                        try:
-                            sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
+                    self._close_last_section(sections, end_date_of_prev_row)
                     if row_sections and row_sections[0].start is None:
                         try:
                             row_sections[0].start = index
@@ -80,13 +76,22 @@ class GoodSectionsResults(Results):
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        self._close_last_section(sections, end_date_of_prev_row)
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
+    @staticmethod
+    def _close_last_section(sections, end_date):
+        """If the last of `sections` is open-ended then close it at `end_date`,
+        or remove it if nothing of it is left (it starts at `end_date`)."""
+        if sections and sections[-1].end is None:
+            try:
+                sections[-1].end = end_date
+            except ValueError: # end_date is not after sections[-1].start
+                sections.pop()
+
     def unify(self, other):
         super(GoodSectionsResults, self).unify(other)
         for start, row in self._data.iterrows():
-- 
2.43.0


From 2f990130a745073390d3759df8e7886d4cf6fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:44 +0000
Subject: [PATCH 32/88] fix: find the most common entry on pandas 2

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..e6cc9f8 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts.sort_values(inplace=True)
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From 122a6b53a55a8db5c958f8538a3d9acf27daa82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:44 +0000
Subject: [PATCH 33/88] fix: full results of the dropout rate of good sections

---
 nilmtk/elecmeter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 44fc5be..b9cdd3f 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -616,7 +616,8 @@ class ElecMeter(Hashable, Electric):
         """
         nodes = [DropoutRate]
         if ignore_gaps:
-            loader_kwargs['sections'] = self.good_sections(**loader_kwargs)
+            loader_kwargs['sections'] = self.good_sections(
+                **dict(loader_kwargs, full_results=False))
 
         return self._get_stat_from_cache_or_compute(
             nodes, DropoutRate.results_class(), loader_kwargs)
-- 
2.43.0


From d463f94b879f61ce15254b1d454dd7c038073076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:52 +0000
Subject: [PATCH 34/88] fix: apply the limits of measurements which have no
 type

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..c9dc737 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,7 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        if ((m.get('physical_quantity'), m.get('type', '')) == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From d10a5b74ac5d66ac9e1b1366b13343a6c17d5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:52 +0000
Subject: [PATCH 35/88] fix: let activity_histogram work with pandas 2

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..eb6bd62 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -696,7 +696,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From d947ec5806c40e39107c846834983e9d6ce4c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:58 +0000
Subject: [PATCH 36/88] fix: average voltage over the meters which have a
 reading only

---
 nilmtk/metergroup.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index b0b92d4..669a00b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1790,7 +1790,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    columns_to_average_counter = {}
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1835,16 +1835,13 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
 
         # Update columns_to_average_counter - this is necessary so we do not
         # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=list(columns_to_average), 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
+        for column_name in columns:
+            if (column_name[0] in PHYSICAL_QUANTITIES_TO_AVERAGE and
+                    column_name in chunk_from_next_meter.columns):
+                counter = columns_to_average_counter.setdefault(
+                    column_name, np.zeros(len(index), dtype=np.uint16))
+                counter += (chunk_from_next_meter[column_name].reindex(index)
+                            .notnull().values)
 
         del chunk_from_next_meter
         gc.collect()
@@ -1853,8 +1850,8 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     gc.collect()
 
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for column, counter in columns_to_average_counter.items():
+        cumulator[column] /= np.where(counter, counter, 1)
 
     del columns_to_average_counter
     gc.collect()
-- 
2.43.0


From f71bdacbdd30f806608f25e2d871c251a69e2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:58 +0000
Subject: [PATCH 37/88] fix: do not report missing readings as 0 W in
 dataframe_of_meters

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 669a00b..d70757b 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -978,7 +978,7 @@ class MeterGroup(Electric):
 
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
-                    chunks.append(chunk_from_next_meter.sum(axis=1))
+                    chunks.append(chunk_from_next_meter.sum(axis=1, min_count=1))
 
             if chunks:
                 df = pd.concat(chunks, axis=1)
-- 
2.43.0


From 40cfa125d96ed44d2b4434d14b25cc89effa8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:58 +0000
Subject: [PATCH 38/88] fix: load the sections after an empty one in
 dataframe_of_meters

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d70757b..748ebb8 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -970,12 +970,14 @@ class MeterGroup(Electric):
         while True:
             chunks = []
             ids = []
+            exhausted = True
             for meter_id, generator in zip(identifiers, generators):
                 try:
                     chunk_from_next_meter = next(generator)
                 except StopIteration:
                     continue
 
+                exhausted = False
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
                     chunks.append(chunk_from_next_meter.sum(axis=1, min_count=1))
@@ -984,7 +986,7 @@ class MeterGroup(Electric):
                 df = pd.concat(chunks, axis=1)
                 df.columns = ids
                 segments.append(df)
-            else:
+            elif exhausted:
                 break
 
         if segments:
-- 
2.43.0


From 92ff8675e1e31823854e7d4b563732d13bcb67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:58 +0000
Subject: [PATCH 39/88] fix: get the timeframe of a group of which the first
 meter has no data

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 748ebb8..988049c 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1384,7 +1384,7 @@ class MeterGroup(Electric):
         """
         timeframe = None
         for meter in self.meters:
-            if timeframe is None:
+            if timeframe is None or timeframe.empty:
                 timeframe = meter.get_timeframe()
             elif meter.get_timeframe().empty:
                 pass
-- 
2.43.0


From 94cb856ef111a1e9af79e172f3b25399861aa833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 40/88] fix: let an empty TimeFrame be false on Python 3

---
 nilmtk/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..741c08c 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -218,6 +218,8 @@ class TimeFrame(object):
         else:
             return (self.start is not None) or (self.end is not None)
 
+    __bool__ = __nonzero__
+
     def __repr__(self):
         return ("TimeFrame(start='{}', end='{}', empty={})"
                 .format(self.start, self.end, self.empty))
-- 
2.43.0


From 1f18dff77d8663a461560a1421b9760db375bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 41/88] fix: find the upstream meter in the same DataSet object

---
 nilmtk/elecmeter.py  | 7 ++++++-
 nilmtk/metergroup.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index b9cdd3f..4dbdf55 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -56,6 +56,8 @@ class ElecMeter(Hashable, Electric):
         self.store = store
         self.cache = nilmtk.STATS_CACHE
         self.identifier = meter_id
+        # All meters of the same building of the same DataSet object, if known
+        self.meters_in_building = None
 
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
@@ -130,7 +132,10 @@ class ElecMeter(Hashable, Electric):
                                      building=self.identifier.building,
                                      dataset=self.identifier.dataset)
 
-        upstream_meter = nilmtk.global_meter_group[id_of_upstream]
+        # Another DataSet object may have a meter with the same identifier.
+        meters = (nilmtk.global_meter_group if self.meters_in_building is None
+                  else self.meters_in_building)
+        upstream_meter = meters[id_of_upstream]
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 988049c..2b4c353 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -89,11 +89,14 @@ class MeterGroup(Electric):
         ElecMeter.load_meter_devices(store)
 
         # Load each meter
+        meters_in_building = MeterGroup()
         for meter_i, meter_metadata_dict in elec_meters.items():
             meter_id = ElecMeterID(instance=meter_i,
                                    building=building_id.instance,
                                    dataset=building_id.dataset)
             meter = ElecMeter(store, meter_metadata_dict, meter_id)
+            meter.meters_in_building = meters_in_building
+            meters_in_building.meters.append(meter)
             self.meters.append(meter)
 
         # Load each appliance
-- 
2.43.0


From dac0fcfde64453416b34550dab1e4b0ef2967d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 42/88] fix: close the file of an activity script which cannot
 be written

---
 nilmtk/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset.py b/nilmtk/dataset.py
index c7bc7f1..6ea8cbd 100644
--- a/nilmtk/dataset.py
+++ b/nilmtk/dataset.py
@@ -178,6 +178,12 @@ class DataSet(object):
         store = pd.HDFStore(
             filename, mode='w', complevel=9, complib='blosc')
 
+        try:
+            self._write_activity_script(store)
+        finally:
+            store.close()
+
+    def _write_activity_script(self, store):
         for building in self.buildings.values():
             submeters = building.elec.submeters().meters
 
@@ -202,5 +208,3 @@ class DataSet(object):
                 script = script.sort_index()
                 store[key] = script
                 del starts, ends
-
-        store.close()
-- 
2.43.0


From 43ac2ee847bef6c97a6e9256cbc643f34277503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 43/88] fix: the order of columns, meters and labels depended
 on the hash seed

A set was turned into a list in many places, so that for instance the first
column of a meter, which the experiment API uses, differed between processes.
---
 nilmtk/elecmeter.py  | 21 +++++++++++----------
 nilmtk/electric.py   |  2 +-
 nilmtk/metergroup.py | 29 ++++++++++++++---------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 4dbdf55..201d334 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -266,7 +266,7 @@ class ElecMeter(Hashable, Electric):
         """
         if isinstance(physical_quantity, list):
             ac_types = [self.available_ac_types(pq) for pq in physical_quantity]
-            return list(set(flatten_2d_list(ac_types)))
+            return list(dict.fromkeys(flatten_2d_list(ac_types)))
 
         if physical_quantity not in PHYSICAL_QUANTITIES:
             raise ValueError("`physical_quantity` must by one of '{}', not '{}'"
@@ -284,7 +284,7 @@ class ElecMeter(Hashable, Electric):
         list of strings e.g. ['power', 'energy']
         """
         measurements = self.device['measurements']
-        return list(set([m['physical_quantity'] for m in measurements]))
+        return list(dict.fromkeys(m['physical_quantity'] for m in measurements))
 
     def available_columns(self):
         """
@@ -293,8 +293,8 @@ class ElecMeter(Hashable, Electric):
         list of 2-tuples of strings e.g. [('power', 'active')]
         """
         measurements = self.device['measurements']
-        return list(set([(m['physical_quantity'], m.get('type', ''))
-                         for m in measurements]))
+        return list(dict.fromkeys((m['physical_quantity'], m.get('type', ''))
+                                  for m in measurements))
 
     def __repr__(self):
         string = super(ElecMeter, self).__repr__()
@@ -476,7 +476,7 @@ class ElecMeter(Hashable, Electric):
 
         if isinstance(ac_type, list):
             cols2d = [self._ac_type_to_columns(a_t) for a_t in ac_type]
-            return list(set(flatten_2d_list(cols2d)))
+            return list(dict.fromkeys(flatten_2d_list(cols2d)))
 
         check_ac_type(ac_type)
         cols_matching = [col for col in self.available_columns()
@@ -490,7 +490,7 @@ class ElecMeter(Hashable, Electric):
         if isinstance(physical_quantity, list):
             cols2d = [self._physical_quantity_to_columns(p_q)
                       for p_q in physical_quantity]
-            return list(set(flatten_2d_list(cols2d)))
+            return list(dict.fromkeys(flatten_2d_list(cols2d)))
 
         check_physical_quantity(physical_quantity)
         cols_matching = [col for col in self.available_columns()
@@ -502,12 +502,12 @@ class ElecMeter(Hashable, Electric):
             physical_quantity = self.available_physical_quantities()
 
         if isinstance(physical_quantity, list):
-            columns = set()
+            columns = []
             for pq in physical_quantity:
                 best = self._get_columns_with_best_ac_type(pq)
                 if best:
-                    columns.update(best)
-            return list(columns)
+                    columns.extend(best)
+            return list(dict.fromkeys(columns))
 
         check_physical_quantity(physical_quantity)
         available_pqs = self.available_physical_quantities()
@@ -559,7 +559,8 @@ class ElecMeter(Hashable, Electric):
                     msg += ("Physical quantity '{}' not available. "
                             .format(physical_quantity))
                 if columns:
-                    columns = list(set(columns).intersection(cols_matching_pq))
+                    columns = [col for col in columns
+                               if col in cols_matching_pq]
                     if not columns:
                         msg += ("No measurement matching ({}, {}). "
                                 .format(physical_quantity, ac_type))
diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index eb6bd62..f9d3199 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -293,7 +293,7 @@ class Electric(object):
 
         other_ac_types = other_total_energy.keys()
         self_ac_types = total_energy.keys()
-        shared_ac_types = list(set(other_ac_types).intersection(self_ac_types))
+        shared_ac_types = [ac for ac in other_ac_types if ac in self_ac_types]
         n_shared_ac_types = len(shared_ac_types)
         if n_shared_ac_types > 1:
             return (total_energy[shared_ac_types] / 
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 2b4c353..8fa4a8d 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -147,12 +147,12 @@ class MeterGroup(Electric):
         """
         if not isinstance(other, MeterGroup):
             raise TypeError()
-        return MeterGroup(set(self.meters).union(other.meters))
+        return MeterGroup(list(dict.fromkeys(list(self.meters) + list(other.meters))))
 
     def dominant_appliance(self):
         dominant_appliances = [meter.dominant_appliance()
                                for meter in self.meters]
-        dominant_appliances = list(set(dominant_appliances))
+        dominant_appliances = list(dict.fromkeys(dominant_appliances))
         n_dominant_appliances = len(dominant_appliances)
         if n_dominant_appliances == 0:
             return
@@ -488,16 +488,14 @@ class MeterGroup(Electric):
 
     @property
     def appliances(self):
-        appliances = set()
+        appliances = {}
         for meter in self.meters:
-            appliances.update(meter.appliances)
+            appliances.update(dict.fromkeys(meter.appliances))
         return list(appliances)
 
     def dominant_appliances(self):
-        appliances = set()
-        for meter in self.meters:
-            appliances.add(meter.dominant_appliance())
-        return list(appliances)
+        return list(dict.fromkeys(meter.dominant_appliance()
+                                  for meter in self.meters))
 
     def values_for_appliance_metadata_key(self, key, 
                                           only_consider_dominant_appliance=True):
@@ -522,7 +520,7 @@ class MeterGroup(Electric):
             append_or_extend_list(values, value)
             value = appliance.type.get(key)
             append_or_extend_list(values, value)
-        return list(set(values))
+        return list(dict.fromkeys(values))
 
     def get_labels(self, meter_ids, pretty=True):
         """Create human-readable meter labels.
@@ -726,14 +724,14 @@ class MeterGroup(Electric):
             yield chunk
 
     def _convert_physical_quantity_and_ac_type_to_cols(self, **kwargs):
-        all_columns = set()
+        all_columns = {}
         kwargs = deepcopy(kwargs)
         for meter in self.meters:
             kwargs_copy = deepcopy(kwargs)
             new_kwargs = meter._convert_physical_quantity_and_ac_type_to_cols(**kwargs_copy)
             columns = new_kwargs.get('columns', [])
             for col in columns:
-                all_columns.add(col)
+                all_columns[col] = None
         kwargs['columns'] = list(all_columns)
         return kwargs
 
@@ -821,7 +819,7 @@ class MeterGroup(Electric):
         upstream_meters = []
         for meter in self.meters:
             upstream_meters.append(meter.upstream_meter())
-        unique_upstream_meters = list(set(upstream_meters))
+        unique_upstream_meters = list(dict.fromkeys(upstream_meters))
         if len(unique_upstream_meters) > 1:
             raise RuntimeError("{:d} upstream meters found for meter group."
                                "  Should be 1.".format(len(unique_upstream_meters)))
@@ -1116,7 +1114,7 @@ class MeterGroup(Electric):
         """
         all_ac_types = [meter.available_ac_types(physical_quantity)
                         for meter in self.meters]
-        return list(set(flatten_2d_list(all_ac_types)))
+        return list(dict.fromkeys(flatten_2d_list(all_ac_types)))
 
     def available_physical_quantities(self):
         """
@@ -1126,7 +1124,7 @@ class MeterGroup(Electric):
         """
         all_physical_quants = [meter.available_physical_quantities()
                                for meter in self.meters]
-        return list(set(flatten_2d_list(all_physical_quants)))
+        return list(dict.fromkeys(flatten_2d_list(all_physical_quants)))
 
     def energy_per_meter(self, per_period=None, mains=None, 
                          use_meter_labels=False, **load_kwargs):
@@ -1675,7 +1673,8 @@ class MeterGroup(Electric):
             if kwargs.get('pretty'):
                 label = capitalise_first_letter(label)
             return label
-        return ", ".join(set([meter.label(**kwargs) for meter in self.meters]))
+        return ", ".join(dict.fromkeys(meter.label(**kwargs)
+                                       for meter in self.meters))
 
     def clear_cache(self):
         """Clear cache on all meters in this MeterGroup."""
-- 
2.43.0


From a422d7ffcd787e263e2b41f8630e0d89431fcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:14 +0000
Subject: [PATCH 44/88] fix: add up the appliances of an artificial aggregate
 whatever their columns are called

---
 nilmtk/api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index dd183b1..a94b510 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -140,7 +140,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            train_df+=app_reading
+                            train_df += app_reading.set_axis(train_df.columns, axis=1)
                     train_appliances = []
 
                     for cnt,i in enumerate(appliance_readings):
@@ -182,7 +182,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            test_df+=app_reading
+                            test_df += app_reading.set_axis(test_df.columns, axis=1)
 
                     test_appliances = []
 
@@ -225,7 +225,7 @@ class API():
                     print ("Creating an Artificial Aggregate")
                     train_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                     for app_reading in appliance_readings:
-                        train_df+=app_reading
+                        train_df += app_reading.set_axis(train_df.columns, axis=1)
 
                 self.train_mains.append(train_df)
                 for i,appliance_name in enumerate(self.appliances):
@@ -265,7 +265,7 @@ class API():
                         print ("Creating an Artificial Aggregate")
                         test_mains = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-                            test_mains+=app_reading
+                            test_mains += app_reading.set_axis(test_mains.columns, axis=1)
                     for i, appliance_name in enumerate(self.appliances):
                         self.test_submeters.append((appliance_name,[appliance_readings[i]]))
 
-- 
2.43.0


From 345532fd371a6aa7b5e9b2333922c758588fabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 45/88] fix: close the data sets of an experiment

---
 nilmtk/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index a94b510..aeacf39 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -149,7 +149,7 @@ class API():
                     self.train_mains = [train_df]
                     self.train_submeters = train_appliances
                     clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
-                
+                train.store.close()
 
         print("...............Finished the Training Process ...................")
 
@@ -194,6 +194,7 @@ class API():
                     print("Results for Dataset {dataset} Building {building} Chunk {chunk_num}".format(dataset=dataset,building=building,chunk_num=chunk_num))
                     self.storing_key = str(dataset) + "_" + str(building) + "_" + str(chunk_num) 
                     self.call_predict(self.classifiers, test.metadata['timezone'])
+                test.store.close()
 
 
     def train_jointly(self,clf,d):
@@ -230,6 +231,7 @@ class API():
                 self.train_mains.append(train_df)
                 for i,appliance_name in enumerate(self.appliances):
                     self.train_submeters[i].append(appliance_readings[i])
+            train.store.close()
 
         appliance_readings = []
         for i,appliance_name in enumerate(self.appliances):
@@ -272,6 +274,7 @@ class API():
                 self.test_mains = [test_mains]
                 self.storing_key = str(dataset) + "_" + str(building) 
                 self.call_predict(self.classifiers, test.metadata["timezone"])
+            test.store.close()
 
 
     def dropna(self,mains_df, appliance_dfs=[]):
-- 
2.43.0


From 12affb22d0d491edba7e21079f940cfcf4651d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 46/88] fix: train and test chunk wise on mains and appliances
 of the same time

---
 nilmtk/api.py | 82 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 31 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index aeacf39..e338a47 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -1,5 +1,6 @@
 from nilmtk.dataset import DataSet
 from nilmtk.metergroup import MeterGroup
+from nilmtk.timeframe import TimeFrame
 import pandas as pd
 from nilmtk.losses import *
 import numpy as np
@@ -104,6 +105,42 @@ class API():
             print ("Joint Testing for all algorithms")
             self.test_jointly(d)
 
+    def load_power(self, meter, kind, **load_kwargs):
+        """
+        Returns a DataFrame with one column of power readings of the meter.
+
+        Parameters
+        ----------
+        meter : ElecMeter or MeterGroup
+        kind : 'mains' or 'appliance'
+        """
+        df = next(meter.load(physical_quantity='power', ac_type=self.power[kind], sample_period=self.sample_period, **load_kwargs))
+        if df.empty:
+            # no readings in this period, and possibly no columns
+            return pd.DataFrame({'power': []}, dtype='float64')
+        return df.iloc[:, :1]
+
+    def chunk_sections(self, mains):
+        """
+        Yields the TimeFrame of each chunk of the mains.
+
+        Mains and appliances have to be loaded by time: due to gaps or
+        different sample periods their n-th chunks are not of the same time.
+        Chunks may overlap. The shared reading belongs to the latter.
+        """
+        start = end = None
+        for chunk in mains.load(chunksize=self.chunk_size, physical_quantity='power', ac_type=self.power['mains'], sample_period=self.sample_period):
+            if chunk.empty:
+                continue
+            if start is not None and start < chunk.index[0]:
+                yield TimeFrame(start, chunk.index[0])
+                start = None
+            if start is None:
+                start = chunk.index[0]
+            end = chunk.index[-1] + pd.Timedelta(seconds=self.sample_period)
+        if start is not None:
+            yield TimeFrame(start, end)
+
     def train_chunk_wise(self, clf, d, current_epoch):
         """
         This function loads the data from buildings and datasets with the specified chunk size and trains on each of them. 
@@ -117,21 +154,13 @@ class API():
                 train=DataSet(d[dataset]['path'])
                 print("Loading building ... ",building)
                 train.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
-                mains_iterator = train.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)
-                appliance_iterators = [train.buildings[building].elec[app_name].load(chunksize = self.chunk_size, physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period) for app_name in self.appliances]
-                print(train.buildings[building].elec.mains())
-                for chunk_num,chunk in enumerate (train.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)):
+                elec = train.buildings[building].elec
+                print(elec.mains())
+                for section in self.chunk_sections(elec.mains()):
                     # Loading the chunk for the specifeid building
-                    #Dummry loop for executing on outer level. Just for looping till end of a chunk
                     print("Starting enumeration..........")
-                    train_df = next(mains_iterator)
-                    appliance_readings = []
-                    for i in appliance_iterators:
-                        try:
-                            appliance_df = next(i)
-                        except StopIteration:
-                            appliance_df = pd.DataFrame()
-                        appliance_readings.append(appliance_df)
+                    train_df = self.load_power(elec.mains(), 'mains', sections=[section])
+                    appliance_readings = [self.load_power(elec[app_name], 'appliance', sections=[section]) for app_name in self.appliances]
 
                     if self.DROP_ALL_NANS:
                         train_df, appliance_readings = self.dropna(train_df, appliance_readings)
@@ -151,6 +180,7 @@ class API():
                     clf.partial_fit(self.train_mains, self.train_submeters, current_epoch=current_epoch)
                 train.store.close()
 
+
         print("...............Finished the Training Process ...................")
 
     def test_chunk_wise(self,d):
@@ -162,18 +192,10 @@ class API():
             for building in d[dataset]['buildings']:
                 test=DataSet(d[dataset]['path'])
                 test.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
-                mains_iterator = test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)
-                appliance_iterators = [test.buildings[building].elec[app_name].load(chunksize = self.chunk_size, physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period) for app_name in self.appliances]
-                for chunk_num,chunk in enumerate (test.buildings[building].elec.mains().load(chunksize = self.chunk_size, physical_quantity='power', ac_type = self.power['mains'], sample_period=self.sample_period)):
-                    test_df = next(mains_iterator)
-                    appliance_readings = []
-                    for i in appliance_iterators:
-                        try:
-                            appliance_df = next(i)
-                        except StopIteration:
-                            appliance_df = pd.DataFrame()
-
-                        appliance_readings.append(appliance_df)
+                elec = test.buildings[building].elec
+                for chunk_num, section in enumerate(self.chunk_sections(elec.mains())):
+                    test_df = self.load_power(elec.mains(), 'mains', sections=[section])
+                    appliance_readings = [self.load_power(elec[app_name], 'appliance', sections=[section]) for app_name in self.appliances]
 
                     if self.DROP_ALL_NANS:
                         test_df, appliance_readings = self.dropna(test_df, appliance_readings)
@@ -210,13 +232,11 @@ class API():
             for building in d[dataset]['buildings']:
                 print("Loading building ... ",building)
                 train.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
-                train_df = next(train.buildings[building].elec.mains().load(physical_quantity='power', ac_type=self.power['mains'], sample_period=self.sample_period))
-                train_df = train_df[[list(train_df.columns)[0]]]
+                train_df = self.load_power(train.buildings[building].elec.mains(), 'mains')
                 appliance_readings = []
                 
                 for appliance_name in self.appliances:
-                    appliance_df = next(train.buildings[building].elec[appliance_name].load(physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period))
-                    appliance_df = appliance_df[[list(appliance_df.columns)[0]]]
+                    appliance_df = self.load_power(train.buildings[building].elec[appliance_name], 'appliance')
                     appliance_readings.append(appliance_df)
 
                 if self.DROP_ALL_NANS:
@@ -249,7 +269,7 @@ class API():
             test=DataSet(d[dataset]['path'])
             for building in d[dataset]['buildings']:
                 test.set_window(start=d[dataset]['buildings'][building]['start_time'],end=d[dataset]['buildings'][building]['end_time'])
-                test_mains=next(test.buildings[building].elec.mains().load(physical_quantity='power', ac_type=self.power['mains'], sample_period=self.sample_period))
+                test_mains = self.load_power(test.buildings[building].elec.mains(), 'mains')
                 if self.DROP_ALL_NANS and self.site_only:
                     test_mains, _= self.dropna(test_mains,[])
 
@@ -257,7 +277,7 @@ class API():
                     appliance_readings=[]
 
                     for appliance in self.appliances:
-                        test_df=next((test.buildings[building].elec[appliance].load(physical_quantity='power', ac_type=self.power['appliance'], sample_period=self.sample_period)))
+                        test_df = self.load_power(test.buildings[building].elec[appliance], 'appliance')
                         appliance_readings.append(test_df)
                     
                     if self.DROP_ALL_NANS:
-- 
2.43.0


From 02bbabfedc9e765f21e86a005ba9a2efabcc3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:41 +0000
Subject: [PATCH 47/88] fix: load no appliances to test chunk wise on the site
 only

---
 nilmtk/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index e338a47..6491ba8 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -195,12 +195,14 @@ class API():
                 elec = test.buildings[building].elec
                 for chunk_num, section in enumerate(self.chunk_sections(elec.mains())):
                     test_df = self.load_power(elec.mains(), 'mains', sections=[section])
-                    appliance_readings = [self.load_power(elec[app_name], 'appliance', sections=[section]) for app_name in self.appliances]
+                    appliance_readings = []
+                    if self.site_only != True:
+                        appliance_readings = [self.load_power(elec[app_name], 'appliance', sections=[section]) for app_name in self.appliances]
 
                     if self.DROP_ALL_NANS:
                         test_df, appliance_readings = self.dropna(test_df, appliance_readings)
 
-                    if self.artificial_aggregate:
+                    if self.artificial_aggregate and self.site_only != True:
                         print ("Creating an Artificial Aggregate")
                         test_df = pd.DataFrame(np.zeros(appliance_readings[0].shape),index = appliance_readings[0].index,columns=appliance_readings[0].columns)
                         for app_reading in appliance_readings:
-- 
2.43.0


From 5a2f1b887ad891db897ac1a1427741e4c2cd5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:41 +0000
Subject: [PATCH 48/88] fix: train a method for as many epochs in its second
 experiment

---
 nilmtk/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/api.py b/nilmtk/api.py
index 6491ba8..bb71517 100644
--- a/nilmtk/api.py
+++ b/nilmtk/api.py
@@ -81,6 +81,8 @@ class API():
                     print ("Chunk wise training for ",clf.MODEL_NAME)
                     for i in range(n_epochs):
                         self.train_chunk_wise(clf, d, i)
+                    if hasattr(clf,'n_epochs'):
+                        clf.n_epochs = n_epochs
 
                 else:
                     print ("Joint training for ",clf.MODEL_NAME)
-- 
2.43.0


From 141d557ffe6dcfe8087fe4550f285a201c3f2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:21 +0000
Subject: [PATCH 49/88] fix: do not count missing readings, or drop fractions
 of a watt, in Mean

---
 nilmtk/disaggregate/mean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..ea76e4c 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -21,8 +21,8 @@ class Mean(Disaggregator):
             print("Training %s in %s model".format(app_name, self.MODEL_NAME), end="\r")
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
-            app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['sum'] += float(np.nansum(power_.values, dtype='float64'))
+            app_dict['n_elem'] += int(np.count_nonzero(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From 3f172e4607b037b9110a989814ce382472b42488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 50/88] fix: predict every chunk with Hart85, also if nothing
 is switched

---
 nilmtk/disaggregate/hart_85.py            | 19 +++++++++++--------
 nilmtk/feature_detectors/steady_states.py |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..6244cdc 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -403,9 +403,12 @@ class Hart85(Disaggregator):
         test_predictions_list = []
         
         for chunk in test_mains:
+            if chunk.empty:
+                test_predictions_list.append(pd.DataFrame(index=chunk.index, columns=self.appliances))
+                continue
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -456,7 +459,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
@@ -480,13 +483,13 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
+            temp_df=temp_df.fillna(0)
  
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)    
           
         
         return test_predictions_list
diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..2f022f3 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From 999819228973ade95af356209d15f56cb3206b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:04 +0000
Subject: [PATCH 51/88] fix: predictions of FHMM have the timestamps of the
 mains

---
 nilmtk/disaggregate/fhmm_exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..719e9d4 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -188,6 +188,7 @@ class FHMMExact(Disaggregator):
 
         train_main = pd.concat(train_main, axis=0)
         train_app_tmp = []
+        self.app_names = []
 
         for app_name, df_list in train_appliances:
             df_list = pd.concat(df_list, axis=0)
@@ -303,7 +304,7 @@ class FHMMExact(Disaggregator):
                     decoded_states_array.append(decoded_states)
                     decoded_power_array.append(decoded_power)
 
-                appliance_powers = pd.DataFrame(decoded_power_array[0], dtype='float32')
+                appliance_powers = pd.DataFrame(decoded_power_array[0], index=test_mains.index, dtype='float32')
                 test_prediction_list.append(appliance_powers)
         
         return test_prediction_list
\ No newline at end of file
-- 
2.43.0


From 66d5fb6717586e6a17f316fb0ce3e8026fd0c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 52/88] fix: assign the power of a state with Hart85 on NumPy 2

---
 nilmtk/disaggregate/hart_85.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 6244cdc..f04a814 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -517,6 +517,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            state_power = self.centroids.loc[appliance].values
+            if ndim == 1:
+                state_power = state_power[0]
             if ndim == 1:
                 power = np.zeros(len(values), dtype=int)
             else:
@@ -528,10 +531,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = state_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = state_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -564,10 +567,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = state_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = state_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From 009851e35639c0544b4874ae9f1a89c334b3fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 53/88] fix: convert iAWE, AMPds, COMBED and CAXE with pandas 2

DataFrame.drop() no longer takes the axis by position.
---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py     | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..1820edc 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..01d75c2 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..d95f34e 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop(columns="timestamp")
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..b187d54 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(columns=TIMESTAMP_COLUMN_NAME)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 0ed230018782c4cd170cea69e0e8305a124989c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 54/88] fix: close the data store when COMBED has been
 converted

The converted file could not be opened for reading by the same process.
---
 nilmtk/dataset_converters/combed/convert_combed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index d95f34e..66e2e4c 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -83,6 +83,8 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                     store.put(str(key), total)
                     any_file_converted = True
                     
+    store.close()
+
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
-- 
2.43.0


From 9f67587ec39ec16336dea406f0ec53377bc0d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 55/88] fix: convert GREEND with pandas 2

read_csv() no longer has error_bad_lines.
---
 nilmtk/dataset_converters/greend/convert_greend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..12b5d08 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,10 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
+            on_bad_lines = 'warn' if (
                 ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
-            )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            ) else 'error'
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, on_bad_lines=on_bad_lines)
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From a2b65e2088a1a14a5d55b50616263aa9ecd9bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 56/88] fix: number the meters of GREEND by date also without
 processes

With use_mp=False the meter of a device depended on the order in which the
directory was listed.
---
 nilmtk/dataset_converters/greend/convert_greend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index 12b5d08..91970ae 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -131,7 +131,7 @@ def convert_greend(greend_path, hdf_filename, use_mp=True):
     for house in houses:
         print('Loading', house)
         abs_house = join(greend_path, house)
-        dates = [d for d in listdir(abs_house) if d.startswith('dataset')]
+        dates = sorted(d for d in listdir(abs_house) if d.startswith('dataset'))
         target_filenames = [join(abs_house, date) for date in dates]
         if use_mp:
             house_data = pool.map(_get_blocks, target_filenames)
-- 
2.43.0


From 5cd9c6a6a456681b21d96fe433b2791064e68c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 57/88] fix: convert SMART from a relative path and in order

The converter changed the working directory, so that relative paths were not
found again, and read the years and meters in the order of the directory
listing: the numbers of the meters and the order of the readings depended on it.
---
 nilmtk/dataset_converters/smart/convert_smart.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nilmtk/dataset_converters/smart/convert_smart.py b/nilmtk/dataset_converters/smart/convert_smart.py
index cede480..f7eaf07 100644
--- a/nilmtk/dataset_converters/smart/convert_smart.py
+++ b/nilmtk/dataset_converters/smart/convert_smart.py
@@ -211,7 +211,7 @@ def _find_year(input_path, house_id):
                 'Home' +
                 house_id,
                 p))]
-    return year_names
+    return sorted(year_names)
 
 
 def _find_all_csv_paths(input_path, house_id, year):
@@ -221,11 +221,7 @@ def _find_all_csv_paths(input_path, house_id, year):
     list of csv paths of data (with respect to a house and a particular year )
     """
     house_year_path = (input_path + '/' + 'Home' + house_id + '/' + year)
-    extension = 'csv'
-    os.chdir(house_year_path)
-    csv_names = glob.glob(house_year_path + '/*.csv')
-
-    txt_paths = glob.glob(house_year_path + '/*.txt')
+    txt_paths = sorted(glob.glob(house_year_path + '/*.txt'))
 
     paths = []
     # Take only those csv files which have 30 minutes as sample period
-- 
2.43.0


From f3f37a11a24ae03708662b970cba5eff5ff1df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 58/88] fix: convert HES with pandas 2

read_csv() no longer has squeeze.
---
 nilmtk/dataset_converters/hes/convert_hes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index eaf2c72..0f9ce62 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -56,7 +56,7 @@ CIRCUIT_CODES = list(range(208, 218)) + [222]
 def load_list_of_house_ids(data_dir):
     """Returns a list of house IDs in HES (ints)."""
     filename = join(data_dir, 'anonhes', 'ipsos-anonymised-corrected_310713.csv')
-    series = pd.read_csv(filename, usecols=[0], index_col=False, squeeze=True)
+    series = pd.read_csv(filename, usecols=[0], index_col=False).iloc[:, 0]
     return series.tolist()
 
 
-- 
2.43.0


From 15edb75bb1f03a0c87b5ba80f78b333d3022d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 59/88] fix: give each HES meter the readings of its own
 appliance

Every meter of a house got the readings of all appliances of the house, and
every house a meter for each appliance in the chunk.
---
 nilmtk/dataset_converters/hes/convert_hes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index 0f9ce62..a9463ca 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -163,11 +163,11 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
                 nilmtk_house_id = house_codes.index(hes_house_id)+1
                 
                 # Iterate over appliances in house
-                for appliance_code, appliance_df in chunk.groupby('appliance code'):
+                for appliance_code, appliance_df in hes_house_id_df.groupby('appliance code'):
                     if appliance_code not in house_appliance_codes[hes_house_id]:
                         house_appliance_codes[hes_house_id].append(appliance_code)
                     nilmtk_meter_id = house_appliance_codes[hes_house_id].index(appliance_code)+1
-                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, hes_house_id_df, store, appliance_code)
+                    _process_meter_in_chunk(nilmtk_house_id, nilmtk_meter_id, appliance_df, store, appliance_code)
                     
             chunk_i += 1
             
-- 
2.43.0


From 604503d65edb0665b1403caa9522a512056a4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 60/88] fix: describe the HES appliances that come after a
 mains channel

The first mains, circuit or temperature channel ended the list of appliances.
---
 nilmtk/dataset_converters/hes/convert_hes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index a9463ca..dcde89d 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -194,12 +194,12 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
             if appliance_code in MAINS_CODES:
                 meter_metadata = {'device_model': 'multivoies',
                                   'site_meter': True}
-                break
+                continue
             elif appliance_code in CIRCUIT_CODES:
                 meter_metadata = {'device_model': 'multivoies'}
-                break
+                continue
             elif appliance_code in TEMPERATURE_CODES:
-                break
+                continue
             else: # is appliance
                 meter_metadata = {'device_model': 'wattmeter'}
                 
-- 
2.43.0


From dada1a35316bc7aa25a865df9e9241564998e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 61/88] fix: keep the meters of a Dataport building in its
 second file

The meters were numbered again in each file, by the columns which have data
there: readings of different appliances ended up in one meter, and the
appliances were listed twice.
---
 nilmtk/dataset_converters/dataport/csv_converter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..371e9a4 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -334,7 +334,15 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         nilmtk_b_id = tuple(nilmtk_metadata).index(b_id) + 1
         nilmtk_metadata[b_id]["instance"] = nilmtk_b_id
 
-    for m_id, meter in enumerate(b_data.columns):
+    # A building can be in several files: keep the meters it has by now.
+    elec_meters = nilmtk_metadata[b_id]["elec_meters"]
+    known = { app["original_name"]: app["meters"][0]
+              for app in nilmtk_metadata[b_id]["appliances"] }
+    known.update({ "use": m_id for m_id, meter_metadata in elec_meters.items()
+                   if meter_metadata.get("site_meter") })
+
+    for meter in b_data.columns:
+        m_id = known.get(meter, len(elec_meters) + 1) - 1
         key = nilmtk.datastore.Key(building=nilmtk_b_id, meter=m_id + 1)
         msg = "\tWriting {}".format(str(key))
         print(msg, end='\r')
@@ -344,6 +352,9 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         m_data.columns.set_names(nilmtk.measurement.LEVEL_NAMES, inplace=True)
         hdf_store.put(str(key), m_data, format="table", append=True)
         hdf_store.flush()
+        if meter in known:
+            print("\t" + " " * len(msg), end='\r')
+            continue
         # Meter & appliance metadata
         if meter == 'use':
             meter_metadata = { "device_model": "eGauge", "site_meter": True }
-- 
2.43.0


From 6dff168484921f49cae5b1e9fc0f37a5457c5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 62/88] fix: remove the temporary metadata of the Dataport
 converter

---
 nilmtk/dataset_converters/dataport/csv_converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 371e9a4..102a1c2 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -434,6 +434,7 @@ def convert_dataport(csv_filenames, metadata_path, hdf_filename, chunksize=1e6):
             yml_file.write(yaml.dump(b_metadata))
 
     convert_yaml_to_hdf5(metadata_dir, hdf_filename)
+    shutil.rmtree(os.path.dirname(metadata_dir))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 663991c401e7d3b4709b4df33f8ceef6e40d0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 63/88] fix: convert UK-DALE to CSV

A CSV data store could not be opened again, and got no metadata.
---
 nilmtk/dataset_converters/ukdale/convert_ukdale.py | 4 +++-
 nilmtk/datastore/csvdatastore.py                   | 2 +-
 nilmtk/datastore/datastore.py                      | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nilmtk/dataset_converters/ukdale/convert_ukdale.py b/nilmtk/dataset_converters/ukdale/convert_ukdale.py
index 8f402e2..d7c4069 100644
--- a/nilmtk/dataset_converters/ukdale/convert_ukdale.py
+++ b/nilmtk/dataset_converters/ukdale/convert_ukdale.py
@@ -4,7 +4,7 @@ from nilmtk.dataset_converters.redd.convert_redd import (_convert, _load_csv)
 from nilmtk import DataSet
 from nilmtk.utils import get_datastore
 from nilmtk.datastore import Key
-from nilm_metadata import convert_yaml_to_hdf5
+from nilm_metadata import convert_yaml_to_hdf5, save_yaml_to_datastore
 
 
 ONE_SEC_COLUMNS = [('power', 'active'), ('power', 'apparent'), ('voltage', '')]
@@ -47,6 +47,8 @@ def convert_ukdale(ukdale_path, output_filename, format='HDF', drop_duplicates=T
     # Add metadata
     if format == 'HDF':
         convert_yaml_to_hdf5(join(ukdale_path, 'metadata'), output_filename)
+    else:
+        save_yaml_to_datastore(join(ukdale_path, 'metadata'), store)
 
     # Convert 1-second data
     store.open(mode='a')
diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index c3417f3..8404ab1 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -224,7 +224,7 @@ class CSVDataStore(DataStore):
         pass
 
     @doc_inherit
-    def open(self):
+    def open(self, mode='a'):
         # not needed for CSV data store
         pass
         
diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index 81f80cf..50e02c4 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -169,7 +169,7 @@ class DataStore(object):
     def close(self):
         raise NotImplementedError("NotImplementedError")
 
-    def open(self):
+    def open(self, mode='a'):
         raise NotImplementedError("NotImplementedError")
         
     def get_timeframe(self, key):
-- 
2.43.0


From 90c85116bdf5d396a2da9faa0e006f8e29c4e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:59 +0000
Subject: [PATCH 64/88] fix: do not skip a HES file that cannot be read

A read error was taken for a missing file, so that its readings were silently
left out.
---
 nilmtk/dataset_converters/hes/convert_hes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/hes/convert_hes.py b/nilmtk/dataset_converters/hes/convert_hes.py
index dcde89d..093cf20 100644
--- a/nilmtk/dataset_converters/hes/convert_hes.py
+++ b/nilmtk/dataset_converters/hes/convert_hes.py
@@ -131,7 +131,7 @@ def convert_hes(data_dir, output_filename, format='HDF', max_chunks=None):
         try:
             reader = pd.read_csv(full_filename, names=COL_NAMES, 
                                  index_col=False, chunksize=CHUNKSIZE)
-        except IOError as e:
+        except FileNotFoundError as e:
             print(e, file=stderr)
             continue
 
-- 
2.43.0


From 78802590e0e024e1a4423fa0b96d72c160edc1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 65/88] fix: close the file of a DataSet which cannot be opened

It stayed open, so that it could not be opened for writing any more.
---
 nilmtk/dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset.py b/nilmtk/dataset.py
index 6ea8cbd..ea5666e 100644
--- a/nilmtk/dataset.py
+++ b/nilmtk/dataset.py
@@ -42,7 +42,12 @@ class DataSet(object):
         self.buildings = OrderedDict()
         self.metadata = {}
         if filename is not None:
-            self.import_metadata(get_datastore(filename, format))
+            store = get_datastore(filename, format)
+            try:
+                self.import_metadata(store)
+            except BaseException:
+                store.close()
+                raise
 
     def import_metadata(self, store):
         """
-- 
2.43.0


From ca253fcb6ad88606d214dc57bb782cf51aba1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 66/88] fix: remove the file of a TmpDataStore which cannot be
 opened

---
 nilmtk/datastore/tmpdatastore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/tmpdatastore.py b/nilmtk/datastore/tmpdatastore.py
index c536fa6..a795e8e 100644
--- a/nilmtk/datastore/tmpdatastore.py
+++ b/nilmtk/datastore/tmpdatastore.py
@@ -13,7 +13,11 @@ class TmpDataStore(HDFDataStore):
         fd, tmp_path = tempfile.mkstemp(suffix=".h5", prefix="nilmtk-")
         os.close(fd)
         self.full_path = tmp_path
-        super().__init__(filename=self.full_path, mode="a")
+        try:
+            super().__init__(filename=self.full_path, mode="a")
+        except BaseException:
+            os.remove(self.full_path)
+            raise
 
     @doc_inherit
     def close(self):
-- 
2.43.0


From 85c190aa946da2eb850996aad3e0c321e211669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 67/88] fix: remove the statistics cache when the process ends

Every process which imported nilmtk left a file in the temporary directory.
---
 nilmtk/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/__init__.py b/nilmtk/__init__.py
index b7c84b1..b8f3e97 100644
--- a/nilmtk/__init__.py
+++ b/nilmtk/__init__.py
@@ -1,3 +1,4 @@
+import atexit
 import warnings
 import pandas as pd
 
@@ -21,6 +22,7 @@ with warnings.catch_warnings():
 
 global_meter_group = MeterGroup()
 STATS_CACHE = TmpDataStore()
+atexit.register(STATS_CACHE.close)
 
 def setup_package():
     """Nosetests package setup function (run when tests are done).
-- 
2.43.0


From 687cf310a16eed7418e722486ba7dda80bf4c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:46 +0000
Subject: [PATCH 68/88] fix: do not modify the resample_kwargs and
 preprocessing of the caller

---
 nilmtk/elecmeter.py |  3 ++-
 nilmtk/electric.py  | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 201d334..bb2d847 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -431,7 +431,8 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index f9d3199..d37e377 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -135,15 +135,15 @@ class Electric(object):
         sample_period = int(round(sample_period))
 
         if resample:
-            if resample_kwargs is None:
-                resample_kwargs = {}
+            # Don't modify the dict and the list of the caller
+            resample_kwargs = dict(resample_kwargs or {})
+            resample_kwargs['rule'] = '{:d}S'.format(sample_period)
 
             def resample_func(df):
-                resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            kwargs['preprocessing'] = (list(kwargs.get('preprocessing', [])) +
+                                       [Apply(func=resample_func)])
 
         return kwargs
 
-- 
2.43.0


From d7e82ebc0c1ddb4b4405c2357a9f23547b3b093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:46 +0000
Subject: [PATCH 69/88] fix: allow preprocessing nodes to be used for more than
 one load

---
 nilmtk/elecmeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index bb2d847..3c6a717 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -1,7 +1,7 @@
 import re
 from warnings import warn
 from collections import namedtuple
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 import pandas as pd
 from .preprocessing import Clip
@@ -463,8 +463,10 @@ class ElecMeter(Hashable, Electric):
         last_node = self.get_source_node(**kwargs)
         generator = last_node.generator
 
-        # Connect together all preprocessing nodes
+        # Connect together all preprocessing nodes.  The nodes may be in use
+        # by another stream, so connect copies.
         for node in preprocessing:
+            node = copy(node)
             node.upstream = last_node
             last_node = node
             generator = last_node.process()
-- 
2.43.0


From f85fc4e9c21c3f996ebf06faea241f023ff4b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 70/88] fix: do not count disabled site meters as upstream
 mains

---
 nilmtk/elecmeter.py  | 12 +++++++++---
 nilmtk/metergroup.py |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 3c6a717..1e7167e 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -58,6 +58,7 @@ class ElecMeter(Hashable, Electric):
         self.identifier = meter_id
         # All meters of the same building of the same DataSet object, if known
         self.meters_in_building = None
+        self.elec_of_building = None
 
         # Insert self into nilmtk.global_meter_group
         if self.identifier is not None:
@@ -133,9 +134,14 @@ class ElecMeter(Hashable, Electric):
                                      dataset=self.identifier.dataset)
 
         # Another DataSet object may have a meter with the same identifier.
-        meters = (nilmtk.global_meter_group if self.meters_in_building is None
-                  else self.meters_in_building)
-        upstream_meter = meters[id_of_upstream]
+        if submeter_of == 0 and self.elec_of_building is not None:
+            # the mains in use, without any disabled site meters
+            upstream_meter = self.elec_of_building.mains()
+        else:
+            meters = (nilmtk.global_meter_group
+                      if self.meters_in_building is None
+                      else self.meters_in_building)
+            upstream_meter = meters[id_of_upstream]
         if upstream_meter is None:
             warn("No upstream meter found for '{}'.".format(self.identifier))
         return upstream_meter
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 8fa4a8d..3673a52 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -96,6 +96,7 @@ class MeterGroup(Electric):
                                    dataset=building_id.dataset)
             meter = ElecMeter(store, meter_metadata_dict, meter_id)
             meter.meters_in_building = meters_in_building
+            meter.elec_of_building = self
             meters_in_building.meters.append(meter)
             self.meters.append(meter)
 
-- 
2.43.0


From 1b6e17f39e24dd4f32e49aba16def6cdca79bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 71/88] fix: look at every appliance of a meter when selecting
 by metadata

---
 nilmtk/electric.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index d37e377..6784bdb 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -95,9 +95,18 @@ class Electric(object):
         True if all key:value pairs in `key` match any appliance
         in `self.appliances`.
         """
+        exception = None
+        no_exception = False
         for appliance in self.appliances:
-            if appliance.matches(key):
-                return True
+            try:
+                if appliance.matches(key):
+                    return True
+                no_exception = True
+            except KeyError as e:
+                # another appliance may have this key
+                exception = e
+        if exception is not None and not no_exception:
+            raise exception
         return False
 
     def power_series_all_data(self, **kwargs):
-- 
2.43.0


From 2b1914aef942010267f8ef30dff4b671a98d73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 72/88] fix: make MeterGroup.from_other_metergroup return a
 group

---
 nilmtk/metergroup.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 3673a52..9316f2c 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -462,21 +462,27 @@ class MeterGroup(Electric):
         -------
         MeterGroup
         """
-        other_identifiers = other.identifier.meters
-        new_identifiers = []
-        for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
-                nested = []
-                for instance in new_id.instance:
-                    new_nested_id = new_id._replace(instance=instance)
-                    nested.append(new_nested_id)
-                new_identifiers.append(tuple(nested))
-            else:
-                new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        def with_new_dataset(other_identifiers):
+            new_identifiers = []
+            for other_id in other_identifiers:
+                if isinstance(other_id, MeterGroupID):
+                    new_identifiers.append(MeterGroupID(
+                        meters=tuple(with_new_dataset(other_id.meters))))
+                    continue
+                new_id = other_id._replace(dataset=dataset)
+                if isinstance(new_id.instance, tuple):
+                    nested = []
+                    for instance in new_id.instance:
+                        new_nested_id = new_id._replace(instance=instance)
+                        nested.append(new_nested_id)
+                    new_identifiers.append(tuple(nested))
+                else:
+                    new_identifiers.append(new_id)
+            return new_identifiers
+
+        from nilmtk import global_meter_group
+        return global_meter_group.from_list(
+            with_new_dataset(other.identifier.meters))
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From 26453c3ae7bb6e309b6ce0a9569fee5b68bccd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 73/88] fix: order of AC types of a statistic does not depend
 on the hash seed

---
 nilmtk/results.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..8c9a2df 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -195,11 +195,8 @@ class Results(object):
                 for i in range(len(self._data))]
 
     def _columns_with_end_removed(self):
-        cols = set(self._data.columns)
-        if len(cols) > 0:
-            cols.remove('end')
-        cols = list(cols)
-        return cols
+        # in the order of the columns, which is the same in every process
+        return [col for col in self._data.columns if col != 'end']
 
     def __repr__(self):
         return str(self._data)
-- 
2.43.0


From a2a9ece55d4d510288df4d66f0b4d3d6d657410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 74/88] fix: proportion of upstream per meter of groups with
 nested groups

---
 nilmtk/metergroup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9316f2c..a35c3cf 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1227,14 +1227,17 @@ class MeterGroup(Electric):
         return energy_per_meter / total_energy
 
     def proportion_of_upstream_total_per_meter(self, **load_kwargs):
-        prop_per_meter = pd.Series(index=self.identifier.meters)
+        proportions = []
         n_meters = len(self.meters)
         for i, meter in enumerate(self.meters):
             proportion = meter.proportion_of_upstream(**load_kwargs)
             print('\r{:d}/{:d} {} = {:.3f}'
                   .format(i+1, n_meters, meter, proportion), end='')
             stdout.flush()
-            prop_per_meter[meter.identifier] = proportion
+            proportions.append(proportion)
+        # do not take the identifiers apart: those of groups differ in shape
+        prop_per_meter = pd.Series(proportions, dtype='float64', index=pd.Index(
+            [meter.identifier for meter in self.meters], tupleize_cols=False))
         prop_per_meter.sort_values(inplace=True, ascending=False)
         return prop_per_meter
 
-- 
2.43.0


From aa20ae9ef8731864e44736fecbaf4573b97ecd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 75/88] fix: intersection of time frames in two time zones has
 its ends in one

---
 nilmtk/timeframe.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 741c08c..7a965c3 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -175,6 +175,14 @@ class TimeFrame(object):
                     end = None
                     empty = True
 
+        # Both ends in the same time zone (that of other, if they differ)
+        tz = [t.tz for t in (other.start, other.end, self.start, self.end)
+              if t is not None and t.tz is not None]
+        if start is not None and start.tz is not None:
+            start = start.tz_convert(tz[0])
+        if end is not None and end.tz is not None:
+            end = end.tz_convert(tz[0])
+
         intersect = TimeFrame(start, end)
         intersect._empty = empty
         intersect.include_end = include_end
-- 
2.43.0


From 4476e29b5602db215c7849a4d7ce17abd4300aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 76/88] fix: comparing two meters does not end at the first
 short good section

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 6784bdb..43db08c 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -852,7 +852,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From a2a7ab70d3258c32db3b297cf5df7c0b2e7ac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 77/88] fix: order of AC types of a statistic of selected
 columns does not depend on the hash seed

---
 nilmtk/elecmeter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1e7167e..9109e30 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -691,7 +691,7 @@ class ElecMeter(Hashable, Electric):
         if 'ac_type' in loader_kwargs or 'physical_quantity' in loader_kwargs:
             loader_kwargs = self._convert_physical_quantity_and_ac_type_to_cols(**loader_kwargs)
         columns = loader_kwargs.get('columns', [])
-        ac_types = set([m[1] for m in columns if m[1]])
+        ac_types = list(dict.fromkeys([m[1] for m in columns if m[1]]))
 
         # Prepare `sections` list
         sections = loader_kwargs.get('sections')
@@ -749,7 +749,7 @@ class ElecMeter(Hashable, Electric):
                     if res.empty:
                         return res
                     else:
-                        return pd.Series(res[list(ac_types)], index=list(ac_types))
+                        return pd.Series(res[ac_types], index=ac_types)
             else:
                 return res
 
-- 
2.43.0


From 0ae0af80bb139617a5107c63ef7506e21022a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 78/88] fix: F1 score of meters which share no sample in some
 good section

---
 nilmtk/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..b1c4ed0 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -219,6 +219,8 @@ def f1_score(predictions, ground_truth):
             pred_meter, ground_truth_meter, 'when_on')
         for aligned_states_chunk in aligned_meters:
             aligned_states_chunk.dropna(inplace=True)
+            if aligned_states_chunk.empty:
+                continue
             aligned_states_chunk = aligned_states_chunk.astype(int)
             score = sklearn_f1_score(aligned_states_chunk.iloc[:, 0],
                                      aligned_states_chunk.iloc[:, 1])
-- 
2.43.0


From 6c67d4b0ec12197dd492b1a497c2b85a91fd2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 79/88] fix: time frames of the parts of a section are in its
 time zone

---
 nilmtk/datastore/hdfdatastore.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 51521e3..4e064fb 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -345,6 +345,12 @@ def _timeframe_for_chunk(there_are_more_subchunks, chunk_i, window_intersect, in
         start = window_intersect.start
         end = window_intersect.end
 
+    # the ends of all parts are in the time zone of the section
+    index = index[[0, -1]]
+    for edge in (window_intersect.start, window_intersect.end):
+        if edge is not None and edge.tz is not None and index.tz is not None:
+            index = index.tz_convert(edge.tz)
+
     # a TimeFrame cannot start and end with the same row
     if start is None and (end is None or index[0] < end):
         start = index[0]
-- 
2.43.0


From bd40f723d4236523c14f540d04f8932bc7e8347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 80/88] fix: assign the power of a state with the legacy Hart85
 on NumPy 2

---
 nilmtk/legacy/disaggregate/hart_85.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..0f4d30a 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -362,6 +362,9 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            state_power = self.centroids.loc[appliance].values
+            if ndim == 1:
+                state_power = state_power[0]
             if ndim == 1:
                 power = np.zeros(len(values), dtype=int)
             else:
@@ -373,10 +376,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = state_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = state_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -409,10 +412,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = state_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = state_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From b2166200d916f0590693d6e20fffda53a5f591e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 81/88] fix: disaggregate mains in which nothing is switched
 with the legacy Hart85

---
 nilmtk/legacy/disaggregate/hart_85.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 0f4d30a..9cab39a 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -331,7 +331,7 @@ class Hart85(Disaggregator):
         self.chunk_index = chunk.index
 
         # Check whether 1d data or 2d data and converting dict to dataframe
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
 
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)
             return temp_df, 2
-- 
2.43.0


From 4cb2787448ecd7acec2805e103745bdd996fdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 82/88] fix: meters can be pickled, so that trained models can
 be exported

---
 nilmtk/elecmeter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 9109e30..f080064 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -66,6 +66,18 @@ class ElecMeter(Hashable, Electric):
             if self not in nilmtk.global_meter_group.meters:
                 nilmtk.global_meter_group.meters.append(self)
 
+    def __getstate__(self):
+        # The statistics cache and the other meters of the building belong to
+        # this process, and cannot be pickled
+        state = self.__dict__.copy()
+        state.update(cache=None, meters_in_building=None,
+                     elec_of_building=None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.cache = nilmtk.STATS_CACHE
+
     @property
     def key(self):
         return self.metadata['data_location']
-- 
2.43.0


From 80cdd0727d3ee7e042cf09297785ebfaba0fb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 83/88] fix: statistics of another data set of the same name
 are not taken from the cache

---
 nilmtk/datastore/datastore.py | 8 ++++++++
 nilmtk/elecmeter.py           | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index 50e02c4..8c46e95 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -1,3 +1,5 @@
+from itertools import count
+
 import yaml
 from nilmtk.timeframe import TimeFrame
 from io import open
@@ -29,7 +31,12 @@ class DataStore(object):
     ----------
     window : nilmtk.TimeFrame
         Defines the timeframe we are interested in.
+
+    number : int
+        Tells this store from all others of the process.
     """
+    _numbers = count(1)
+
     def __init__(self):
         """
         Parameters
@@ -37,6 +44,7 @@ class DataStore(object):
         filename : string
         """
         self.window = TimeFrame()
+        self.number = next(DataStore._numbers)
 
     def __getitem__(self, key):
         """Loads all of a DataFrame from disk.
diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index f080064..d2db88f 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -848,8 +848,12 @@ class ElecMeter(Hashable, Electric):
         dataset_str = re.sub(r'\W', lambda match: '_{:x}_'.format(ord(match.group())),
                              str(self.dataset()), flags=re.ASCII)
 
-        return ("dataset_{:s}/building{:d}/elec/cache/meter{}/{:s}"
-                .format(dataset_str, self.building(), meter_str, stat_name))
+        # Another store may hold a dataset of the same name.
+        store_number = getattr(self.store, 'number', 0)
+
+        return ("dataset_{:s}_store{:d}/building{:d}/elec/cache/meter{}/{:s}"
+                .format(dataset_str, store_number, self.building(), meter_str,
+                        stat_name))
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 658634a08b58f3e5e31b5c31b31daf9901627e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:19 +0000
Subject: [PATCH 84/88] fix: legacy Hart85 copies all parts of the mains, not
 only the last

---
 nilmtk/legacy/disaggregate/hart_85.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 9cab39a..6ef8d9f 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -493,13 +493,11 @@ class Hart85(Disaggregator):
         print('Appending mains data to datastore')
 
         for chunk_mains in mains.load(ac_type=ac_type):
-            chunk_df = chunk_mains
-
-        chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+            chunk_df = chunk_mains.apply(pd.to_numeric).astype('float32')
+            output_datastore.append(key=mains_data_location,
+                                    value=chunk_df)
         print('Done')
 
-        output_datastore.append(key=mains_data_location,
-                                value=chunk_df)
         # save metadata
         if data_is_available:
             self._save_metadata_for_disaggregation(
-- 
2.43.0


From fcfc912ee864f49c7bb6966ed884899a61b209d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 85/88] fix: legacy Hart85 of mains without good sections
 writes nothing

---
 nilmtk/feature_detectors/steady_states.py | 2 ++
 nilmtk/legacy/disaggregate/hart_85.py     | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index 2f022f3..570e315 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -30,6 +30,8 @@ def find_steady_states_transients(metergroup, columns, noise_level,
             state_threshold=state_threshold)
         steady_states_list.append(x)
         transients_list.append(y)
+    if not steady_states_list:
+        return [pd.DataFrame(), pd.DataFrame()]
     return [pd.concat(steady_states_list), pd.concat(transients_list)]
 
 
diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 6ef8d9f..f2f3877 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -459,6 +459,7 @@ class Hart85(Disaggregator):
             prev[meter] = -1
 
         timeframes = []
+        power_df = None
         # Now iterating over mains data and disaggregating chunk by chunk
         if len(self.columns) == 1:
             ac_type = self.columns[0][1]
@@ -466,8 +467,10 @@ class Hart85(Disaggregator):
             ac_type = ['active', 'reactive']
 
         for chunk in mains.power_series(**load_kwargs):
-            # Record metadata
+            if chunk.empty:
+                continue
 
+            # Record metadata
             timeframes.append(chunk.timeframe)
             measurement = chunk.name
             power_df, dimen = self.disaggregate_chunk(
@@ -490,6 +493,9 @@ class Hart85(Disaggregator):
                 output_datastore.append(key, value=val)
             print('Next Chunk..')
 
+        if not data_is_available:
+            return power_df
+
         print('Appending mains data to datastore')
 
         for chunk_mains in mains.load(ac_type=ac_type):
-- 
2.43.0


From 3698ac9136700784183f11278c073c1bcf129e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 86/88] fix: correlation pairs readings of the same instant and
 counts each once

---
 nilmtk/electric.py | 74 ++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 43db08c..b6bc004 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -11,7 +11,6 @@ import numpy.random as nr
 import matplotlib.pyplot as plt
 import numpy as np
 from datetime import timedelta
-import gc
 import pytz
 
 from .timeframe import TimeFrame
@@ -335,51 +334,42 @@ class Electric(object):
         sample_period = max(self.sample_period(), other.sample_period())
         load_kwargs.setdefault('sample_period', sample_period)
 
-        def sum_and_count(electric):
-            n = 0
-            cumulator = 0.0
-            for power in electric.power_series(**load_kwargs):
-                n += len(power.index)
-                cumulator += power.sum()
-            return n, cumulator
-
-        x_n, x_sum = sum_and_count(self)
-        if x_n <= 1:
-            return np.nan
-
-        y_n, y_sum = sum_and_count(other)
-        if y_n <= 1:
+        def aligned_chunks():
+            # Only instants for which both have a reading count, and each of
+            # them once: successive chunks may share a reading.
+            prev_end = None
+            for x_power, y_power in zip(self.power_series(**load_kwargs),
+                                        other.power_series(**load_kwargs)):
+                if x_power.empty or y_power.empty:
+                    continue
+                both = pd.concat([x_power, y_power], axis=1, join='inner').dropna()
+                both = both.astype(np.float64)
+                if prev_end is not None:
+                    both = both[both.index > prev_end]
+                if len(both) > 0:
+                    prev_end = both.index[-1]
+                yield both.iloc[:, 0], both.iloc[:, 1]
+
+        # First pass is used to find the means
+        n, x_sum, y_sum = 0, 0.0, 0.0
+        for x_power, y_power in aligned_chunks():
+            n += len(x_power)
+            x_sum += x_power.sum()
+            y_sum += y_power.sum()
+        if n <= 1:
             return np.nan
+        x_bar = x_sum / n
+        y_bar = y_sum / n
 
-        x_bar = x_sum / x_n 
-        y_bar = y_sum / y_n
-
-        # Second pass is used to find x_s and y_s (std.devs)
-        def stdev(electric, mean, n):
-            s_square_sum = 0.0
-            for power in electric.power_series(**load_kwargs):
-                s_square_sum += ((power - mean) * (power - mean)).sum()
-            s_square = s_square_sum / (n - 1)
-            return np.sqrt(s_square)
-
-        x_s = stdev(self, x_bar, x_n)
-        y_s = stdev(other, y_bar, y_n)
-
-        numerator = 0.0
-        for (x_power, y_power) in zip(self.power_series(**load_kwargs), 
-                                       other.power_series(**load_kwargs)):
+        # Second pass is used to find the variances and the covariance
+        x_squares, y_squares, products = 0.0, 0.0, 0.0
+        for x_power, y_power in aligned_chunks():
             xi_minus_xbar = x_power - x_bar
-            del x_power
-            gc.collect()
             yi_minus_ybar = y_power - y_bar
-            del y_power
-            gc.collect()
-            numerator += (xi_minus_xbar * yi_minus_ybar).sum()
-            del xi_minus_xbar
-            del yi_minus_ybar
-            gc.collect()
-        denominator = (x_n - 1) * x_s * y_s
-        corr = numerator / denominator
+            x_squares += (xi_minus_xbar ** 2).sum()
+            y_squares += (yi_minus_ybar ** 2).sum()
+            products += (xi_minus_xbar * yi_minus_ybar).sum()
+        corr = products / np.sqrt(x_squares * y_squares)
         return corr
 
     def plot_lag(self, lag=1, ax=None):
-- 
2.43.0


From a60765a183e04f64634dc450cbfd5ae8b3981244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 87/88] fix: entropy and mutual information work on Python 3

---
 nilmtk/electric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b6bc004..6250f72 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -514,7 +514,7 @@ class Electric(object):
             tree = ss.cKDTree(z)
             nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in z]
             const = digamma(N)-digamma(k) + d*log(2)
-            return (const + d*np.mean(map(log, nn)))/log(base)
+            return (const + d*np.mean([log(dist) for dist in nn]))/log(base)
 
         out = []
         for power in self.power_series():
@@ -523,7 +523,7 @@ class Electric(object):
             x = x.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
 
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 y = np.array_split(x, splits)
                 for z in y:            
                     out.append(kdtree_entropy(z))                    
@@ -579,7 +579,7 @@ class Electric(object):
             power_x_val = power_x_val.reshape((num_elements, 1))
             power_y_val = power_y_val.reshape((num_elements, 1))            
             if num_elements > MAX_SIZE_ENTROPY:
-                splits = num_elements/MAX_SIZE_ENTROPY + 1
+                splits = num_elements//MAX_SIZE_ENTROPY + 1
                 x_split = np.array_split(power_x_val, splits)
                 y_split = np.array_split(power_y_val, splits)
                 for x, y  in zip(x_split, y_split):
-- 
2.43.0


From 7e2cfd742851d15a4faadbcc30398551de1afe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:26 +0000
Subject: [PATCH 88/88] fix: Clip applies a single limit

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index c9dc737..f059d55 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -28,7 +28,7 @@ class Clip(Node):
                 lower, upper = _find_limits(measurement, measurements)
                 lower = lower if self.lower is None else self.lower
                 upper = upper if self.upper is None else self.upper
-                if lower is not None and upper is not None:
+                if lower is not None or upper is not None:
                     # We use `chunk.iloc[:,icol]` instead of iterating
                     # through each column so we can to the clipping in place
                     icol = index_of_column_name(chunk, measurement)
-- 
2.43.0


From affacdc20232837205742fc47887abe8620749e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 01/87] fix: in-memory null interaction pair generator fails
 (np.float removed) and never samples below-threshold pairs

---
 DRecPy/Dataset/mem_dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..cdc1d4e 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -4,7 +4,6 @@ import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
-import numpy as np
 
 
 class MemoryInteractionDataset(InteractionDatasetABC):
@@ -140,14 +139,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed=seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
-        max_uid = self.max('uid')
-        max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        max_uid = int(self.max('uid'))
+        max_iid = int(self.max('iid'))
+        n_possible_combs = max_uid * max_iid
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From a20d4343a78adedad92c345c3ed5b7a373a2052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 02/87] fix: in-memory interaction vectors wrong for
 single-user datasets and for non contiguous internal ids

---
 DRecPy/Dataset/mem_dataset.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index cdc1d4e..0d733d0 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -166,7 +166,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
 
         try:
-            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
+            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape == (0, 0):
                 raise MemoryError
 
             if self._cached_interaction_matrix is None:
@@ -175,7 +175,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             return self._cached_interaction_matrix[uid]
         except MemoryError:
             # don't try to use this again (if it didn't fit in memory now, probably wont fit later)
-            self._cached_interaction_matrix = csr_matrix(0)
+            self._cached_interaction_matrix = csr_matrix((0, 0))
             cols, interactions = [], []
             df_segment = self._df[self._df['uid'].values == uid]
             projected_cols = [col for col in self.columns if col != 'rid']
@@ -186,14 +186,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+                              shape=(1, int(self.max('iid')) + 1))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
 
         try:
-            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape[0] <= 1:
+            if self._cached_interaction_matrix is not None and self._cached_interaction_matrix.shape == (0, 0):
                 raise MemoryError
 
             if self._cached_interaction_matrix is None:
@@ -202,19 +202,19 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             return self._cached_trans_interaction_matrix[iid]
         except MemoryError:
             # don't try to use this again (if it didn't fit in memory now, probably wont fit later)
-            self._cached_interaction_matrix = csr_matrix(0)
+            self._cached_interaction_matrix = csr_matrix((0, 0))
 
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+                              shape=(1, int(self.max('uid')) + 1))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -480,7 +480,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        n_uids = int(self.max('uid')) + 1
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -492,6 +492,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+                                                     shape=(n_uids, int(self.max('iid')) + 1))
 
-        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
+        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose().tocsr()
-- 
2.43.0


From 04e13e601c2d94fbf94269fe411aa7d9c7ae7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 03/87] fix: in-memory interaction vectors stale after in-place
 select/unique/drop/assign_internal_ids

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 0d733d0..60900e6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -81,6 +81,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     def select(self, query, copy=True):
         new_ds = self.copy() if copy else self
         new_ds._apply_query(query)
+        new_ds._reset_interaction_matrix()
 
         return new_ds
 
@@ -225,6 +226,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
+        new_ds._reset_interaction_matrix()
 
         return new_ds
 
@@ -258,6 +260,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._reset_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -307,6 +310,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)
+        self._reset_interaction_matrix()
 
         if 'uid' not in self.columns: self.columns.append('uid')
         # convert raw user ids (user column) to internal user ids (uid)
@@ -476,6 +480,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 return self._df[condition_vector]
             return self._df
 
+    def _reset_interaction_matrix(self):
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-- 
2.43.0


From b28dee50051d70f13b5fbd451c3cba6fc96c17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:25 +0000
Subject: [PATCH 04/87] fix: in-memory range queries on string ids compare
 internal ids; queries fail after unique() drops them

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 60900e6..6b5c6b0 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -426,10 +426,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            if column == 'user' and operator in ['==', '!='] and 'uid' in self._df.columns and 'int' not in col_dtype:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and operator in ['==', '!='] and 'iid' in self._df.columns and 'int' not in col_dtype:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From b94c2d821c5b6a33cd1f33841fbf2e4a5ac45de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:26 +0000
Subject: [PATCH 05/87] fix: read_df drops main columns for non interned labels
 and inherits the data frame index as record ids

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 6b5c6b0..6f1d07d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -37,7 +37,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                                    skiprows=skip_rows, usecols=use_cols)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-            self._df = kwds.get('df')
+            self._df = kwds.get('df').reset_index(drop=True)  # record ids are always 0..n-1
 
         try:
             self._df['user'] = self._df[kwds.get('user_label', 'user')]
@@ -52,15 +52,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if self.columns is None:
             self.columns = list(self._df.columns) + ['rid']
             user_label = kwds.get('user_label', None)
-            if user_label is not None and user_label is not 'user':
+            if user_label is not None and user_label != 'user':
                 self.columns.remove(user_label)
 
             item_label = kwds.get('item_label', None)
-            if item_label is not None and item_label is not 'item':
+            if item_label is not None and item_label != 'item':
                 self.columns.remove(item_label)
 
             interaction_label = kwds.get('interaction_label', None)
-            if interaction_label is not None and interaction_label is not 'interaction':
+            if interaction_label is not None and interaction_label != 'interaction':
                 self.columns.remove(interaction_label)
 
         # remove extra columns
-- 
2.43.0


From 33326b01e38bd36945f644e0fa3146fe5bc747fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:26 +0000
Subject: [PATCH 06/87] fix: in-memory save ignores the columns argument

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 6f1d07d..a7dff73 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -302,7 +302,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
+        projected_cols = list(self._handle_columns(columns))
         if 'rid' in projected_cols: projected_cols.remove('rid')
         if 'uid' in projected_cols: projected_cols.remove('uid')
         if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From c2b2b7ddf34fd09ea12cccc287f3e9c3a9b1b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 07/87] fix: database unique() and csv save() modify the
 caller's column list

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..baefe77 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -232,7 +232,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     yield random_uid, random_iid
 
     def unique(self, columns=None, copy=True):
-        columns = self._handle_columns(columns)
+        columns = shallowcopy(self._handle_columns(columns))
         new_ds = self.copy() if copy else self
         new_ds.columns = columns
         if copy: self._record_interaction()
@@ -429,7 +429,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
         else:
-            projected_cols = self._handle_columns(columns)
+            projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From 874a8e947b0f65bd8c03823918caeb253db26771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 08/87] fix: database csv save() fails for a single column and
 does not quote values containing the delimiter

---
 DRecPy/Dataset/db_dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index baefe77..fa2ea06 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -434,12 +434,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
             with open(path, 'w') as f:
+                writer = csv.writer(f, lineterminator='\n')
                 if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+                    writer.writerow(projected_cols)
+                for record in self.values(columns=projected_cols):
+                    writer.writerow([record[col] for col in projected_cols])
 
     def assign_internal_ids(self):
         self._optimize_states()
-- 
2.43.0


From ff36263036e47805ec2bc0abd03e0bafa2e4a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 09/87] fix: database unique()/count_unique() over all columns
 never find duplicates because the record id is compared

---
 DRecPy/Dataset/db_dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index fa2ea06..f83814e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -239,13 +239,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
         new_cols = ','.join(columns)
+        group_cols = ','.join([col for col in columns if col != 'rid']) or 'rid'
         new_state = f'SELECT {new_cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
             f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-            f'GROUP BY {new_cols})'
+            f'GROUP BY {group_cols})'
         if 'rid' not in columns:
             new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
                 f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-                f'GROUP BY {new_cols})'
+                f'GROUP BY {group_cols})'
             new_ds.columns.append('rid')
 
         new_ds._update_state(new_state)
@@ -256,7 +257,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         columns = self._handle_columns(columns)
 
         c = self._open_cursor()
-        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
+        group_cols = ','.join([col for col in columns if col != 'rid']) or 'rid'
+        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {group_cols} FROM ({self._curr_state_source()}))')
         return c.fetchone()[0]
 
     def max(self, column=None):
-- 
2.43.0


From 90d97ca3997134375aec30908fdce2605abccfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 10/87] fix: database queries treat string values matching a
 column name as that column

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index f83814e..d9121a4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -747,7 +747,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From cdc6e443c285f20dc6644bb58af5ff5591220a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 11/87] fix: database csv loading ignores the encoding while
 inferring column types

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d9121a4..9eec706 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -669,7 +669,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-- 
2.43.0


From be7a6a5a86e574e2ebb0345768e98d98f64f62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 12/87] fix: datasets loaded from a sqlite file have no column
 types, so queries, apply and id assignment fail

---
 DRecPy/Dataset/db_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9eec706..1cda7c4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -608,7 +608,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        self._col_types = {v[1]: {'INTEGER': int, 'REAL': float}.get(v[2], str) for v in table_info}
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-- 
2.43.0


From 425ff971cbae1a796355577fdb536e5d144b9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 13/87] fix: using or closing a dataset loaded from a sqlite
 file deletes the saved records

---
 DRecPy/Dataset/db_dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 1cda7c4..2aca59a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -586,7 +586,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
+                if len(self._open_value_generators) == 0 and not self._is_persisted_table():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
 
         if self._conn is not None:
@@ -784,6 +784,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         active table name otherwise."""
         return self._state_query if self._state_query != '' else self._active_table
 
+    def _is_persisted_table(self):
+        """Auxiliary method that returns True if the active table holds the records saved by the user on a sqlite file,
+        in which case it must be kept as is until the next call to save()."""
+        return '.tmp.' not in self._db_path and self._active_table == 'interactions'
+
     def _record_interaction(self):
         """Records a direct interaction with the current DatabaseInteractionDataset instance. If the number of direct
         interactions exceeds self._opt2_n_direct_interactions_threshold, optimize the states if possible."""
@@ -826,7 +831,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 \
+                and not self._is_persisted_table():
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
-- 
2.43.0


From 0fcdb6e4efd80a882b63fab0f717074aaad88f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 14/87] fix: saving a dataset onto its own sqlite file leaves
 it reading stale tables, and the file is missing if interrupted

---
 DRecPy/Dataset/db_dataset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 2aca59a..ea4e334 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -8,7 +8,7 @@ import csv
 import random
 from tqdm import tqdm
 from os import remove
-from os import rename
+from os import replace
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -424,12 +424,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             if path == self._db_path:  # updating origin db - requires to re-open connection
                 self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
                 self._open_connection(path, loading=True)
+                # the saved file only contains the current records, all on the main table
+                del self._shared_db_table_instances[path + self._active_table]
+                self._shared_db_table_instances[path + 'interactions'] = {id(self)}
+                self._active_table = 'interactions'
+                self._state_query = ''
             else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
         else:
             projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
-- 
2.43.0


From db410670e84d65fbc31edc79b73946df436816f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 15/87] fix: reading repeatedly from unique() of a database
 dataset raises a missing column error

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ea4e334..5d6c296 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -921,7 +921,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         required_cols = ['rid', 'user', 'item', 'interaction']
 
-        for req_col in required_cols:
+        for req_col in required_cols if table_name == 'interactions' else []:
             assert req_col in self.columns, f'Missing "{req_col}" column.'
 
         create_sql_statement = f'CREATE TABLE {table_name} (' \
-- 
2.43.0


From f63d8b630acdc4132fc8ec37cd692c8fb72ca0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 16/87] fix: apply() changes the records of dataset copies
 while a value generator is open

---
 DRecPy/Dataset/db_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 5d6c296..34fded0 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -510,7 +510,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_col_type = type(test_record[column])
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
-            if new_col_type == self._col_types[column]:  # type does not change
+            # records can only be updated in-place if the type does not change and a shared table can be left
+            if new_col_type == self._col_types[column] and len(self._open_value_generators) == 0:
                 self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
 
                 cur_read = self._open_cursor()
-- 
2.43.0


From db5ceace791ce68a564a816b38bca28637d65559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 17/87] fix: database interaction vectors stale after in-place
 select/unique/drop, apply and assign_internal_ids

---
 DRecPy/Dataset/db_dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 34fded0..e43a83e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -446,6 +446,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     writer.writerow([record[col] for col in projected_cols])
 
     def assign_internal_ids(self):
+        self._clear_interaction_vec_caches()
         self._optimize_states()
         self._conn.commit()
 
@@ -502,6 +503,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         supported_types = [int, float, str]
         if column in read_only_columns: raise Exception(f'Column "{column}" is read-only.')
 
+        self._clear_interaction_vec_caches()
         try:
             value_gen = self.values(columns=[column])
             test_record = next(value_gen)
@@ -801,12 +803,17 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and len(self._open_value_generators) == 0:
             self._optimize_states()
 
+    def _clear_interaction_vec_caches(self):
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
 
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
         self._state_query = new_state
+        self._clear_interaction_vec_caches()
 
         if self._n_rows_before_opt > 0 and self._n_rows > 0 \
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
-- 
2.43.0


From a6e80364125e16b29c05f270cd9f0ab413f1815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 18/87] fix: database range queries return records in index
 order instead of record order

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index e43a83e..5847500 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -314,7 +314,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         curr_state_query = self._build_new_state()
         c = self._open_cursor()
-        c.execute(curr_state_query)
+        c.execute(f'{curr_state_query} ORDER BY rid')
 
         return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
@@ -781,7 +781,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 new_state += f' AND {" AND ".join(query_conditions)}'
 
         if limit is not None and type(limit) is int:
-            new_state += f' LIMIT {limit}'
+            new_state += f' ORDER BY rid LIMIT {limit}'
 
         return new_state
 
-- 
2.43.0


From 6ad2814a1c3f7e85e1e95b41e7c22e5221198cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 19/87] fix: closing a database dataset twice raises KeyError
 while copies of it are open

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 5847500..6cabd0d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -589,7 +589,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
         if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+            self._shared_db_table_instances[self._db_path + self._active_table].discard(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if len(self._open_value_generators) == 0 and not self._is_persisted_table():
@@ -599,7 +599,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._conn.close()
 
         if self._db_path is not None and self._db_path in self._shared_db_instances:
-            self._shared_db_instances[self._db_path].remove(id(self))
+            self._shared_db_instances[self._db_path].discard(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
                 if '.tmp.' in self._db_path:
-- 
2.43.0


From 085490477b0364467447e6bd517240123c0c7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 20/87] fix: closing a database dataset fails when the
 temporary files registry was already removed

---
 DRecPy/Dataset/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..ededaa1 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -43,7 +43,7 @@ def unregister_temp_file(file_path):
     except NameError: pass
     except FileNotFoundError: pass
 
-    if empty:
+    if empty and os.path.exists(os.path.join(data_path(), 'tmp_files.txt')):
         os.remove(os.path.join(data_path(), 'tmp_files.txt'))
 
 
-- 
2.43.0


From 13d3e130ff583b39cba3155d003243aaa1e97303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:51 +0000
Subject: [PATCH 21/87] fix: importing the library deletes the temporary
 databases other running processes are using

---
 DRecPy/Dataset/db_dataset.py |  3 ++-
 DRecPy/Dataset/file_utils.py | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 6cabd0d..3ae8999 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -7,6 +7,7 @@ from copy import copy as shallowcopy
 import csv
 import random
 from tqdm import tqdm
+from os import getpid
 from os import remove
 from os import replace
 from os.path import isfile
@@ -686,7 +687,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{getpid()}_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index ededaa1..fb9b763 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -47,13 +47,26 @@ def unregister_temp_file(file_path):
         os.remove(os.path.join(data_path(), 'tmp_files.txt'))
 
 
+def _in_use(file_path):
+    """Verifies if the process that created the temporary file is still running."""
+    try:
+        os.kill(int(os.path.basename(file_path).split('_')[1]), 0)
+        return True
+    except PermissionError: return True  # running, but owned by another user
+    except Exception: return False
+
+
 def delete_temp_files():
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            for path in f:
-                try:
-                    os.remove(path.strip())
-                except: pass
+            paths = [path.strip() for path in f]
         os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        for path in paths:
+            if _in_use(path):
+                register_temp_file(path)
+                continue
+            try:
+                os.remove(path)
+            except: pass
     except NameError: pass
-    except FileNotFoundError: pass
\ No newline at end of file
+    except FileNotFoundError: pass
-- 
2.43.0


From 9c31c6353d4ea629cd0ffa3571672eaafdb5acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 22/87] fix: in-memory queries on integer columns match
 neighbouring values above 2**53

---
 DRecPy/Dataset/mem_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index a7dff73..6998dfa 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -413,7 +413,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             # parse value
             if column not in ['iid', 'uid', 'rid']:
                 try:
-                    if 'float' in col_dtype or 'int' in col_dtype:
+                    if 'int' in col_dtype and value.lstrip('-').isdigit():
+                        value = int(value)  # large integers (e.g. 64-bit ids) lose precision as floats
+                    elif 'float' in col_dtype or 'int' in col_dtype:
                         value = float(value)
                     elif 'obj' in col_dtype:
                         value = eval(value)
-- 
2.43.0


From 601827b45b9aa7e52ff103afe237b010c41a189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 23/87] fix: string values containing commas or spaces cannot
 be queried

---
 DRecPy/Dataset/dataset_abc.py | 12 ++++++++++++
 DRecPy/Dataset/db_dataset.py  |  4 ++--
 DRecPy/Dataset/mem_dataset.py |  4 ++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..16b51a9 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -347,6 +347,18 @@ class InteractionDatasetABC(ABC):
 
         return columns
 
+    @staticmethod
+    def _split_query(query):
+        """Splits a query into its segments, i.e. by the commas that are not part of a quoted value."""
+        segments, quote = [''], None
+        for char in str(query):
+            if quote is None and char in ['"', "'"]: quote = char
+            elif char == quote: quote = None
+
+            if char == ',' and quote is None: segments.append('')
+            else: segments[-1] += char
+        return segments
+
     def _log(self, msg):
         if not self.verbose: return
         print(f'[{self.__class__.__name__}] {msg}')
diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3ae8999..9fc16e7 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -732,12 +732,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _parse_query(self, query):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
         query_conditions = []
 
         for segment in query_segments:
             segment = segment.strip()
-            column, operator, value = segment.split(" ")
+            column, operator, value = segment.split(" ", 2)
             assert column is not None or operator is not None or value is not None, \
                 'Invalid get query, must be in form: column1 operator1 value1, column2 operator2 value2, ...'
             assert column in self.columns, 'Unexpected column "{c}".'.format(c=column)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 6998dfa..3e279ba 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -387,14 +387,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     """ Auxiliary methods """
     def _apply_query(self, query, in_place=True):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query)
 
         condition_vector = None
 
         for idx, segment in enumerate(query_segments):
             segment = segment.strip()
             try:
-                column, operator, value = segment.split(" ")
+                column, operator, value = segment.split(" ", 2)
             except ValueError:
                 raise Exception(
                     f'Query segment failed to be parsed. Check if there are no missing spaces or invalid characters.'
-- 
2.43.0


From 279227178a18b7ba6baf7577ad6aeeeb50eee11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 24/87] fix: leave_k_out and matrix_split leave out every user
 when raw ids are strings

---
 DRecPy/Evaluation/Splits/leave_k_out.py  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..57320ec 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {repr(user) if isinstance(user, str) else user}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {repr(user) if isinstance(user, str) else user}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..17fec48 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {repr(user) if isinstance(user, str) else user}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
-- 
2.43.0


From d25bdc48e4ef299bf7ccb97ef7a903333eac9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 25/87] fix: ranking and recommendation evaluations skip every
 user when raw ids are strings

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..840ff2d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {repr(user) if isinstance(user, str) else user}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {repr(user) if isinstance(user, str) else user}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {repr(item) if isinstance(item, str) else item}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..e2a1322 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {repr(user) if isinstance(user, str) else user}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {repr(item) if isinstance(item, str) else item}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
-- 
2.43.0


From f5588b305ae91304fdef59fb46412db3c438b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 26/87] fix: ListSampler cannot group by string columns

---
 DRecPy/Sampler/list_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..cd1b5c2 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,8 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {repr(chosen_col_group) if isinstance(chosen_col_group, str) else chosen_col_group}'
+                                  for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From dbaf177a7a423f65e9d96b3e0b659c6803e922d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 27/87] fix: the most relevant item given to ranking metrics is
 the least relevant one

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 840ff2d..1275f19 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index e2a1322..7f07d01 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -152,7 +152,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From 36f4d4fb5ba3a6c2f8506cc7fdbfad7e2dbd1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:17 +0000
Subject: [PATCH 28/87] fix: generated negative pairs use internal item ids as
 raw item ids

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 1275f19..15fc978 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -207,8 +207,9 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                              f"{n_neg_interactions}. Consider decreasing the n_neg_interactions parameter.")
                 return
 
+            items = sorted(model.interaction_dataset.unique('item').values_list('item', to_list=True))
             while len(user_non_interacted_items) < n_neg_interactions:
-                new_item = rng.randint(0, model.n_items - 1)
+                new_item = items[rng.randint(0, model.n_items - 1)]
                 if new_item not in item_blacklist and new_item not in user_non_interacted_items:
                     user_non_interacted_items.append(new_item)
 
-- 
2.43.0


From 9d76ca0d5d015b792c0bcf2a8dfbfe061ab32412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 29/87] fix: verbose recommendation_evaluation never returns if
 a test user is unknown to the model

---
 .../Processes/recommendation_evaluation.py    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 7f07d01..368a77f 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -9,6 +9,7 @@ import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,9 +136,22 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {repr(user) if isinstance(user, str) else user}')
 
     # get positive interactions
@@ -146,8 +160,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +169,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +197,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From bb2368b4f2aedb804a14bf93327fb92e69af96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 30/87] fix: errors while splitting a user are hidden, and
 never return if verbose

---
 DRecPy/Evaluation/Splits/leave_k_out.py  | 19 +++++++++++--------
 DRecPy/Evaluation/Splits/matrix_split.py |  9 +++++----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 57320ec..b1f7748 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -63,18 +63,20 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         seed += 1
         n_tasks += 1
         if ratio_variant:
-            pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            tasks.append(pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                                    min_user_interactions, user, k,
+                                                                    random.Random(seed), last_timestamps,
+                                                                    timestamp_label)))
         else:
-            pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            tasks.append(pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                                    min_user_interactions, user, k,
+                                                                    random.Random(seed), last_timestamps,
+                                                                    timestamp_label)))
 
     pool.close()  # Done adding tasks
 
@@ -84,11 +86,12 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done == n_tasks or all(task.ready() for task in tasks):
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # raise any error that occurred
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 17fec48..70c4f92 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -57,11 +57,11 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         n_tasks += 1
-        pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
-                                              min_user_interactions, test_items_set, test_users_set))
+        tasks.append(pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
+                                                           min_user_interactions, test_items_set, test_users_set)))
 
     pool.close()  # Done adding tasks
 
@@ -71,11 +71,12 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done == n_tasks or all(task.ready() for task in tasks):
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # raise any error that occurred
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
-- 
2.43.0


From 3fb171a2bdcc4b33d6c46c47d7ce28c2cb439571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 31/87] fix: ListSampler fails to sample negative ids from a
 set

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index cd1b5c2..4607ce8 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -145,7 +145,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From 5d0f8ed382857870d3035dcdf42f76164575034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 32/87] fix: ListSampler swaps positive and target sequences
 without truncation, and fails near the maximum length

---
 DRecPy/Sampler/list_sampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 4607ce8..4a98849 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -117,7 +117,8 @@ class ListSampler:
                 all_positive_group_records = positive_group_records
 
                 padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
+                n_available_records = len(positive_group_records) - (self.n_targets or 0)
+                if self.max_positive_records is not None and n_available_records > self.max_positive_records:
                     if self.n_targets is None:
                         padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
                     else:
@@ -130,8 +131,8 @@ class ListSampler:
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
                 if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
+                    target_group_records = positive_group_records[-self.n_targets:]
+                    positive_group_records = positive_group_records[:-self.n_targets]
                 else:
                     target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
 
-- 
2.43.0


From 7a99f5854bf9c8994836627985eba0aeacf0934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 33/87] fix: copies made while another thread optimizes a
 filtered database dataset contain filtered out records

---
 DRecPy/Dataset/db_dataset.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9fc16e7..3276b34 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -10,6 +10,7 @@ from tqdm import tqdm
 from os import getpid
 from os import remove
 from os import replace
+from threading import RLock
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -24,6 +25,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
     _opt2_n_direct_interactions_threshold = 4  # another optimization strategy independend from the previous one: optimize if the #direct interactions is bigger than this
+    _state_lock = RLock()  # an instance must not be optimized while its state is being copied
     _default_user_vec_cache_limit = 1000
     _default_item_vec_cache_limit = 1000
 
@@ -571,13 +573,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
     def copy(self):
-        new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
-                         verbose=False)
+        with self._state_lock:
+            new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
+                             verbose=False)
+            new._state_query = shallowcopy(self._state_query)
 
         new.columns = shallowcopy(self.columns)
         new.has_internal_ids = self.has_internal_ids
         new._n_rows = self._n_rows
-        new._state_query = shallowcopy(self._state_query)
         new._col_types = shallowcopy(self._col_types)
         new._queries_wo_optimize = self._queries_wo_optimize
         new._n_rows_before_opt = self._n_rows_before_opt
@@ -802,7 +805,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions += 1
         if self._n_direct_interactions >= self._opt2_n_direct_interactions_threshold \
                 and len(self._open_value_generators) == 0:
-            self._optimize_states()
+            with self._state_lock:
+                self._optimize_states()
 
     def _clear_interaction_vec_caches(self):
         self._user_interaction_vec_cache.clear()
-- 
2.43.0


From 4f6020d52316a5356db44b7e91cea95ce8d91697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 34/87] fix: fit(copy_dataset=True) calls a copy method that
 does not exist

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..aed3330 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From a8dd80012e7023cb6c0d8ad53b60b83358889536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 35/87] fix: early stopping does not revert the weights of
 registered layers and models

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index aed3330..5365bb0 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -336,8 +336,8 @@ class RecommenderABC(ABC):
     def _store_epoch_weights(self):
         self.epoch_weights.append({
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
         })
 
     def _revert_weights(self, epoch):
-- 
2.43.0


From 1202bd7c8133b87a425ffbd34fd36009de9c493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 36/87] fix: fit fails at the end if the early stopping rule
 cannot be computed on the last epoch

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 5365bb0..3ec9f63 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -228,8 +228,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as error:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {error}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
-- 
2.43.0


From 7d8e095478b54c2034937dcd632753ec86843355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 37/87] fix: early stopping of a refitted model reverts to the
 weights of the previous fit

---
 DRecPy/Recommender/recommender_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 3ec9f63..0af0431 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -146,6 +146,7 @@ class RecommenderABC(ABC):
         self.n_rows = len(self.interaction_dataset)
 
         self._loss_tracker = LossTracker()
+        self.epoch_weights = []  # weights stored by a previous fit belong to other epochs
 
         self._log_initial_info()
 
-- 
2.43.0


From 6a99f5b9659d54df42bd640aa44aaf61ae6cbb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 38/87] fix: refitted KNN models keep the similarities of the
 previous dataset

---
 DRecPy/Recommender/Baseline/base_knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..4a2bca9 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,9 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities = dict()
+        self._neighbours = dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
-- 
2.43.0


From b98048dd1ebb00e522cfd2a567a7241ee355112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 39/87] fix: UserKNN rankings omit the items predicted through
 averages

---
 DRecPy/Recommender/Baseline/user_knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..c6b8438 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -72,7 +72,7 @@ class UserKNN(BaseKNN):
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
             iids = iids.difference(set(rated_items))
 
-        tmp_iid_info = dict()
+        tmp_iid_info = {iid: ([], []) for iid in iids} if self.use_averages else dict()
 
         for similarity, neighbour in self._neighbours[uid]:
             neighbour_records = self.interaction_dataset.select(f'uid == {neighbour}')
-- 
2.43.0


From a199603774db796cf5ea49fa683a80dcd2e26e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 40/87] fix: Caser ranks items that were not requested when
 novelty is off

---
 DRecPy/Recommender/caser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..e783173 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -143,4 +143,5 @@ class Caser(RecommenderABC):
             item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
             return nlargest(n, item_preds)
 
-        return nlargest(n, item_preds)
+        iids_set = set(iids)
+        return nlargest(n, [(pred, item) for pred, item in item_preds if item in iids_set])
-- 
2.43.0


From 1d6fa40acce933b76cc94c633eb4bfbd8adb51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 41/87] fix: similarity functions fail if no pair of rows is
 comparable

---
 DRecPy/Recommender/Baseline/similarity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..4845587 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,7 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
 
 
 def adjusted_cosine_sim(matrix):
@@ -111,7 +111,7 @@ def jaccard_sim(matrix):
                 rows.append(i), cols.append(j), data.append(s)
                 if i != j: rows.append(j), cols.append(i), data.append(s)
 
-        return csr_matrix((data, (rows, cols)))
+        return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
 
     try:
         return matrix_jacc(matrix)
@@ -166,7 +166,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
 
 
 def msd(matrix):
@@ -206,7 +206,7 @@ def msd(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
 
 
 def _subtract_row_mean(A):
-- 
2.43.0


From ad2a824b4cbd84ab188efcc7c3b4c72365f95b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 42/87] fix: FScore undefined if there are no hits, so
 evaluations leave those users out of the average

---
 DRecPy/Evaluation/Metrics/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..79838cf 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -209,6 +209,7 @@ class FScore(RankingMetricABC):
         p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
         r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
 
+        if p == 0 and r == 0: return 0
         return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
 
 
-- 
2.43.0


From c72b9593af0929089c9549bcee49ee7f0630e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:00 +0000
Subject: [PATCH 43/87] fix: refitting a model also trains the variables
 registered by the previous fit

---
 DRecPy/Recommender/recommender_abc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 0af0431..fc3e269 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -150,6 +150,9 @@ class RecommenderABC(ABC):
 
         self._log_initial_info()
 
+        # variables registered by a previous fit are not part of the new model
+        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []
+
         self._info('Creating auxiliary structures...')
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
         self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
-- 
2.43.0


From 8e20417db8f78d49fcafbfff22654c1f8f8d934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:00 +0000
Subject: [PATCH 44/87] fix: early stopping reverts to the last epoch instead
 of the initial weights if no epoch improves on them

---
 DRecPy/Recommender/recommender_abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index fc3e269..ae38570 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -187,6 +187,7 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        self._store_epoch_weights()  # epoch 0: might be reverted to, since epoch callbacks are also called before training
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -345,7 +346,7 @@ class RecommenderABC(ABC):
         })
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        target_weights = self.epoch_weights[epoch]
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
@@ -353,7 +354,7 @@ class RecommenderABC(ABC):
         for variable, weights in zip(self.trainable_weights, target_weights['trainable_weights']):
             variable.assign(weights)
 
-        self._info(f'Network weights reverted from epoch {len(self.epoch_weights)} to epoch {epoch}.')
+        self._info(f'Network weights reverted from epoch {len(self.epoch_weights) - 1} to epoch {epoch}.')
 
     def predict(self, user_id, item_id, skip_errors=False, **kwds):
         """Performs a prediction using the provided user_id and item_id.
-- 
2.43.0


From 7fb6cf68519e6d7b016c7fee01abef71e7e680ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:35 +0000
Subject: [PATCH 45/87] fix: open value generators fail if the columns of the
 dataset change while they're being read

---
 DRecPy/Dataset/db_dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3276b34..d5eec4e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -291,7 +291,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             def __iter__(self):
                 for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
+                    yield self.row_to_record_fn(row, columns, to_list, row_columns)
 
                 self.removed_gen = True
                 self.open_value_generators.remove(c)
@@ -315,6 +315,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._record_interaction()
         columns = self._handle_columns(columns)
 
+        row_columns = shallowcopy(self.columns)  # columns of the rows being read, even if they're changed meanwhile
         curr_state_query = self._build_new_state()
         c = self._open_cursor()
         c.execute(f'{curr_state_query} ORDER BY rid')
@@ -873,8 +874,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._state_query = ''
         self._conn.commit()
 
-    def _from_row_to_record(self, row, projected_columns, to_list=False):
-        interaction = {k: v for k, v in zip(self.columns, row) if k in projected_columns}
+    def _from_row_to_record(self, row, projected_columns, to_list=False, row_columns=None):
+        if row_columns is None: row_columns = self.columns
+        interaction = {k: v for k, v in zip(row_columns, row) if k in projected_columns}
         if to_list:
             list_interaction = [interaction[col] for col in projected_columns]
             if len(list_interaction) == 1: return list_interaction[0]
-- 
2.43.0


From 76e356c163761296ae0e62441f77a949f784d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 46/87] fix: assigning internal ids changes the ids of other
 instances sharing the table, and counts filtered records if any generator is
 open

---
 DRecPy/Dataset/db_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d5eec4e..ea26642 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -451,7 +451,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._clear_interaction_vec_caches()
-        self._optimize_states()
+        self._optimize_states(skip_empty_query=False, force=True)  # migrate records if current table is shared
         self._conn.commit()
 
         # create cursor for reads and updates
@@ -829,7 +829,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
-    def _optimize_states(self, skip_empty_query=True):
+    def _optimize_states(self, skip_empty_query=True, force=False):
         """Auxiliary method that should be called inside .values() and .unique() that computes
         the results from executing the self.state_query on the current table and:
             - If this is the only instance using the current active table:
@@ -842,14 +842,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions = 0
 
         if self._state_query == '' and skip_empty_query: return  # nothing to optimize
-        if len(self._open_value_generators) > 0: return  # can't optimize due to value generators being read
+        if len(self._open_value_generators) > 0 and not force: return  # can't optimize due to value generators being read
 
         self._log('Optimizing state...')
 
         c = self._open_cursor()
 
         if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 \
-                and not self._is_persisted_table():
+                and not self._is_persisted_table() \
+                and (self._state_query == '' or len(self._open_value_generators) == 0):
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
-- 
2.43.0


From 1653eebbde02940a21cde071884e45e4176b373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 47/87] fix: in-memory queries comparing a string column to a
 number are not refused

---
 DRecPy/Dataset/mem_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 3e279ba..69fa288 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -419,6 +419,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                         value = float(value)
                     elif 'obj' in col_dtype:
                         value = eval(value)
+                        if not isinstance(value, str): raise ValueError
                 except ValueError:
                     raise Exception(
                         f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From 11843df31f36921cd7a2c926f0b01cc2151166df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 48/87] fix: instances garbage collected while other instances
 use the database are never released

---
 DRecPy/Dataset/db_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ea26642..572e0b9 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -598,7 +598,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if len(self._open_value_generators) == 0 and not self._is_persisted_table():
-                    self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+                    c = self._open_cursor()
+                    c.execute('PRAGMA busy_timeout=0')
+                    try:
+                        c.execute(f'DROP TABLE {self._active_table}')
+                    except sql.OperationalError: pass  # other instances are reading or writing, leave it on the file
 
         if self._conn is not None:
             self._conn.close()
-- 
2.43.0


From 87fca1b696bc3027129a1aabd324afe06b320d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:57 +0000
Subject: [PATCH 49/87] fix: names of tables and temporary files depend on the
 global random generator: invalid for values below 1e-4, repeated after
 seeding

---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 572e0b9..a48d028 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -11,6 +11,7 @@ from os import getpid
 from os import remove
 from os import replace
 from threading import RLock
+from uuid import uuid4
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -539,7 +540,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
+                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -695,7 +696,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{getpid()}_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{getpid()}_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -862,7 +863,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
-            red_table = f'interactions_{str(random.random()).split(".")[1]}'
+            red_table = f'interactions_{uuid4().hex}'
 
             self._build_table(c, table_name=red_table)
 
-- 
2.43.0


From fcbd8888cef6f98bfc5b220e1ea413d03b8d8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:19 +0000
Subject: [PATCH 50/87] fix: removing internal ids misaligns the columns of
 datasets filtered with unique()

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index a48d028..d827172 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -501,6 +501,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             # no need to remove from db, since it doesnt slow down - removing projected columns is enough
             self.columns.remove('uid')
             self.columns.remove('iid')
+            if self._state_query != '':  # the rows of the current state must match the columns left
+                self._state_query = f'SELECT {",".join(self.columns)} FROM ({self._state_query}) WHERE 1'
 
     def apply(self, column, function):
         self._validate_column(column)
-- 
2.43.0


From b51766c3b51af154d163977bc8f0f03a8bb24c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:54 +0000
Subject: [PATCH 51/87] fix: in-memory apply() fails after removing internal
 ids if interaction vectors were read before

---
 DRecPy/Dataset/mem_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 69fa288..72e3ebb 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -334,6 +334,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
     def remove_internal_ids(self):
         self.has_internal_ids = False
+        self._reset_interaction_matrix()
         if 'uid' in self.columns:
             self._df = self._df.drop(columns=['uid', 'iid'])
             self.columns.remove('uid')
-- 
2.43.0


From 0fd0dd308fba9d37e300b3f0727ded7f661d7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 52/87] fix: msd similarities are nan if all ratings are equal
 and none is missing

---
 DRecPy/Recommender/Baseline/similarity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 4845587..674fef8 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -173,7 +173,7 @@ def msd(matrix):
     if type(matrix) is not csr_matrix:
         matrix = csr_matrix(matrix)
 
-    max_diff = matrix.max() - matrix.min()
+    max_diff = (matrix.max() - matrix.min()) or 1  # all ratings equal: there are no differences
 
     if type(matrix) is not lil_matrix:
         matrix = lil_matrix(matrix)
-- 
2.43.0


From d8b55213416c5f1ea3878f2e1551e80b9160cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 53/87] fix: null pairs without record are never generated with
 a threshold if there is only one user or item

---
 DRecPy/Dataset/db_dataset.py  | 2 +-
 DRecPy/Dataset/mem_dataset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d827172..9a6fe25 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -220,7 +220,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid * max_iid
+        n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
         c = self._open_cursor()
         while True:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 72e3ebb..b2fecee 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -147,7 +147,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         max_uid = int(self.max('uid'))
         max_iid = int(self.max('iid'))
-        n_possible_combs = max_uid * max_iid
+        n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 0d6c2d3f002e80c2a266b0fa76d02b7bbc9143f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 54/87] fix: random generators of database datasets leave
 statements open: locked database, or endless loops, once the storage is
 optimized

---
 DRecPy/Dataset/db_dataset.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9a6fe25..a6756b6 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -185,18 +185,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
             if count == 0: continue
 
-            chosen_record = None
             chosen_idx = rng.randint(0, count - 1)
-
-            c.execute(new_state)
-            curr_idx = 0
-            for row in c:
-                if curr_idx == chosen_idx:
-                    chosen_record = {k: v for k, v in zip(self.columns, row)}
-                    break
-                curr_idx += 1
-
-            if chosen_record is not None: yield chosen_record
+            row = c.execute(new_state).fetchall()[chosen_idx]  # read all rows: an open statement would lock the db
+            yield {k: v for k, v in zip(self.columns, row)}
 
     def null_interaction_pair_generator(self, interaction_threshold=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -231,7 +222,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 random_uid = rng.randint(0, max_uid)
                 random_iid = rng.randint(0, max_iid)
                 query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
-                new_state = self._build_new_state(query_conditions)
+                new_state = self._build_new_state(query_conditions, limit=1)
                 if c.execute(new_state).fetchone() is None:
                     yield random_uid, random_iid
 
-- 
2.43.0


From 112710d85c2aa0ea8e9f8b7d23fffdc6982b69dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:50 +0000
Subject: [PATCH 55/87] fix: apply on the interaction column fails if the
 interaction matrix does not fit in memory

---
 DRecPy/Dataset/mem_dataset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index b2fecee..e80c42d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -355,10 +355,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.copy()
             self._df[column] = self._df[column].apply(function)
 
-            if column == 'interaction' and self._cached_interaction_matrix is not None:
-                self._cached_interaction_matrix = None
-                self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
+            if column == 'interaction': self._reset_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
-- 
2.43.0


From c699e5d23f7a408ba36d57581be01a6e2a849cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:39 +0000
Subject: [PATCH 56/87] fix: fit with an early stopping rule fails if there are
 no epochs

---
 DRecPy/Recommender/recommender_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index ae38570..cdefc9f 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -188,6 +188,7 @@ class RecommenderABC(ABC):
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
         self._store_epoch_weights()  # epoch 0: might be reverted to, since epoch callbacks are also called before training
+        e = 0
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
-- 
2.43.0


From a8eb27f536f4959c96284b48ec6e9599ac937e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:25 +0000
Subject: [PATCH 57/87] fix: KNN models cannot be fitted on in-memory datasets
 with numeric ids and fractional interactions

---
 DRecPy/Recommender/Baseline/item_knn.py | 2 +-
 DRecPy/Recommender/Baseline/user_knn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/item_knn.py b/DRecPy/Recommender/Baseline/item_knn.py
index 1b38355..fba92c6 100644
--- a/DRecPy/Recommender/Baseline/item_knn.py
+++ b/DRecPy/Recommender/Baseline/item_knn.py
@@ -23,7 +23,7 @@ class ItemKNN(BaseKNN):
         item_rated_users = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index c6b8438..b9cdc95 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -23,7 +23,7 @@ class UserKNN(BaseKNN):
         user_rated_items = {}
         interactions, uids, iids = [], [], []
         for record in self.interaction_dataset.values():
-            u, i, r = record['uid'], record['iid'], record['interaction']
+            u, i, r = int(record['uid']), int(record['iid']), record['interaction']
             interactions.append(r)
             uids.append(u)
             iids.append(i)
-- 
2.43.0


From 9b5ba0e319acfd6ffdebef71b5439b8248071f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:25 +0000
Subject: [PATCH 58/87] fix: rank repeats items that are requested more than
 once if novelty is off

---
 DRecPy/Recommender/recommender_abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index cdefc9f..75ba888 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -459,9 +459,10 @@ class RecommenderABC(ABC):
 
     def _rank(self, uid, iids, n, novelty):
         """Returns a ranked item list in the form of (similarity, item) tuples. uid and iids are internal ids."""
+        iids = set(iids)
         if novelty:
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
-            iids = set(iids).difference(set(rated_items))
+            iids = iids.difference(set(rated_items))
 
         pred_list = filter(lambda x: x[0] is not None, [(self._predict(uid, iid), iid) for iid in iids])
         return nlargest(n, pred_list)
-- 
2.43.0


From 7f73e98a8407f55bfb9e4bfb9bd897ea6c274be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 59/87] fix: CDAE predicts a whole vector instead of None for
 unknown items with skip_errors

---
 DRecPy/Recommender/cdae.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..4e41173 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -81,14 +81,13 @@ class CDAE(RecommenderABC):
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
 
-    def _predict(self, uid, iid=None, **kwds):
-        if uid is None: return None
+    def _predict(self, uid, iid, **kwds):
+        if uid is None or iid is None: return None
 
-        predictions = self._reconstruct_for_predictions(uid)
-        return predictions if iid is None else predictions[iid]
+        return self._reconstruct_for_predictions(uid)[iid]
 
     def _rank(self, uid, iids, n, novelty):
-        predictions = self._predict(uid)
+        predictions = self._reconstruct_for_predictions(uid)
 
         if novelty:
             user_ds = self.interaction_dataset.select(f'uid == {uid}')
-- 
2.43.0


From 6173336053032c8f10c5108cbd4aff67de447e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 60/87] fix: queries fail on string values with escaped quotes

---
 DRecPy/Dataset/dataset_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index 16b51a9..da56ebd 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -350,9 +350,11 @@ class InteractionDatasetABC(ABC):
     @staticmethod
     def _split_query(query):
         """Splits a query into its segments, i.e. by the commas that are not part of a quoted value."""
-        segments, quote = [''], None
+        segments, quote, escaped = [''], None, False
         for char in str(query):
-            if quote is None and char in ['"', "'"]: quote = char
+            if escaped: escaped = False
+            elif quote is not None and char == '\\': escaped = True
+            elif quote is None and char in ['"', "'"]: quote = char
             elif char == quote: quote = None
 
             if char == ',' and quote is None: segments.append('')
-- 
2.43.0


From eadf7812bf5e70a2fd4a9a136b4e3ecfeedfe89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:30 +0000
Subject: [PATCH 61/87] fix: reads from several threads share cached statements

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index a6756b6..dd09a5d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -892,7 +892,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 raise FileNotFoundError(f'No database file found at "{db_path}".')
             register_temp_file(db_path)
         self._db_path = db_path
-        self._conn = sql.connect(db_path, check_same_thread=False)
+        self._conn = sql.connect(db_path, check_same_thread=False, cached_statements=0)  # cached statements are not thread-safe
         self._set_pragmas(self._conn)
 
     def _open_cursor(self):
-- 
2.43.0


From 5a672d8aa32bc5ece1c28d6e4a8fefcb5c0c6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:39 +0000
Subject: [PATCH 62/87] fix: HitRatio misses hits on numeric items that are
 read as floats

---
 DRecPy/Evaluation/Metrics/ranking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index 79838cf..bf7598c 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -108,8 +108,8 @@ class HitRatio(RankingMetricABC):
         if relevant_recommendations is None: return 0
         if k is not None: recommendations = recommendations[:k]
 
-        recommendations = set([str(item) for item in recommendations])
-        relevant_recommendations = set([str(item) for item in relevant_recommendations])
+        recommendations = set(recommendations)
+        relevant_recommendations = set(relevant_recommendations)
 
         return len(recommendations.intersection(relevant_recommendations)) / len(relevant_recommendations)
 
-- 
2.43.0


From 15af91962fd75ae87de4d296845d84c10073de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:06 +0000
Subject: [PATCH 63/87] fix: value generators keep their dataset alive until
 the next garbage collection

---
 DRecPy/Dataset/db_dataset.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index dd09a5d..8c4fffd 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -277,20 +277,18 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             def __init__(self, open_value_generators, row_to_record_fn):
                 self.open_value_generators = open_value_generators
                 self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
                 self.removed_gen = False
                 open_value_generators.add(c)
 
             def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list, row_columns)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
+                return self
 
             def __next__(self):
-                return next(self.iter)
+                row = None if self.removed_gen else next(c, None)
+                if row is None:
+                    self.close()
+                    raise StopIteration
+                return self.row_to_record_fn(row, columns, to_list, row_columns)
 
             def __del__(self):
                 if not self.removed_gen:
-- 
2.43.0


From 609d6f7becb7711d298756b5fce71f1366bd85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 64/87] fix: failures while filtering a dataset loaded from a
 sqlite file corrupt the file

---
 DRecPy/Dataset/db_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 8c4fffd..dc00118 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -891,7 +891,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             register_temp_file(db_path)
         self._db_path = db_path
         self._conn = sql.connect(db_path, check_same_thread=False, cached_statements=0)  # cached statements are not thread-safe
-        self._set_pragmas(self._conn)
+        self._set_pragmas(self._conn, keep_journal='.tmp.' not in db_path)
 
     def _open_cursor(self):
         try:
@@ -975,9 +975,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             c.execute(f'DROP INDEX iid_idx_{table_name}')
 
     @staticmethod
-    def _set_pragmas(conn):
-        conn.execute('PRAGMA journal_mode=OFF')  # no need for rollback journals - https://www.sqlite.org/pragma.html#pragma_journal_mode
-        conn.commit()
+    def _set_pragmas(conn, keep_journal=False):
+        if not keep_journal:  # files saved by the user must survive failures, temporary ones do not need rollback journals
+            conn.execute('PRAGMA journal_mode=OFF')  # https://www.sqlite.org/pragma.html#pragma_journal_mode
+            conn.commit()
         conn.execute('PRAGMA synchronous=OFF')  # no need to sync - https://www.sqlite.org/pragma.html#pragma_synchronous
         conn.commit()
         conn.execute('PRAGMA cache_size=-4000')  # increase cache size to 4000kibs - https://www.sqlite.org/pragma.html#pragma_cache_size
-- 
2.43.0


From 447688c9ee1eb17de4d3c0e354b4c3757787fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 65/87] fix: dataset unusable when the saved file cannot be
 reopened after saving it

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index dc00118..9830538 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -419,12 +419,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if path == self._db_path:  # updating origin db - requires to re-open connection
                 self._conn.close()
                 replace(tmp_path, path)
-                self._open_connection(path, loading=True)
                 # the saved file only contains the current records, all on the main table
                 del self._shared_db_table_instances[path + self._active_table]
                 self._shared_db_table_instances[path + 'interactions'] = {id(self)}
                 self._active_table = 'interactions'
                 self._state_query = ''
+                self._open_connection(path, loading=True)
             else:  # saving into distinct destination
                 replace(tmp_path, path)
         else:
-- 
2.43.0


From 8acc98397e77ceb3aa27a76dae740ddeb4e8fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 66/87] fix: records lost or restored when a state cannot be
 optimised because the disk is full

---
 DRecPy/Dataset/db_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9830538..1e62cb4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -851,6 +851,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
                           f'WHERE rid NOT IN (SELECT rid FROM ({self._curr_state_source()}))')
+                self._conn.commit()
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
@@ -862,6 +863,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             c.execute(f'INSERT INTO {red_table} ({col_names}) SELECT {col_names} FROM ({self._curr_state_source()})')
 
             self._build_indexes(c, table_name=red_table)
+            self._conn.commit()  # only use the new table once it's complete
             # do not delete set because there are more instances using the db, table pair
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             self._shared_db_table_instances[self._db_path + red_table] = set()
@@ -869,7 +871,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._active_table = red_table
 
         self._state_query = ''
-        self._conn.commit()
 
     def _from_row_to_record(self, row, projected_columns, to_list=False, row_columns=None):
         if row_columns is None: row_columns = self.columns
-- 
2.43.0


From 596b960402ca702fa6ba7c952cf431841e40e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 67/87] fix: out of memory loading splits values with commas
 when the delimiter has several characters

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 1e62cb4..6f2deb9 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -673,7 +673,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # must not be present on the values
 
         # read num of lines + detect column types
         num_lines = 0
-- 
2.43.0


From ae6f0809a6e10f88a670fe58e09ec76062d68cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 68/87] fix: out of memory loading fails on files with blank
 lines

---
 DRecPy/Dataset/db_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 6f2deb9..4e8c645 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -642,6 +642,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
                 for row in csv_reader:
+                    if len(row) == 0: continue  # blank line
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -682,7 +683,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter))
+                    first_line = next(csv.reader([row], delimiter=new_delimiter)) or None  # skip blank lines
                 num_lines += 1
 
         # open db connection and create table
-- 
2.43.0


From ada2c3b6499189adacc3eda98750c4ebc7e70281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 69/87] fix: out of memory loading converts text to numbers if
 the first row looks like a number

---
 DRecPy/Dataset/db_dataset.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 4e8c645..c04a7e9 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -621,16 +621,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-        def infer_col_types(first_line):
+        def infer_col_types(rows):
             projected_cols = shallowcopy(self.columns)
             # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
             projected_cols.remove('rid')
 
-            col_types = {'rid': int}
-            for value, col in zip(first_line, projected_cols):
-                col_types[col] = self._infer_value_type(value)
+            # all rows are required: numbers read before the first text value would be converted (e.g. 007)
+            col_types = {}
+            for row in rows:
+                for value, col in zip(row, projected_cols):
+                    if value == '' or col is None or col_types.get(col) is str: continue
+                    value_type = self._infer_value_type(value)
+                    if col_types.get(col, int) is int or value_type is str: col_types[col] = value_type
 
-            return col_types
+            return {'rid': int, **{col: col_types.get(col, str) for col in projected_cols}}
 
         def process_segment(chunk, delimiter):
             c = self._open_cursor()
@@ -678,16 +682,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # read num of lines + detect column types
         num_lines = 0
-        first_line = None
         with open(path, 'r', encoding=encoding) as f:
-            for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
-                    if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter)) or None  # skip blank lines
+            for _ in f:
                 num_lines += 1
+        with open(path, 'r', encoding=encoding) as f:
+            if has_header is not False: f.readline()
+            lines = (row.replace(orig_delimiter, new_delimiter) for row in f) if replace_delimiter else f
+            self._col_types = infer_col_types(csv.reader(lines, delimiter=new_delimiter))
 
         # open db connection and create table
-        self._col_types = infer_col_types(first_line)
         self._open_connection(join(data_path(), f'interactions_{getpid()}_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
-- 
2.43.0


From b77a9ebb24209796bed04fc6d9c246a0b4f20694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 70/87] fix: out of memory loading takes text such as 1_000 for
 numbers

---
 DRecPy/Dataset/db_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c04a7e9..89dda05 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -719,7 +719,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _infer_value_type(self, value):
         try:
-            if '.' in value:
+            if '.' in value or '_' in value:
                 raise Exception
             int(value)
             return int
@@ -727,6 +727,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             pass
 
         try:
+            if '_' in value:
+                raise Exception
             float(value)
             return float
         except:
-- 
2.43.0


From 7477208558e1070da4d858d581063d93e49f433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 71/87] fix: in-memory loading drops text such as NA, null or
 None

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index e80c42d..963e52f 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -34,7 +34,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             skip_rows = 1 if has_header else 0
 
             self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
-                                   skiprows=skip_rows, usecols=use_cols)
+                                   skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''])
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df').reset_index(drop=True)  # record ids are always 0..n-1
-- 
2.43.0


From d512a7e3c8793a5f117dc1f027758ac22812abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 72/87] fix: in-memory loading takes delimiters with several
 characters as regular expressions

---
 DRecPy/Dataset/mem_dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 963e52f..605acf0 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -1,5 +1,6 @@
 from .dataset_abc import InteractionDatasetABC
 from copy import deepcopy
+from io import StringIO
 import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
@@ -33,7 +34,13 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
             skip_rows = 1 if has_header else 0
 
-            self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+            source = path
+            if len(delimiter) > 1:  # pandas takes delimiters with more than 1 char as regular expressions
+                with open(path, 'r', encoding=kwds.get('encoding')) as f:
+                    source = StringIO(f.read().replace(delimiter, '\x1f'))
+                delimiter = '\x1f'
+
+            self._df = pd.read_csv(source, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''])
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-- 
2.43.0


From 00b51c0104f8d0aa8b7a4120bbfbe8b65710e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 73/87] fix: in-memory loading does not read floats exactly

---
 DRecPy/Dataset/mem_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 605acf0..06246d8 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -41,7 +41,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 delimiter = '\x1f'
 
             self._df = pd.read_csv(source, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
-                                   skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''])
+                                   skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
+                                   float_precision='round_trip')
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df').reset_index(drop=True)  # record ids are always 0..n-1
-- 
2.43.0


From e903fa99bf6c2a369bf2dd64d62595ad8048e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 74/87] fix: in-memory loading of large files reads the same
 text as number and as text

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 06246d8..7b692b2 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -42,7 +42,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
             self._df = pd.read_csv(source, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
-                                   float_precision='round_trip')
+                                   float_precision='round_trip', low_memory=False)  # types of whole columns
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df').reset_index(drop=True)  # record ids are always 0..n-1
-- 
2.43.0


From 71c244627706719cd8a4b09b784a70308ba368dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 75/87] fix: in-memory loading converts text such as True or
 False

---
 DRecPy/Dataset/mem_dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 7b692b2..b4ef8b6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -2,6 +2,7 @@ from .dataset_abc import InteractionDatasetABC
 from copy import deepcopy
 from io import StringIO
 import pandas as pd
+from pandas.api.types import is_bool_dtype
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
@@ -40,9 +41,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                     source = StringIO(f.read().replace(delimiter, '\x1f'))
                 delimiter = '\x1f'
 
-            self._df = pd.read_csv(source, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
-                                   skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
-                                   float_precision='round_trip', low_memory=False)  # types of whole columns
+            read_args = dict(delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+                             skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
+                             float_precision='round_trip', low_memory=False)  # types of whole columns
+            self._df = pd.read_csv(source, **read_args)
+            bool_cols = [col for col in self._df.columns if is_bool_dtype(self._df[col])]
+            if len(bool_cols) > 0:  # text such as True or False must be kept as text
+                if source is not path: source.seek(0)
+                self._df = pd.read_csv(source, dtype={col: str for col in bool_cols}, **read_args)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df').reset_index(drop=True)  # record ids are always 0..n-1
-- 
2.43.0


From 2250c539bf8138d580c003bc2260ae77bc765d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 76/87] fix: in-memory loading fails if more than one column is
 skipped

---
 DRecPy/Dataset/mem_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index b4ef8b6..e8902c2 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -41,7 +41,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                     source = StringIO(f.read().replace(delimiter, '\x1f'))
                 delimiter = '\x1f'
 
-            read_args = dict(delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+            names = [col if col is not None else f'skip_{i}' for i, col in enumerate(projected_cols)]  # must be unique
+            read_args = dict(delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
                              skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
                              float_precision='round_trip', low_memory=False)  # types of whole columns
             self._df = pd.read_csv(source, **read_args)
-- 
2.43.0


From 8fd2a4dca524aef143d4ee45c0b0497583c63c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 77/87] fix: in-memory loading of utf-16 files with delimiters
 with several characters

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index e8902c2..5279bb6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -35,14 +35,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
             skip_rows = 1 if has_header else 0
 
-            source = path
+            source, encoding = path, kwds.get('encoding')
             if len(delimiter) > 1:  # pandas takes delimiters with more than 1 char as regular expressions
-                with open(path, 'r', encoding=kwds.get('encoding')) as f:
+                with open(path, 'r', encoding=encoding) as f:
                     source = StringIO(f.read().replace(delimiter, '\x1f'))
-                delimiter = '\x1f'
+                delimiter, encoding = '\x1f', None
 
             names = [col if col is not None else f'skip_{i}' for i, col in enumerate(projected_cols)]  # must be unique
-            read_args = dict(delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
+            read_args = dict(delimiter=delimiter, names=names, encoding=encoding,
                              skiprows=skip_rows, usecols=use_cols, keep_default_na=False, na_values=[''],
                              float_precision='round_trip', low_memory=False)  # types of whole columns
             self._df = pd.read_csv(source, **read_args)
-- 
2.43.0


From 7216e5e4853ba04636448b860516cfc69e57261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 78/87] fix: out of memory loading fails if more than one
 column is skipped

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 89dda05..d8b247c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -949,7 +949,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'iid INTEGER'
 
         for col in self.columns:
-            if col not in ['rid', 'uid', 'iid']:
+            if col is not None and col not in ['rid', 'uid', 'iid']:  # skip cols have no table column
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
         create_sql_statement += ')'
-- 
2.43.0


From c973878ce81d1e6a9c45f4677e251663c0db0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 79/87] fix: integrated datasets are read with another encoding
 than they are stored with

---
 DRecPy/Dataset/integrated_datasets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..2f12575 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -86,8 +86,8 @@ def download_dataset(ds_name):
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
-            f.write(data.decode(ds_options.encoding))
+        with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
+            f.write(data)  # keep the original encoding, used when reading the file
 
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
@@ -100,7 +100,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From 0d5ad9e143ae867f3432c3447b134d1b8e696b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 80/87] fix: integrated dataset never available again after an
 interrupted download

---
 DRecPy/Dataset/integrated_datasets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 2f12575..557e224 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from zipfile import ZipFile
 import requests
 from DRecPy.Dataset import InteractionDataset
@@ -62,9 +63,11 @@ def download_dataset(ds_name):
     print('> Downloading from', ds_options.url)
     data = requests.get(ds_options.url).content
 
-    dataset_path = get_dataset_path(ds_name)
-    if not os.path.exists(dataset_path):
-        os.makedirs(dataset_path)
+    # only use the final path once all files are there: datasets are not downloaded again if it exists
+    dataset_path = get_dataset_path(ds_name) + '.tmp'
+    if os.path.exists(dataset_path):
+        shutil.rmtree(dataset_path)
+    os.makedirs(dataset_path)
 
     if ds_options.unzip:
         print('> Extracting files from zip')
@@ -89,6 +92,8 @@ def download_dataset(ds_name):
         with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
             f.write(data)  # keep the original encoding, used when reading the file
 
+    os.rename(dataset_path, get_dataset_path(ds_name))
+
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
     """Returns an InteractionDataset containing the data present in the path argument, and uses the
-- 
2.43.0


From d4863b6c4d48e65cce9c9dc8e0b4c59ee24c4f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 81/87] fix: partially written train and test datasets are used
 after an interruption

---
 DRecPy/Dataset/integrated_datasets.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 557e224..6cc7528 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -113,6 +113,12 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
 
 
+def save_generated(ds, path):
+    """Stores a generated dataset, so that the path never holds a partially written file."""
+    ds.save(path + '.tmp')
+    os.replace(path + '.tmp', path)
+
+
 def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
     """Gets a train dataset. If the named dataset does not have a specific train file
     (example: BX dataset), a train InteractionDataset will be created using leave_k_out() from the Evaluation module
@@ -145,8 +151,8 @@ def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        save_generated(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        save_generated(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return train_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.train_file)
@@ -185,8 +191,8 @@ def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        save_generated(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        save_generated(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return test_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.test_file)
-- 
2.43.0


From 84614ffbdad86008b82cc322cf28ee8b32876f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 82/87] fix: assign internal ids of database datasets while
 their value generators are being read

---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d8b247c..ab80479 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -446,7 +446,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # create cursor for reads and updates
         c = self._open_cursor()
-        self._drop_internal_id_indexes(c, table_name=self._active_table)
+        rebuild_indexes = len(self._open_value_generators) == 0  # indexes can't be dropped while value generators are being read
+        if rebuild_indexes: self._drop_internal_id_indexes(c, table_name=self._active_table)
         update_c = self._open_cursor()
         update_c.execute('BEGIN')
 
@@ -480,7 +481,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         update_c.execute("END")
 
-        self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
+        if rebuild_indexes: self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
         self._conn.commit()
         self.has_internal_ids = True
 
@@ -852,7 +853,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 \
                 and not self._is_persisted_table() \
-                and (self._state_query == '' or len(self._open_value_generators) == 0):
+                and len(self._open_value_generators) == 0:
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
-- 
2.43.0


From 040ee7efa23b847ad07eb166da8670d8b2bf9aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 83/87] fix: jaccard (low memory variant), msd and
 cosine_sim_cf always return one row and column per row of the given matrix

---
 DRecPy/Recommender/Baseline/similarity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 674fef8..b319718 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,7 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def adjusted_cosine_sim(matrix):
@@ -111,7 +111,7 @@ def jaccard_sim(matrix):
                 rows.append(i), cols.append(j), data.append(s)
                 if i != j: rows.append(j), cols.append(i), data.append(s)
 
-        return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
+        return csr_matrix((data, (rows, cols)), shape=(n, n))
 
     try:
         return matrix_jacc(matrix)
@@ -206,7 +206,7 @@ def msd(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)), shape=(n, n) if len(data) == 0 else None)
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def _subtract_row_mean(A):
-- 
2.43.0


From e0f52cad0c3554b0dccd52143b23e904354a4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 84/87] fix: models with registered Keras layers, or with more
 than one variable, cannot be trained under Keras 3

---
 DRecPy/Recommender/recommender_abc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 75ba888..42ea577 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -200,8 +200,7 @@ class RecommenderABC(ABC):
                 trainable_weights = self.trainable_weights + \
                                     [layer.trainable_weights for layer in self.trainable_layers] + \
                                     [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
-                    tape.watch(trainable_weight)
+                tape.watch(self.trainable_weights)  # the variables of layers and models are already watched
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
                     self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)
@@ -332,12 +331,16 @@ class RecommenderABC(ABC):
                     for trainable in trainable_layers + trainable_models])
 
     def _update_weights(self, gradients, trainable_weights):
+        # optimizers must get all variables at once: they do not accept new variables after the first update
+        all_gradients, all_vars = [], []
         for gradient, trainable_var in zip(gradients, trainable_weights):
-            if tf.is_tensor(gradient):
-                gradient = [gradient]
             if tf.is_tensor(trainable_var):
-                trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+                all_gradients.append(gradient)
+                all_vars.append(trainable_var)
+            else:  # variables of a layer or model
+                all_gradients.extend(gradient)
+                all_vars.extend(trainable_var)
+        self.optimizer.apply_gradients(zip(all_gradients, all_vars))
 
     def _store_epoch_weights(self):
         self.epoch_weights.append({
-- 
2.43.0


From 71b9a73244f1741e4618d467c0b618aecfbfca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 85/87] fix: losses of CDAE, DMF and Caser fail on lists of
 values, and CDAE compares the users of a batch with each other

---
 DRecPy/Recommender/caser.py | 2 +-
 DRecPy/Recommender/cdae.py  | 2 +-
 DRecPy/Recommender/dmf.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index e783173..3237261 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -120,7 +120,7 @@ class Caser(RecommenderABC):
         return tf.reduce_sum(tf.multiply(concat_dense_1_input, w_), 2) + tf.squeeze(b_, 2)
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.stack(desired_values), tf.stack(predictions))
 
     def _predict(self, uid, iid, **kwds):
         raise NotImplementedError('This model does not support point-based predictions.')
diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index 4e41173..012d73b 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -76,7 +76,7 @@ class CDAE(RecommenderABC):
         return tf.sigmoid(tf.matmul(hidden_layer, self.W_) + self.b_)  # K x I
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.constant(desired_values, dtype=tf.float32), tf.concat(predictions, 0))
 
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..fc8351d 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -96,7 +96,7 @@ class DMF(RecommenderABC):
         return predictions, batch_samples['desired_values']
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.constant(desired_values, dtype=tf.float32), predictions)
 
     def _predict(self, uid, iid, **kwds):
         user_tensors, item_tensors = self._preprocess_input([uid], [iid])
-- 
2.43.0


From 797791f99f9cb2dc7810ab529b27e52414674f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:34 +0000
Subject: [PATCH 86/87] fix: Caser only works with at least as many horizontal
 filters as sequence elements

---
 DRecPy/Recommender/caser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 3237261..ab9ce3d 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -105,7 +105,7 @@ class Caser(RecommenderABC):
         out_h = []
         for conv_h in self.convs_h:
             conv_output = self.act_h(conv_h(items_embeddings))
-            out_h.append(tf.squeeze(tf.nn.max_pool1d(conv_output, self.n_h, self.n_h, 'SAME'), 1))
+            out_h.append(tf.reduce_max(conv_output, 1))
 
         out_h = tf.concat(out_h, 1)
         concat_out = tf.concat([out_v, out_h], 1)
-- 
2.43.0


From d5b929dc5894ca7ccbbb5b3d79de9cbeb1be873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 87/87] fix: fitted CDAE and DMF models cannot be saved

---
 DRecPy/Sampler/point_sampler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DRecPy/Sampler/point_sampler.py b/DRecPy/Sampler/point_sampler.py
index bc62f0d..23450db 100644
--- a/DRecPy/Sampler/point_sampler.py
+++ b/DRecPy/Sampler/point_sampler.py
@@ -41,6 +41,15 @@ class PointSampler:
                 f'interaction >= {interaction_threshold}', seed=seed
             )
 
+    def __getstate__(self):
+        # generators cannot be pickled: copies create their own
+        return {name: value for name, value in self.__dict__.items() if name not in ['null_pair_gen', 'pos_pair_gen']}
+
+    def __setstate__(self, state):
+        self.__init__(state['interaction_dataset'], state['neg_ratio'], state['interaction_threshold'],
+                      seed=state['rng'].getrandbits(32))
+        self.__dict__.update(state)
+
     def sample(self, n=16):
         """Sample positive and negative interaction pairs according to the set definitions of the PointSampler instance.
 
-- 
2.43.0


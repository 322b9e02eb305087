From bc02c1af8dd9ce356dd69d0952d422f5eeffd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 01/37] fix: clear the index query cache on every update

An indexer whose update found no new files kept answering from its query
cache, so entries added meanwhile by another spool or process on the same
directory stayed invisible to it.
---
 dascore/io/indexer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index c4157dc..603605a 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -341,6 +341,7 @@ class DirectoryIndexer(AbstractIndexer):
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
             self._index_table.write_update(df, update_time, base_path=self.path)
-            # clear cache out when new traces are added
-            self.clear_cache()
+        # Always clear the cache; another indexer (or process) might have added
+        # new traces even if this update didn't find any.
+        self.clear_cache()
         return self
-- 
2.43.0


From 45f227c2531b111e3f21889b7cdd7f1e5c386caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:38 +0000
Subject: [PATCH 02/37] fix: replace rather than duplicate index rows of
 re-scanned files

A file scanned again (touched, appended to, or arrived while an earlier update
was running) was appended to the index a second time, so the spool listed its
patches twice.
---
 dascore/utils/hdf5.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 5c6930f..d187b93 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -291,6 +291,7 @@ class HDFPatchIndexManager:
         update_time = update_time or time.time()
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
+            self._drop_updated_rows(store, df)
             try:
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
@@ -305,6 +306,18 @@ class HDFPatchIndexManager:
                 store.append(self._index_node, df, append=True, **self.hdf_kwargs)
             self._update_metadata(store, update_time)
 
+    def _drop_updated_rows(self, store, df):
+        """Remove rows from the index which the updates in df replace."""
+        try:
+            old = store.select(self._index_node, columns=["path"])
+        except (AttributeError, KeyError):
+            return  # no index yet
+        (rows,) = np.where(old["path"].isin(df["path"]))
+        if len(rows) == len(old):
+            store.remove(self._index_node)
+        elif len(rows):
+            store.remove(self._index_node, where=rows)
+
     def _update_metadata(self, store, update_time):
         # update timestamp
         update_time = time.time() if update_time is None else update_time
-- 
2.43.0


From 5a6f77320c950f3c24e0cccb5b6d4288b7cd11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 03/37] fix: update the directory index atomically

The index was appended to in place. A process dying (or a write failing) during
an update left an index which could no longer be opened, or one whose rows were
written but whose update time was not so that the rows were duplicated by the
next update. The update is now made on a copy which replaces the index.
---
 dascore/io/indexer.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 603605a..ef56420 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -5,7 +5,9 @@ from __future__ import annotations
 import abc
 import json
 import os
+import shutil
 import time
+import uuid
 import warnings
 from contextlib import suppress
 from functools import cache
@@ -306,6 +308,41 @@ class DirectoryIndexer(AbstractIndexer):
         }
         return out
 
+    def _write_update(self, df, update_time, timestamp):
+        """
+        Write the update to a copy of the index, then swap it for the original.
+
+        This way a crash or failed write can't damage an existing index, and
+        other processes see either the old or the new index, never a partially
+        written one.
+
+        Parameters
+        ----------
+        df
+            The new rows.
+        update_time
+            The time the scan which produced df started.
+        timestamp
+            The lower limit of modification times included in the scan.
+        """
+        path = self.index_path
+        path.parent.mkdir(exist_ok=True, parents=True)
+        temp_path = path.with_name(f".{path.name}_{uuid.uuid4().hex}.tmp")
+        try:
+            if path.exists():
+                shutil.copyfile(path, temp_path)
+            table = HDFPatchIndexManager(temp_path, self._namespace)
+            # If another process replaced the index during the scan, with one
+            # that is not as recent, files in between still need scanning.
+            current = table.last_updated_timestamp if temp_path.exists() else 0
+            if timestamp is not None and (current is None or current < timestamp):
+                update_time = current or 0.001
+            table.write_update(df, update_time, base_path=self.path)
+            os.replace(temp_path, path)
+        finally:
+            with suppress(FileNotFoundError):
+                os.remove(temp_path)
+
     def update(self, paths=None, progress: PROGRESS_LEVELS = "standard") -> Self:
         """
         Updates the contents of the Indexer.
@@ -340,7 +377,7 @@ class DirectoryIndexer(AbstractIndexer):
                 df = df.sort_values("time_min").reset_index(drop=True)
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
-            self._index_table.write_update(df, update_time, base_path=self.path)
+            self._write_update(df, update_time, timestamp)
         # Always clear the cache; another indexer (or process) might have added
         # new traces even if this update didn't find any.
         self.clear_cache()
-- 
2.43.0


From b8924125ebe2e48debd40c930feccbfcb588356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:45 +0000
Subject: [PATCH 04/37] fix: close handles opened for a FiberIO method when it
 raises

The handle opened to call a reader, writer or scanner was only closed if the
method returned, so each failing read through a spool leaked a descriptor.
---
 dascore/io/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index c80b96d..7ebbb00 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -420,7 +420,7 @@ def _type_caster(func, sig, required_type, arg_name):
             return func(*args, **kwargs)
         bound = sig.bind(*args, **kwargs)
         new_kw = bound.arguments
-        resource = new_kw.pop(arg_name)
+        new_resource = resource = new_kw.pop(arg_name)
         try:
             new_resource = get_handle_from_resource(resource, required_type)
             new_kw[arg_name] = new_resource
@@ -432,9 +432,10 @@ def _type_caster(func, sig, required_type, arg_name):
                 out = False
             else:
                 raise e
-        else:
-            # if a new file handle was created we need to close it now. But it
-            # shouldn't close any passed in, that should happen up the stack.
+        finally:
+            # if a new file handle was created we need to close it now, even if
+            # func raised. But it shouldn't close any passed in, that should
+            # happen up the stack.
             if new_resource is not resource and hasattr(new_resource, "close"):
                 new_resource.close()
         return out
-- 
2.43.0


From 25a13d66bfd3912520deb0f23d9b1e60fda3d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:56 +0000
Subject: [PATCH 05/37] fix: don't abort a directory scan if a listed file
 disappears

A file or directory removed (or not accessible) between being listed and being
scanned raised out of the scan, losing the results for all other files.
---
 dascore/io/core.py    |  8 ++++++++
 dascore/utils/misc.py | 27 +++++++++++++++++++--------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 7ebbb00..6fc6e67 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -880,6 +880,14 @@ def scan(
                     )
                 except UnknownFiberFormatError:  # skip bad entities
                     continue
+                except OSError:
+                    # Files can disappear, or fail to open, after they were
+                    # listed. Files requested by the user should still raise.
+                    requested = [str(x) for x in iterate(path)]
+                    if str(patch_source) in requested:
+                        raise
+                    warnings.warn(f"Failed to scan {patch_source}", UserWarning)
+                    continue
                 # Cache this fiber io to given preferential treatment next
                 # iteration. This speeds up the common case of many files
                 # with the same format.
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index f5f0b36..db638be 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -6,6 +6,7 @@ import contextlib
 import functools
 import importlib
 import inspect
+import math
 import os
 import re
 import warnings
@@ -161,6 +162,14 @@ def _get_nullish(dtype=np.floating):
     return np.nan
 
 
+def _get_entry_mtime(entry: os.DirEntry) -> float:
+    """Get modification time of entry, or -inf if it no longer exists."""
+    try:
+        return entry.stat().st_mtime
+    except FileNotFoundError:
+        return -math.inf
+
+
 def _iter_filesystem(
     paths: str | Path | Iterable[str | Path],
     ext: str | None = None,
@@ -203,17 +212,19 @@ def _iter_filesystem(
     try:  # a single path was passed
         for entry in os.scandir(paths):
             if entry.is_file() and (ext is None or entry.name.endswith(ext)):
-                if timestamp is None or entry.stat().st_mtime >= timestamp:
+                if timestamp is None or _get_entry_mtime(entry) >= timestamp:
                     if entry.name[0] != "." or not skip_hidden:
                         yield entry.path
             elif entry.is_dir() and not (skip_hidden and entry.name[0] == "."):
-                yield from _iter_filesystem(
-                    entry.path,
-                    ext=ext,
-                    timestamp=timestamp,
-                    skip_hidden=skip_hidden,
-                    include_directories=include_directories,
-                )
+                # The directory might be gone by now, or not be accessible.
+                with contextlib.suppress(FileNotFoundError, PermissionError):
+                    yield from _iter_filesystem(
+                        entry.path,
+                        ext=ext,
+                        timestamp=timestamp,
+                        skip_hidden=skip_hidden,
+                        include_directories=include_directories,
+                    )
     except (TypeError, AttributeError):  # multiple paths were passed
         for path in paths:
             yield from _iter_filesystem(path, ext, timestamp, skip_hidden)
-- 
2.43.0


From c0f86a762fbf72a089e8e77c69cc1b1880806e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 06/37] fix: overwrite existing files when writing binary
 formats

Writing a pickle file to an existing path appended a second pickle, so reading
it back returned the old patch. Files are now truncated as for other formats.
---
 dascore/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 543e1b6..96035a2 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -54,7 +54,7 @@ class BinaryReader(io.BytesIO):
 class BinaryWriter(BinaryReader):
     """Dummy class for streams which write binary."""
 
-    mode = "ab"
+    mode = "wb"
     reset_offset = False
 
 
-- 
2.43.0


From aec0fa7e925ca9fc7c6a3f58c8423906c06a1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:14 +0000
Subject: [PATCH 07/37] fix: avoid OR-ed conditions in the index query

PyTables can silently return wrong rows for (A & B) | (C & D) queries on
indexed columns, which pandas warns about on each query (GH#50598). The
overlap of two intervals needs only two conditions.
---
 dascore/utils/hdf5.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index d187b93..fec29fb 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -139,12 +139,9 @@ def _get_kernel_query(starttime: int, endtime: int, buffer: int):
     """
     t1 = starttime - buffer
     t2 = endtime + buffer
-    con = (
-        f"(time_min>{t1:d} & time_min<{t2:d}) | "
-        f"((time_max>{t1:d} & time_max<{t2:d}) | "
-        f"(time_min<{t1:d} & time_max>{t2:d}))"
-    )
-    return con
+    # Note: keep this to simple conjunctions; pytables can return wrong rows for
+    # OR-ed conditions on indexed columns (see pandas GH#50598).
+    return f"(time_min<{t2:d}) & (time_max>{t1:d})"
 
 
 class HDFPatchIndexManager:
-- 
2.43.0


From 264ba5b0215e8ccea2a81dcccc8bd871e1590749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:57 +0000
Subject: [PATCH 08/37] fix: list patches without a time coordinate in
 directory spools

The index query and the filter after it always restricted time, which no patch
lacking a time coordinate can match; such files were scanned and indexed but
never listed.
---
 dascore/io/indexer.py |  7 +++++--
 dascore/utils/hdf5.py | 15 +++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index ef56420..9ca6802 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -181,7 +181,8 @@ class DirectoryIndexer(AbstractIndexer):
         # empty df.
         if not self.index_path.exists():
             return pd.DataFrame(columns=self._index_table.index_columns)
-        time_min, time_max = get_max_min_times(kwargs.pop("time", None))
+        time_range = kwargs.pop("time", None)
+        time_min, time_max = get_max_min_times(time_range)
         hdf5_kwargs, kwargs = self._separate_hdf5_kwargs(kwargs)
         buffer = to_timedelta64(buffer)
         # find out if the query falls within one cached times
@@ -202,10 +203,12 @@ class DirectoryIndexer(AbstractIndexer):
         con1 = index["time_min"] >= (time_max + buffer)
         con2 = index["time_max"] <= (time_min - buffer)
         pre_filter_df = index[~(con1 | con2)]
+        # Only filter on time if requested; not all patches have a time.
+        if time_range is not None:
+            kwargs["time"] = (time_min, time_max)
         out = pre_filter_df[
             filter_df(
                 pre_filter_df,
-                time=(time_min, time_max),
                 ignore_bad_kwargs=True,
                 **kwargs,
             )
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index fec29fb..c043154 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -25,7 +25,7 @@ from tables import ClosedNodeError
 from tables import File as PyTablesFile
 
 import dascore as dc
-from dascore.constants import ONE_SECOND_IN_NS, max_lens
+from dascore.constants import LARGEDT64, ONE_SECOND_IN_NS, SMALLDT64, max_lens
 from dascore.exceptions import InvalidFileHandlerError, InvalidIndexVersionError
 from dascore.io.core import PatchFileSummary
 from dascore.utils.mapping import FrozenDict
@@ -269,11 +269,14 @@ class HDFPatchIndexManager:
                 return df
 
         time_min, time_max = get_max_min_times((time_min, time_max))
-        where = _get_kernel_query(
-            time_min.view(np.int64),
-            time_max.view(np.int64),
-            self.buffer.view(np.int64),
-        )
+        # An unrestricted query must also return rows without times (NaT).
+        where = None
+        if time_min > SMALLDT64 or time_max < LARGEDT64:
+            where = _get_kernel_query(
+                time_min.view(np.int64),
+                time_max.view(np.int64),
+                self.buffer.view(np.int64),
+            )
         df = _get_index(where, **kwargs)
         return self.decode_table(df)
 
-- 
2.43.0


From ef3ada3fdaedbea5fb3ef31558ecacbed4bc5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:30 +0000
Subject: [PATCH 09/37] fix: replace the whole group when a patch is re-written
 to a DASDAE file

Coordinates and attributes of the old patch were kept and merged into the
new one.
---
 dascore/io/dasdae/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 1cde1e1..b2a8893 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -21,13 +21,13 @@ _KWARG_NON_KEYS = {"file_version", "file_format", "path", "_modified"}
 # --- Functions for writing DASDAE format
 
 
-def _create_or_get_group(h5, group, name):
-    """Create a new group or get existing."""
+def _create_or_squash_group(h5, group, name):
+    """Create a new group, if it exists delete and re-create."""
     try:
-        group = h5.create_group(group, name)
+        return h5.create_group(group, name)
     except NodeError:
-        group = getattr(group, name)
-    return group
+        h5.remove_node(group, name, recursive=True)
+        return h5.create_group(group, name)
 
 
 def _create_or_squash_array(h5, group, name, data):
@@ -87,7 +87,7 @@ def _save_coords(patch, patch_group, h5):
 
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
-    patch_group = _create_or_get_group(h5, wave_group, name)
+    patch_group = _create_or_squash_group(h5, wave_group, name)
     _save_attrs_and_dims(patch, patch_group)
     _save_coords(patch, patch_group, h5)
     # add data
-- 
2.43.0


From 9c4e73f050883885b18075c350b3b2b8a9842f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:30 +0000
Subject: [PATCH 10/37] fix: keep in-file DASDAE index complete and patch names
 unique

- creating an index in a fresh process raised (pandas pytables not imported)
  and closed the caller's handle
- the index missed patches already in the file, patches without distance,
  and duplicated rows after Spool.update
- patches of one write sharing a name (same second, or read from the same
  multi-patch file) silently overwrote each other
---
 dascore/io/dasdae/core.py  | 48 +++++++++++++++++++++++---------------
 dascore/io/dasdae/utils.py |  9 +++++++
 dascore/utils/hdf5.py      | 12 +++++++++-
 3 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 475da97..3711159 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -15,13 +15,15 @@ from dascore.utils.hdf5 import (
     NodeError,
     PyTablesReader,
     PyTablesWriter,
+    open_hdf5_file,
 )
 from dascore.utils.misc import unbyte
-from dascore.utils.patch import get_patch_names
+from dascore.utils.pd import _model_list_to_df
 
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_unique_patch_names,
     _kwargs_empty,
     _matches_attr_filters,
     _read_patch,
@@ -87,27 +89,34 @@ class DASDAEV1(FiberIO):
             resource.create_group(resource.root, "waveforms")
         waveforms = resource.get_node("/waveforms")
         # write new patches to file
-        patch_names = get_patch_names(patches).values
+        contents = dc.scan_to_df(patches)
+        patch_names = _get_unique_patch_names(contents)
         for patch, name in zip(patches, patch_names):
             _save_patch(patch, waveforms, resource, name)
         indexer = HDFPatchIndexManager(resource)
-        if index or indexer.has_index:
-            df = self._get_patch_summary(patches)
-            indexer.write_update(df)
+        if indexer.has_index:
+            indexer.write_update(self._get_patch_summary(contents, patch_names))
+        elif index:
+            # A new index must also include patches already in the file.
+            self._index_file(resource, indexer)
 
-    def _get_patch_summary(self, patches) -> pd.DataFrame:
+    def _get_patch_summary(self, df, names) -> pd.DataFrame:
         """Get a patch summary to put into index."""
-        df = (
-            dc.scan_to_df(patches)
-            .assign(
-                path=lambda x: get_patch_names(x),
-                file_format=self.name,
-                file_version=self.version,
-            )
-            .dropna(subset=["time_min", "time_max", "distance_min", "distance_max"])
+        df = df.assign(
+            path=names,
+            file_format=self.name,
+            file_version=self.version,
         )
         return df
 
+    def _index_file(self, resource, indexer):
+        """Create an index of all the patches in the open file."""
+        contents = _get_contents_from_patch_groups(resource, self.version, self.name)
+        names = [x._v_name for x in resource.iter_nodes("/waveforms")]
+        if contents:
+            df = _model_list_to_df(contents)
+            indexer.write_update(self._get_patch_summary(df, names))
+
     def get_format(self, resource: H5Reader, **kwargs) -> tuple[str, str] | bool:
         """Return the format from a dasdae file."""
         is_dasdae, version = False, ""  # NOQA
@@ -152,7 +161,8 @@ class DASDAEV1(FiberIO):
         if indexer.has_index:
             # We need to change the path back to the file rather than internal
             # HDF5 path so it works with FileSpool and such.
-            records = indexer.get_index().assign(path=str(resource)).to_dict("records")
+            path = resource.filename
+            records = indexer.get_index().assign(path=path).to_dict("records")
             return [dc.PatchAttrs(**x) for x in records]
         else:
             file_format = self.name
@@ -161,7 +171,7 @@ class DASDAEV1(FiberIO):
 
     def index(self, path):
         """Index the dasdae file."""
-        indexer = HDFPatchIndexManager(path)
-        if not indexer.has_index:
-            df = dc.scan_to_df(path)
-            indexer.write_update(df)
+        if HDFPatchIndexManager(path).has_index:
+            return
+        with open_hdf5_file(path, "a") as resource:
+            self._index_file(resource, HDFPatchIndexManager(resource))
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index b2a8893..5b859ae 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -11,6 +11,7 @@ from dascore.core.attrs import PatchAttrs
 from dascore.core.coordmanager import get_coord_manager
 from dascore.core.coords import get_coord
 from dascore.utils.misc import suppress_warnings
+from dascore.utils.patch import get_patch_names
 from dascore.utils.pd import filter_df
 from dascore.utils.time import to_int
 
@@ -85,6 +86,14 @@ def _save_coords(patch, patch_group, h5):
         patch_group._v_attrs[save_name] = ",".join(dims)
 
 
+def _get_unique_patch_names(df):
+    """Get a name for each patch described in df; patches never share a name."""
+    # The path isn't used; patches from the same file need different names.
+    names = get_patch_names(df.drop(columns=["path"], errors="ignore"))
+    count = names.groupby(names).cumcount()
+    return names.where(count == 0, names + "__" + count.astype(str)).values
+
+
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
     patch_group = _create_or_squash_group(h5, wave_group, name)
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index c043154..49c5f83 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -21,6 +21,7 @@ import tables
 from h5py import File as H5pyFile
 from packaging.version import parse as get_version
 from pandas.io.common import stringify_path
+from pandas.io.pytables import _tables
 from tables import ClosedNodeError
 from tables import File as PyTablesFile
 
@@ -76,11 +77,20 @@ class _HDF5Store(pd.HDFStore):
         self._complib = complib
         self._fletcher32 = fletcher32
         self._filters = None
-        if isinstance(path, tables.File):
+        self._owns_handle = not isinstance(path, tables.File)
+        if not self._owns_handle:
+            _tables()  # pandas needs this before first use, open calls it.
             self._handle = path
         else:
             self.open(mode)
 
+    def close(self) -> None:
+        """Close the store, but not a handle which was opened elsewhere."""
+        if self._owns_handle:
+            super().close()
+        else:
+            self._handle.flush()
+
 
 @contextmanager
 def open_hdf5_file(
-- 
2.43.0


From bf77f556bc2d171579abdba9e20b782e2bdbf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:18 +0000
Subject: [PATCH 11/37] fix: don't advance the index update time after a
 partial update

Files outside of the paths passed to DirectoryIndexer.update were never
indexed by later updates.
---
 dascore/io/indexer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 9ca6802..6a49451 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -311,7 +311,7 @@ class DirectoryIndexer(AbstractIndexer):
         }
         return out
 
-    def _write_update(self, df, update_time, timestamp):
+    def _write_update(self, df, update_time, timestamp, partial=False):
         """
         Write the update to a copy of the index, then swap it for the original.
 
@@ -327,6 +327,8 @@ class DirectoryIndexer(AbstractIndexer):
             The time the scan which produced df started.
         timestamp
             The lower limit of modification times included in the scan.
+        partial
+            If True, only part of the directory was scanned.
         """
         path = self.index_path
         path.parent.mkdir(exist_ok=True, parents=True)
@@ -336,9 +338,11 @@ class DirectoryIndexer(AbstractIndexer):
                 shutil.copyfile(path, temp_path)
             table = HDFPatchIndexManager(temp_path, self._namespace)
             # If another process replaced the index during the scan, with one
-            # that is not as recent, files in between still need scanning.
+            # that is not as recent, files in between still need scanning. The
+            # same is true for files outside of a partial scan.
             current = table.last_updated_timestamp if temp_path.exists() else 0
-            if timestamp is not None and (current is None or current < timestamp):
+            stale = timestamp is not None and (current is None or current < timestamp)
+            if partial or stale:
                 update_time = current or 0.001
             table.write_update(df, update_time, base_path=self.path)
             os.replace(temp_path, path)
@@ -364,9 +368,8 @@ class DirectoryIndexer(AbstractIndexer):
         self._enforce_min_version()  # delete index if schema has changed
         update_time = time.time()
         timestamp = self._get_mtime(only_new=True)
-        paths = self._get_paths(paths)
         df = dc.scan_to_df(
-            path=paths,
+            path=self._get_paths(paths),
             timestamp=timestamp,
             progress=progress,
             ext=self.ext,
@@ -380,7 +383,8 @@ class DirectoryIndexer(AbstractIndexer):
                 df = df.sort_values("time_min").reset_index(drop=True)
             # ensure the base path is not in the path column
             assert "path" in set(df.columns), f"{df} has no path column"
-            self._write_update(df, update_time, timestamp)
+            partial = paths is not None
+            self._write_update(df, update_time, timestamp, partial=partial)
         # Always clear the cache; another indexer (or process) might have added
         # new traces even if this update didn't find any.
         self.clear_cache()
-- 
2.43.0


From 7565d0495767cc1c2ebe4ed11db82aec2885c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 12/37] fix: re-read XMLBINARY metadata when the file changed

The metadata was cached by path, so a process kept using the contents
of a metadata file which had since been replaced.
---
 dascore/io/xml_binary/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dascore/io/xml_binary/utils.py b/dascore/io/xml_binary/utils.py
index a9dc9b5..f50058e 100644
--- a/dascore/io/xml_binary/utils.py
+++ b/dascore/io/xml_binary/utils.py
@@ -64,9 +64,16 @@ class XMLBinaryInfo(_XMLModel):
     transposed_data: bool
 
 
-@lru_cache
 def _read_xml_metadata(path):
     """A function to read metadata from the xml file."""
+    stat = path.stat()
+    # The file might have changed since it was last read.
+    return _read_cached_xml_metadata(path, stat.st_mtime_ns, stat.st_size)
+
+
+@lru_cache
+def _read_cached_xml_metadata(path, mtime_ns, size):
+    """Read the metadata from a specific version of the xml file."""
     contents = xml_to_dict(path.read_bytes())
     return XMLBinaryInfo.model_validate(contents)
 
-- 
2.43.0


From 7996f50a2dd93c585c2af990f362d95cb5dd0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:40 +0000
Subject: [PATCH 13/37] fix: index directories whose files have different
 metadata fields

A file with, e.g., an experiment_id next to one without, or a directory
only containing patches without time, raised an AssertionError.
---
 dascore/utils/hdf5.py | 10 +++-------
 dascore/utils/pd.py   |  7 +++++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 49c5f83..7e69808 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -229,15 +229,11 @@ class HDFPatchIndexManager:
         """Encode the table for writing to hdf5."""
         # apply column encoders, make paths relative to reference path
         # and drop any non-index columns.
-        cols = set(df.columns)
+        df = fill_defaults_from_pydantic(df, self._base_model)
         for col, func in self._column_encoders.items():
-            if col not in cols:
-                continue
             df[col] = func(df[col])
-        out = (
-            df.pipe(fill_defaults_from_pydantic, self._base_model)
-            .loc[:, list(self.index_columns)]
-            .assign(path=lambda x: _remove_base_path(x["path"], path))
+        out = df.loc[:, list(self.index_columns)].assign(
+            path=lambda x: _remove_base_path(x["path"], path)
         )
         # there shouldn't be any null values in index now
         assert not out.isnull().any().any(), "null values found in index"
diff --git a/dascore/utils/pd.py b/dascore/utils/pd.py
index 07238f4..0fd0637 100644
--- a/dascore/utils/pd.py
+++ b/dascore/utils/pd.py
@@ -419,7 +419,8 @@ def fill_defaults_from_pydantic(df, base_model: type[BaseModel]):
     """
     Fill missing columns in dataframe with defaults from base_model.
 
-    If the missing column has no default value, raise ValueError.
+    Missing values of existing columns are also filled, since the rows can come
+    from sources which don't have values for the same fields. If the missing column has no default value, raise ValueError.
 
     Parameters
     ----------
@@ -435,7 +436,9 @@ def fill_defaults_from_pydantic(df, base_model: type[BaseModel]):
         msg = f"Missing required value: {required}"
         raise ValueError(msg)
     fill = {x: fields[x].default for x in missing}
-    return df.assign(**fill)
+    defaults = {x: v.default for x, v in fields.items() if not v.is_required()}
+    fill_null = {x: v for x, v in defaults.items() if not pd.isnull(v)}
+    return df.assign(**fill).fillna(fill_null)
 
 
 def list_ser_to_str(ser: pd.Series) -> pd.Series:
-- 
2.43.0


From cab7799cf8a725d87fd523b45567a15ab6112bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:27 +0000
Subject: [PATCH 14/37] fix: report failed writes of DASDAE files and index
 files

PyTables ignores errors when data are written on flush or close, so e.g.
with a full disk writing returned normally although data were lost.
---
 dascore/io/dasdae/core.py |  2 ++
 dascore/utils/hdf5.py     | 76 +++++++++++++++++++++++++++++++++------
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index 3711159..e71c60a 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -15,6 +15,7 @@ from dascore.utils.hdf5 import (
     NodeError,
     PyTablesReader,
     PyTablesWriter,
+    _flush_or_raise,
     open_hdf5_file,
 )
 from dascore.utils.misc import unbyte
@@ -93,6 +94,7 @@ class DASDAEV1(FiberIO):
         patch_names = _get_unique_patch_names(contents)
         for patch, name in zip(patches, patch_names):
             _save_patch(patch, waveforms, resource, name)
+            _flush_or_raise(resource)
         indexer = HDFPatchIndexManager(resource)
         if indexer.has_index:
             indexer.write_update(self._get_patch_summary(contents, patch_names))
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 7e69808..9fd6a2b 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -22,7 +22,7 @@ from h5py import File as H5pyFile
 from packaging.version import parse as get_version
 from pandas.io.common import stringify_path
 from pandas.io.pytables import _tables
-from tables import ClosedNodeError
+from tables import ClosedNodeError, HDF5ExtError
 from tables import File as PyTablesFile
 
 import dascore as dc
@@ -52,6 +52,41 @@ ns_to_datetime = partial(pd.to_datetime, unit="ns")
 ns_to_timedelta = partial(pd.to_timedelta, unit="ns")
 
 
+def _raise_on_hdf5_error(filename):
+    """
+    Raise an OSError if the last HDF5 operation failed.
+
+    PyTables doesn't check if the data were actually written when a file is
+    flushed or closed, so, for example, a full disk would go unnoticed.
+    """
+    get_errors = HDF5ExtError._dump_h5_backtrace
+    if get_errors is not None and (errors := get_errors()):
+        msg = f"Failed to write {filename}: {errors[-1][-1]}"
+        raise OSError(msg)
+
+
+def _flush_or_raise(h5: PyTablesFile):
+    """Write all cached data of an open pytables file, raise if this fails."""
+    if h5.isopen and h5.mode != "r":
+        h5.flush()
+        _raise_on_hdf5_error(h5.filename)
+
+
+class _PyTablesWriteFile(PyTablesFile):
+    """A pytables file which raises if data can't be written when closing."""
+
+    def close(self):
+        """Close the file."""
+        if not self.isopen:
+            return
+        filename = self.filename
+        try:
+            _flush_or_raise(self)
+        finally:
+            super().close()
+        _raise_on_hdf5_error(filename)
+
+
 class _HDF5Store(pd.HDFStore):
     """
     A work-around for pandas HDF5 store not accepting
@@ -86,10 +121,15 @@ class _HDF5Store(pd.HDFStore):
 
     def close(self) -> None:
         """Close the store, but not a handle which was opened elsewhere."""
-        if self._owns_handle:
-            super().close()
-        else:
-            self._handle.flush()
+        handle = self._handle
+        try:
+            if handle is not None:
+                _flush_or_raise(handle)
+        finally:
+            if self._owns_handle:
+                super().close()
+        if self._owns_handle and handle is not None and self._mode != "r":
+            _raise_on_hdf5_error(self._path)
 
 
 @contextmanager
@@ -297,7 +337,7 @@ class HDFPatchIndexManager:
         update_time = update_time or time.time()
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
-            self._drop_updated_rows(store, df)
+            paths = self._drop_updated_rows(store, df) + list(df["path"])
             try:
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
@@ -311,18 +351,33 @@ class HDFPatchIndexManager:
                 df.index += nrows
                 store.append(self._index_node, df, append=True, **self.hdf_kwargs)
             self._update_metadata(store, update_time)
+        self._raise_if_not_written(paths)
+
+    def _raise_if_not_written(self, paths):
+        """Raise if the index doesn't list paths, not all IO errors are reported."""
+        with _HDF5Store(self.path, "r") as store:
+            found = store.select(self._index_node, columns=["path"])["path"]
+        if sorted(found) != sorted(paths):
+            msg = f"Failed to write index {self.path}"
+            raise OSError(msg)
 
-    def _drop_updated_rows(self, store, df):
-        """Remove rows from the index which the updates in df replace."""
+    def _drop_updated_rows(self, store, df) -> list[str]:
+        """
+        Remove rows from the index which the updates in df replace.
+
+        Returns the paths of the remaining rows.
+        """
         try:
             old = store.select(self._index_node, columns=["path"])
         except (AttributeError, KeyError):
-            return  # no index yet
-        (rows,) = np.where(old["path"].isin(df["path"]))
+            return []  # no index yet
+        replaced = old["path"].isin(df["path"])
+        (rows,) = np.where(replaced)
         if len(rows) == len(old):
             store.remove(self._index_node)
         elif len(rows):
             store.remove(self._index_node, where=rows)
+        return list(old["path"][~replaced])
 
     def _update_metadata(self, store, update_time):
         # update timestamp
@@ -460,6 +515,7 @@ class PyTablesWriter(PyTablesReader):
     """A thin wrapper around pytables File object for writing."""
 
     mode = "a"
+    constructor = _PyTablesWriteFile
 
 
 class H5Reader(PyTablesReader):
-- 
2.43.0


From 04bad58298c27ce1d8d0561fc80c63839e355750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 15/37] fix: assemble the updated index in memory before
 writing it

Transient write errors which PyTables does not report could still put a
damaged index in place.
---
 dascore/io/indexer.py | 21 ++++++++++++++-------
 dascore/utils/hdf5.py | 28 +++++++---------------------
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 6a49451..35c3015 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -5,7 +5,6 @@ from __future__ import annotations
 import abc
 import json
 import os
-import shutil
 import time
 import uuid
 import warnings
@@ -15,6 +14,7 @@ from pathlib import Path
 
 import pandas as pd
 import pooch
+import tables
 from typing_extensions import Self
 
 import dascore as dc
@@ -317,7 +317,8 @@ class DirectoryIndexer(AbstractIndexer):
 
         This way a crash or failed write can't damage an existing index, and
         other processes see either the old or the new index, never a partially
-        written one.
+        written one. The copy is kept in memory until it is complete since
+        PyTables doesn't report all errors of writing to disk.
 
         Parameters
         ----------
@@ -333,18 +334,24 @@ class DirectoryIndexer(AbstractIndexer):
         path = self.index_path
         path.parent.mkdir(exist_ok=True, parents=True)
         temp_path = path.with_name(f".{path.name}_{uuid.uuid4().hex}.tmp")
-        try:
-            if path.exists():
-                shutil.copyfile(path, temp_path)
-            table = HDFPatchIndexManager(temp_path, self._namespace)
+        image = path.read_bytes() if path.exists() else None
+        h5_kwargs = dict(driver="H5FD_CORE", driver_core_backing_store=0)
+        if image:
+            h5_kwargs["driver_core_image"] = image
+        with tables.open_file(temp_path, "a", **h5_kwargs) as h5:
+            table = HDFPatchIndexManager(h5, self._namespace)
             # If another process replaced the index during the scan, with one
             # that is not as recent, files in between still need scanning. The
             # same is true for files outside of a partial scan.
-            current = table.last_updated_timestamp if temp_path.exists() else 0
+            current = table.last_updated_timestamp
             stale = timestamp is not None and (current is None or current < timestamp)
             if partial or stale:
                 update_time = current or 0.001
             table.write_update(df, update_time, base_path=self.path)
+            h5.flush()
+            image = h5.get_file_image()
+        try:
+            temp_path.write_bytes(image)
             os.replace(temp_path, path)
         finally:
             with suppress(FileNotFoundError):
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 9fd6a2b..149d5cf 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -337,7 +337,7 @@ class HDFPatchIndexManager:
         update_time = update_time or time.time()
         df = self.encode_table(update_df.copy(), path=base_path)
         with _HDF5Store(self.path) as store:
-            paths = self._drop_updated_rows(store, df) + list(df["path"])
+            self._drop_updated_rows(store, df)
             try:
                 nrows = store.get_storer(self._index_node).nrows
             except (AttributeError, KeyError):
@@ -351,33 +351,18 @@ class HDFPatchIndexManager:
                 df.index += nrows
                 store.append(self._index_node, df, append=True, **self.hdf_kwargs)
             self._update_metadata(store, update_time)
-        self._raise_if_not_written(paths)
 
-    def _raise_if_not_written(self, paths):
-        """Raise if the index doesn't list paths, not all IO errors are reported."""
-        with _HDF5Store(self.path, "r") as store:
-            found = store.select(self._index_node, columns=["path"])["path"]
-        if sorted(found) != sorted(paths):
-            msg = f"Failed to write index {self.path}"
-            raise OSError(msg)
-
-    def _drop_updated_rows(self, store, df) -> list[str]:
-        """
-        Remove rows from the index which the updates in df replace.
-
-        Returns the paths of the remaining rows.
-        """
+    def _drop_updated_rows(self, store, df):
+        """Remove rows from the index which the updates in df replace."""
         try:
             old = store.select(self._index_node, columns=["path"])
         except (AttributeError, KeyError):
-            return []  # no index yet
-        replaced = old["path"].isin(df["path"])
-        (rows,) = np.where(replaced)
+            return  # no index yet
+        (rows,) = np.where(old["path"].isin(df["path"]))
         if len(rows) == len(old):
             store.remove(self._index_node)
         elif len(rows):
             store.remove(self._index_node, where=rows)
-        return list(old["path"][~replaced])
 
     def _update_metadata(self, store, update_time):
         # update timestamp
@@ -486,7 +471,8 @@ class HDFPatchIndexManager:
     def last_updated_timestamp(self) -> float | None:
         """Return the last modified time stored in the index, else None."""
         try:
-            out = pd.read_hdf(self.path, self._time_node)[0]
+            with _HDF5Store(self.path, "r") as store:
+                out = store.get(self._time_node)[0]
         except (OSError, IndexError, ValueError, KeyError, AttributeError):
             out = None
         return out
-- 
2.43.0


From e42f649f108ac45351417bfd6e64e70aa1a93557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 16/37] fix: load the right patch when patches of one file
 overlap

---
 dascore/clients/dirspool.py  |  2 +-
 dascore/clients/filespool.py |  2 +-
 dascore/core/spool.py        | 29 +++++++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a4ba73e..a0eab0e 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -137,7 +137,7 @@ class DirectorySpool(DataFrameSpool):
                 f"requested range; it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._pick_patch(patches, kwargs)
 
     def _read_patches(self, kwargs) -> list[dc.Patch] | None:
         """
diff --git a/dascore/clients/filespool.py b/dascore/clients/filespool.py
index 3cc4d38..a32c1d6 100644
--- a/dascore/clients/filespool.py
+++ b/dascore/clients/filespool.py
@@ -74,7 +74,7 @@ class FileSpool(DataFrameSpool):
                 f"it may have been trimmed to nothing."
             )
             raise MissingPatchError(msg)
-        return patches[0]
+        return self._pick_patch(patches, kwargs)
 
     @compose_docstring(doc=BaseSpool.update.__doc__)
     def update(self: SpoolType, progress: PROGRESS_LEVELS = "standard") -> Self:
diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 406c426..f49148d 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -108,6 +108,20 @@ def _estimate_merge_samples(df, dim) -> int | None:
     return int(counts.sum())
 
 
+def _is_described_by(patch, kwargs) -> bool:
+    """Return True if the patch has the coordinate ranges and str attrs in kwargs."""
+    for name, value in kwargs.items():
+        if name in patch.coords.coord_map:
+            coord = patch.get_coord(name)
+            if [coord.min(), coord.max()] != list(value):
+                return False
+            continue
+        attr = patch.attrs.get(name)
+        if isinstance(value, str) and isinstance(attr, str) and value != attr:
+            return False
+    return True
+
+
 class BaseSpool(NamespaceOwner, abc.ABC):
     """Spool Abstract Base Class (ABC) for defining Spool interface."""
 
@@ -679,6 +693,21 @@ class DataFrameSpool(BaseSpool):
     def _load_patch(self, kwargs) -> dc.Patch:
         """Given a row from the managed dataframe, return a patch."""
 
+    def _pick_patch(self, patches, kwargs) -> dc.Patch:
+        """
+        Pick the patch described by a row of the dataframe (kwargs) from patches.
+
+        If a file has several patches which overlap in the requested range all
+        of them are read, and trimmed to it, so the whole patches are needed to
+        find the right one.
+        """
+        if len(patches) > 1 and not kwargs.get("_modified"):
+            names = set().union(*(x.coords.coord_map for x in patches))
+            no_ranges = {i: v for i, v in kwargs.items() if i not in names}
+            whole = dc.read(**no_ranges)
+            patches = [x for x in whole if _is_described_by(x, kwargs)] or patches
+        return patches[0]
+
     @compose_docstring(doc=BaseSpool.chunk.__doc__)
     def chunk(
         self,
-- 
2.43.0


From 62fc07da7d38977a7591e1bdf9054aeffe6780ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 17/37] fix: include the data when writing file or directory
 spools as pickle

---
 dascore/io/pickle/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dascore/io/pickle/core.py b/dascore/io/pickle/core.py
index 80f62b5..456ba84 100644
--- a/dascore/io/pickle/core.py
+++ b/dascore/io/pickle/core.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import pickle
 
 import dascore
+from dascore.core.spool import MemorySpool
 from dascore.io import BinaryReader, BinaryWriter, FiberIO
 
 
@@ -54,4 +55,8 @@ class PickleIO(FiberIO):
 
     def write(self, patch, resource: BinaryWriter, **kwargs):
         """Write a Patch/Spool to disk."""
+        # Spools backed by files only reference their patches; these need to be
+        # loaded, otherwise the data would not be in the new file.
+        if not isinstance(patch, dascore.Patch | MemorySpool):
+            patch = dascore.spool(list(patch))
         pickle.dump(patch, resource)
-- 
2.43.0


From 0719a60fc22e7f54eafe98e5f7f0b5ba04be5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 18/37] fix: convert arrays mixing timedeltas and numbers
 elementwise

---
 dascore/utils/time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dascore/utils/time.py b/dascore/utils/time.py
index 13abc71..d11932e 100644
--- a/dascore/utils/time.py
+++ b/dascore/utils/time.py
@@ -204,9 +204,13 @@ def _pass_time_delta(time_delta):
 def _array_to_timedelta64(array: np.ndarray) -> np.datetime64:
     """Convert an array of floating point timestamps to an array of np.datatime64."""
     array = np.asarray(array)
-    # convert pure object arrays into float so sign casting works.
     if np.issubdtype(array.dtype, np.dtype(object)):
-        array = array.astype(np.float64)
+        # a mixture of types; numpy would treat timedeltas as numbers (of ns).
+        if any(isinstance(x, np.timedelta64 | timedelta) for x in array):
+            array = np.asarray([to_timedelta64(x) for x in array])
+        # convert pure object arrays into float so sign casting works.
+        else:
+            array = array.astype(np.float64)
     if np.issubdtype(array.dtype, np.timedelta64) or len(array) == 0:
         if not array.shape:  # unpack degenerate array
             return np.timedelta64(array)
-- 
2.43.0


From 92e3613679496f98bf867ff81722b5c7c033e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 19/37] fix: write SEGY files with a single channel

---
 dascore/io/segy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 8306694..30c06ad 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -238,7 +238,8 @@ def _write_segy(spool, resource, version, segyio):
     """
     patch = _get_segy_compatible_patch(spool)
     time, channel = patch.get_coord("time"), patch.get_coord("channel")
-    channel_step = channel.step
+    # A single channel has no step.
+    channel_step = 1 if channel.step is None else channel.step
 
     time_dict = _make_time_header_dict(time)
     bin_field = segyio.BinField
-- 
2.43.0


From a8513bf6bb264f6e9cc9ee43cfa08579ab1b324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 20/37] fix: name patches in DASDAE files independent of the
 other patches written

---
 dascore/io/dasdae/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index 5b859ae..c95a253 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -89,7 +89,10 @@ def _save_coords(patch, patch_group, h5):
 def _get_unique_patch_names(df):
     """Get a name for each patch described in df; patches never share a name."""
     # The path isn't used; patches from the same file need different names.
-    names = get_patch_names(df.drop(columns=["path"], errors="ignore"))
+    df = df.drop(columns=["path"], errors="ignore").reset_index(drop=True)
+    # Names are found one by one so a name only depends on the patch itself.
+    rows = [df.iloc[[i]].dropna(axis=1).infer_objects() for i in range(len(df))]
+    names = pd.Series([get_patch_names(x).iloc[0] for x in rows], dtype=object)
     count = names.groupby(names).cumcount()
     return names.where(count == 0, names + "__" + count.astype(str)).values
 
-- 
2.43.0


From 2e49568a293dbdd90f6e931db8ddce0d99680dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 21/37] fix: skip damaged and failing files when scanning
 directories

---
 dascore/io/core.py | 48 +++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index 6fc6e67..ac55be9 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -32,7 +32,6 @@ from dascore.constants import (
 from dascore.core.attrs import str_validator
 from dascore.core.spool import DataFrameSpool
 from dascore.exceptions import (
-    InvalidFiberFileError,
     InvalidFiberIOError,
     MissingOptionalDependencyError,
     UnknownFiberFormatError,
@@ -857,6 +856,7 @@ def scan(
     generator = _iterate_scan_inputs(path, ext=ext, mtime=timestamp)
     # We want to avoid printing long object str reprs, so only print paths.
     resource_str = path if isinstance(path, str | Path) else ""
+    requested = {str(x) for x in iterate(path) if isinstance(x, str | Path)}
     tracker = track(
         generator,
         f"scan {resource_str}",
@@ -880,10 +880,9 @@ def scan(
                     )
                 except UnknownFiberFormatError:  # skip bad entities
                     continue
-                except OSError:
+                except Exception:
                     # Files can disappear, or fail to open, after they were
                     # listed. Files requested by the user should still raise.
-                    requested = [str(x) for x in iterate(path)]
                     if str(patch_source) in requested:
                         raise
                     warnings.warn(f"Failed to scan {patch_source}", UserWarning)
@@ -892,30 +891,35 @@ def scan(
                 # iteration. This speeds up the common case of many files
                 # with the same format.
                 fiber_io_hint[fiber_io.input_type] = fiber_io
+                is_directory = fiber_io.input_type == "directory"
                 # Special handling of directory FiberIOs.
-                if fiber_io.input_type == "directory":
+                if is_directory:
                     # Directory fiber_io should send skip signal back to generator
                     # so that no files/sub directories are scanned.
                     generator.send("skip")
-                    if not fiber_io._updated_after(resource, timestamp):
-                        continue
-                    # Directory FiberIO may need to know the time after which
-                    # contents should be returned.
-                    source = fiber_io.scan(
-                        resource, timestamp=timestamp, _pre_cast=True
-                    )
-                else:
-                    try:
-                        source = fiber_io.scan(resource, _pre_cast=True)
-                    # This happens if the file is corrupt see #346.
-                    except (OSError, InvalidFiberFileError, ValueError, TypeError):
-                        warnings.warn(f"Failed to scan {resource}", UserWarning)
-                        continue
-                    except MissingOptionalDependencyError as ex:
-                        missing_optional_deps[ex.msg.split(" ")[0]] += 1
+                # Directory FiberIO may need to know the time after which
+                # contents should be returned.
+                scan_kwargs = {"timestamp": timestamp} if is_directory else {}
+                try:
+                    if is_directory and not fiber_io._updated_after(
+                        resource, timestamp
+                    ):
                         continue
-                for attr in source:
-                    out.append(dc.PatchAttrs.from_dict(attr))
+                    source = fiber_io.scan(resource, _pre_cast=True, **scan_kwargs)
+                    attrs = [dc.PatchAttrs.from_dict(attr) for attr in source]
+                except MissingOptionalDependencyError as ex:
+                    missing_optional_deps[ex.msg.split(" ")[0]] += 1
+                    continue
+                # This happens if the file is corrupt see #346. The error depends
+                # on the format and which part of the file is damaged.
+                except Exception as ex:
+                    if isinstance(ex, NotImplementedError) and (
+                        str(patch_source) in requested
+                    ):
+                        raise
+                    warnings.warn(f"Failed to scan {resource}", UserWarning)
+                    continue
+                out.extend(attrs)
     # Ensure ctl + c exists scan.
     except KeyboardInterrupt:
         getattr(progress, "stop", lambda: None)()
-- 
2.43.0


From 05b279c859c50cd98d00606c01b628cdc9994674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:54 +0000
Subject: [PATCH 22/37] fix: keep DASDAE files readable after a patch that
 cannot be stored

A patch with data or attributes the format can't hold failed half way
through, leaving a group without data (or replacing a stored patch of the
same name), after which the whole file could not be read. The patch is now
saved under a temporary name and only renamed once it is complete.
---
 dascore/io/dasdae/utils.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index c95a253..decc5c4 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -99,12 +99,20 @@ def _get_unique_patch_names(df):
 
 def _save_patch(patch, wave_group, h5, name):
     """Save the patch to disk."""
-    patch_group = _create_or_squash_group(h5, wave_group, name)
-    _save_attrs_and_dims(patch, patch_group)
-    _save_coords(patch, patch_group, h5)
-    # add data
-    if patch.data.shape:
-        _create_or_squash_array(h5, patch_group, "data", patch.data)
+    # The name is only used once everything is saved. Otherwise, a patch which
+    # can't be saved would make the file unreadable or replace a valid patch.
+    temp_name = f"{name}__incomplete"
+    patch_group = _create_or_squash_group(h5, wave_group, temp_name)
+    try:
+        _save_attrs_and_dims(patch, patch_group)
+        _save_coords(patch, patch_group, h5)
+        # add data
+        if patch.data.shape:
+            _create_or_squash_array(h5, patch_group, "data", patch.data)
+    except Exception:
+        h5.remove_node(wave_group, temp_name, recursive=True)
+        raise
+    h5.move_node(wave_group, newname=name, name=temp_name, overwrite=True)
 
 
 # --- Functions for reading
-- 
2.43.0


From b2413515b940837a62d663d24ccbcc552107ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:56 +0000
Subject: [PATCH 23/37] fix: raise rather than leave out patches of DASDAE
 files on read errors

PyTables ignores errors while it lists the nodes of a group, so a failing
disk made patches silently disappear from the result of reading or scanning
a file, or from a newly written in-file index.
---
 dascore/io/dasdae/core.py  |  9 +++------
 dascore/io/dasdae/utils.py | 11 ++++++++++-
 dascore/utils/hdf5.py      | 24 ++++++++++++++++++------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/dascore/io/dasdae/core.py b/dascore/io/dasdae/core.py
index e71c60a..26e5e78 100644
--- a/dascore/io/dasdae/core.py
+++ b/dascore/io/dasdae/core.py
@@ -24,6 +24,7 @@ from dascore.utils.pd import _model_list_to_df
 from .utils import (
     _get_attrs,
     _get_contents_from_patch_groups,
+    _get_patch_groups,
     _get_unique_patch_names,
     _kwargs_empty,
     _matches_attr_filters,
@@ -114,7 +115,7 @@ class DASDAEV1(FiberIO):
     def _index_file(self, resource, indexer):
         """Create an index of all the patches in the open file."""
         contents = _get_contents_from_patch_groups(resource, self.version, self.name)
-        names = [x._v_name for x in resource.iter_nodes("/waveforms")]
+        names = [x._v_name for x in _get_patch_groups(resource)]
         if contents:
             df = _model_list_to_df(contents)
             indexer.write_update(self._get_patch_summary(df, names))
@@ -132,11 +133,7 @@ class DASDAEV1(FiberIO):
     def read(self, resource: PyTablesReader, **kwargs) -> SpoolType:
         """Read a dascore file."""
         patches = []
-        try:
-            waveform_group = resource.root["/waveforms"]
-        except (KeyError, IndexError):
-            return dc.spool([])
-        for patch_group in waveform_group:
+        for patch_group in _get_patch_groups(resource):
             attrs = _get_attrs(patch_group)
             if not _matches_attr_filters(attrs, kwargs):
                 continue
diff --git a/dascore/io/dasdae/utils.py b/dascore/io/dasdae/utils.py
index decc5c4..a20f671 100644
--- a/dascore/io/dasdae/utils.py
+++ b/dascore/io/dasdae/utils.py
@@ -10,6 +10,7 @@ import dascore as dc
 from dascore.core.attrs import PatchAttrs
 from dascore.core.coordmanager import get_coord_manager
 from dascore.core.coords import get_coord
+from dascore.utils.hdf5 import _get_child_names
 from dascore.utils.misc import suppress_warnings
 from dascore.utils.patch import get_patch_names
 from dascore.utils.pd import filter_df
@@ -218,10 +219,18 @@ def _read_patch(patch_group, attrs=None, **kwargs):
     return dc.Patch(data=data, coords=coords, dims=dims, attrs=attrs)
 
 
+def _get_patch_groups(h5):
+    """Get a list of all the patch groups in an open file."""
+    if "waveforms" not in _get_child_names(h5.root):
+        return []
+    waveforms = h5.get_node("/waveforms")
+    return [h5.get_node(waveforms, x) for x in sorted(_get_child_names(waveforms))]
+
+
 def _get_contents_from_patch_groups(h5, file_version, file_format="DASDAE"):
     """Get the contents from each patch group."""
     out = []
-    for group in h5.iter_nodes("/waveforms"):
+    for group in _get_patch_groups(h5):
         contents = _get_patch_content_from_group(group)
         # populate file info
         contents["file_version"] = file_version
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index 149d5cf..eeff581 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -57,11 +57,12 @@ def _raise_on_hdf5_error(filename):
     Raise an OSError if the last HDF5 operation failed.
 
     PyTables doesn't check if the data were actually written when a file is
-    flushed or closed, so, for example, a full disk would go unnoticed.
+    flushed or closed, or if a group could be listed, so, for example, a full
+    disk would go unnoticed.
     """
     get_errors = HDF5ExtError._dump_h5_backtrace
     if get_errors is not None and (errors := get_errors()):
-        msg = f"Failed to write {filename}: {errors[-1][-1]}"
+        msg = f"Failed to access {filename}: {errors[-1][-1]}"
         raise OSError(msg)
 
 
@@ -72,6 +73,19 @@ def _flush_or_raise(h5: PyTablesFile):
         _raise_on_hdf5_error(h5.filename)
 
 
+def _get_child_names(group) -> list[str]:
+    """
+    Get the names of all nodes in a pytables group.
+
+    Contrary to iterating the group, this raises rather than leaving out nodes
+    if they can't be read.
+    """
+    h5 = group._v_file
+    names = [x for kind in group._g_list_group(group._v_parent) for x in kind]
+    _raise_on_hdf5_error(h5.filename)
+    return names
+
+
 class _PyTablesWriteFile(PyTablesFile):
     """A pytables file which raises if data can't be written when closing."""
 
@@ -449,14 +463,12 @@ class HDFPatchIndexManager:
     @property
     def has_index(self) -> bool:
         """Return True if an index table has been written."""
-        expected_node = "/".join([self.namespace, "metadata"])
         with open_hdf5_file(self.path) as h5:
             try:
-                h5.get_node(expected_node)
+                group = h5.get_node(self.namespace or "/")
             except NoSuchNodeError:
                 return False
-            else:
-                return True
+            return "metadata" in _get_child_names(group)
 
     @property
     def _version_or_none(self) -> str | None:
-- 
2.43.0


From 832a9b93b5eb43579b037ff6e21b9d96c5ea4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 24/37] fix: refuse to write SEGY files whose header values
 would overflow

A time step (or number of samples) too large for the 16 bit header fields
was silently wrapped, resulting in a file which couldn't be read.
---
 dascore/io/segy/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dascore/io/segy/utils.py b/dascore/io/segy/utils.py
index 30c06ad..97259ad 100644
--- a/dascore/io/segy/utils.py
+++ b/dascore/io/segy/utils.py
@@ -16,6 +16,8 @@ from dascore.core import get_coord_manager
 from dascore.exceptions import InvalidSpoolError, PatchError
 from dascore.utils.misc import optional_import
 
+# The largest value of the (signed) 16 bit integers in segy headers.
+_MAX_INT16 = 32_767
 
 def twos_comp(bytes_):
     """Get twos complement of bytestring."""
@@ -209,6 +211,14 @@ def _get_segy_compatible_patch(spool, round_error_max=3e-9):
             "patch.update_coords or resample the time axis with patch.resample"
         )
         raise PatchError(msg)
+    # The sample interval and count are saved as 16 bit integers.
+    step_us = np.round(np.max(new_samp) * 1_000_000)
+    if max(step_us, len(patch.get_coord("time"))) > _MAX_INT16:
+        msg = (
+            f"The segy format only supports up to {_MAX_INT16} samples and a time "
+            f"step of up to {_MAX_INT16} us."
+        )
+        raise PatchError(msg)
     return patch.transpose("channel", "time")
 
 
-- 
2.43.0


From b2403f950c8d4b450219859584868dd5affe7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 25/37] fix: don't drop DASHDF5 attributes when reading them
 fails

---
 dascore/io/dashdf5/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dascore/io/dashdf5/utils.py b/dascore/io/dashdf5/utils.py
index f8220e8..69215c6 100644
--- a/dascore/io/dashdf5/utils.py
+++ b/dascore/io/dashdf5/utils.py
@@ -82,7 +82,10 @@ def _get_cf_attrs(hdf_fi, coords=None, extras=None):
     for n1, n2 in _ROOT_ATTR_MAPPING.items():
         out[n1] = hdf_fi.attrs.get(n2)
     for n1, n2 in _DAS_ATTR_MAPPING.items():
-        out[n1] = getattr(hdf_fi.get("das", {}), "attrs", {}).get(n2)
+        das = hdf_fi["das"].attrs
+        out[n1] = das[n2] if n2 in das else None
     for n1, n2 in _CRS_MAPPING.items():
-        out[n1] = getattr(hdf_fi.get("crs", {}), "attrs", {}).get(n2)
+        # note: don't use get here; it returns the default if reading fails.
+        crs = hdf_fi["crs"].attrs if "crs" in hdf_fi else {}
+        out[n1] = crs[n2] if n2 in crs else None
     return dc.PatchAttrs(**out)
-- 
2.43.0


From 0d2e384c9909270b17adb7b9468fe56b1380dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 26/37] fix: load files of formats without a version from
 directory spools

Replacing empty strings with None doesn't work for string columns; they
become NaN, which was then used as the version of, for example, PICKLE files.
---
 dascore/clients/dirspool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index a0eab0e..0532964 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -118,7 +118,9 @@ class DirectorySpool(DataFrameSpool):
 
         This is significantly faster than iterating rows.
         """
-        df = df.copy(deep=False).replace("", None)
+        # note: only object columns can hold None rather than NaN.
+        str_cols = df.select_dtypes("string").columns
+        df = df.astype(dict.fromkeys(str_cols, object)).replace("", None)
         # note: need to add extra / here since we no longer store it in db.
         df["path"] = (str(self.spool_path) + "/") + df["path"]
         return super()._df_to_dict_list(df)
-- 
2.43.0


From ad73f25588630ca8c540356be152f99d850b0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 27/37] fix: load the right, fully selected, patch for modified
 spool rows

- Formats which ignore the requested range (PICKLE) return all patches of the
  file, and the first one rather than the one described by the row was used.
- Selections on coordinates missing from the contents dataframe were not
  applied to chunks.
- get_contents raised if such a selection was made.
---
 dascore/core/spool.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index f49148d..a0705a3 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -109,11 +109,21 @@ def _estimate_merge_samples(df, dim) -> int | None:
 
 
 def _is_described_by(patch, kwargs) -> bool:
-    """Return True if the patch has the coordinate ranges and str attrs in kwargs."""
+    """
+    Return True if the patch has the coordinate ranges and str attrs in kwargs.
+
+    If the ranges have been modified they only need to overlap.
+    """
     for name, value in kwargs.items():
         if name in patch.coords.coord_map:
             coord = patch.get_coord(name)
-            if [coord.min(), coord.max()] != list(value):
+            start, stop = coord.min(), coord.max()
+            if kwargs.get("_modified"):
+                # An empty range (between two samples) can have min > max.
+                limits = sorted(x for x in value if not pd.isnull(x))
+                if limits and (stop < limits[0] or start > limits[-1]):
+                    return False
+            elif [start, stop] != list(value):
                 return False
             continue
         attr = patch.attrs.get(name)
@@ -575,7 +585,7 @@ class DataFrameSpool(BaseSpool):
         if kwargs.get("_modified"):
             select_kwargs = {
                 i: v
-                for i, v in kwargs.items()
+                for i, v in {**self._select_kwargs, **kwargs}.items()
                 if i in patch.dims or i in patch.coords.coord_map
             }
         else:
@@ -699,12 +709,15 @@ class DataFrameSpool(BaseSpool):
 
         If a file has several patches which overlap in the requested range all
         of them are read, and trimmed to it, so the whole patches are needed to
-        find the right one.
+        find the right one. Formats which don't support reading parts of a file
+        return all its patches.
         """
-        if len(patches) > 1 and not kwargs.get("_modified"):
-            names = set().union(*(x.coords.coord_map for x in patches))
-            no_ranges = {i: v for i, v in kwargs.items() if i not in names}
-            whole = dc.read(**no_ranges)
+        if len(patches) > 1:
+            whole = patches
+            if not kwargs.get("_modified"):
+                names = set().union(*(x.coords.coord_map for x in patches))
+                no_ranges = {i: v for i, v in kwargs.items() if i not in names}
+                whole = dc.read(**no_ranges)
             patches = [x for x in whole if _is_described_by(x, kwargs)] or patches
         return patches[0]
 
@@ -838,7 +851,7 @@ class DataFrameSpool(BaseSpool):
     @compose_docstring(doc=BaseSpool.get_contents.__doc__)
     def get_contents(self) -> pd.DataFrame:
         """{doc}."""
-        return self._df[filter_df(self._df, **self._select_kwargs)]
+        return self._df[filter_df(self._df, ignore_bad_kwargs=True, **self._select_kwargs)]
 
     get_patch_names = get_patch_names
 
-- 
2.43.0


From 749c78775651352c6ff8178297a51cc40108ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 28/37] fix: format detection no longer depends on plugin
 loading order, hash seed, threads or interrupts

The order in which formats were tried came from a set of names and from the
order plugins happened to be loaded, FiberIOs registered after the first
detection were never tried, formats of which one version was registered never
loaded their other versions, and a FiberIO was registered before its methods
were ready to use.
---
 dascore/io/core.py | 147 ++++++++++++++++++++++++---------------------
 1 file changed, 77 insertions(+), 70 deletions(-)

diff --git a/dascore/io/core.py b/dascore/io/core.py
index ac55be9..99bd174 100644
--- a/dascore/io/core.py
+++ b/dascore/io/core.py
@@ -7,10 +7,11 @@ from __future__ import annotations
 
 import inspect
 import os.path
+import threading
 import warnings
 from collections import defaultdict
 from collections.abc import Generator
-from functools import cache, cached_property, wraps
+from functools import cached_property, wraps
 from pathlib import Path
 from typing import Annotated, Literal, get_type_hints
 
@@ -38,7 +39,7 @@ from dascore.exceptions import (
 )
 from dascore.utils.io import IOResourceManager, get_handle_from_resource
 from dascore.utils.mapping import FrozenDict
-from dascore.utils.misc import _iter_filesystem, cached_method, iterate, warn_or_raise
+from dascore.utils.misc import _iter_filesystem, iterate, warn_or_raise
 from dascore.utils.models import (
     CommaSeparatedStr,
     DascoreBaseModel,
@@ -99,6 +100,10 @@ class PatchFileSummary(DascoreBaseModel):
         return self.model_dump()
 
 
+# Plugins can be loaded, and FiberIOs registered, from several threads.
+_MANAGER_LOCK = threading.RLock()
+
+
 class _FiberIOManager:
     """
     A structure for intelligently storing, loading, and return FiberIO objects.
@@ -108,13 +113,15 @@ class _FiberIOManager:
 
     def __init__(self, entry_point: str):
         self._entry_point = entry_point
+        # Names of the entry points which were loaded, or failed to load.
         self._loaded_eps: set[str] = set()
-        self._failed_formats: set[str] = set()
         self._format_version = defaultdict(dict)
         self._extension_list = defaultdict(list)
         # This is a dict of {input_type: (fiberio_name, version)}
         self._fiber_io_by_input_type = defaultdict(set)
         self._fiber_io_name_ver = set()
+        # Cache of prioritized lists, reset each time a FiberIO is registered.
+        self._prioritized = {}
 
     @cached_property
     def _eps(self):
@@ -124,95 +131,90 @@ class _FiberIOManager:
         """
         return pd.Series(get_entry_point_loaders("dascore.fiber_io"))
 
-    @cached_property
+    @property
     def known_formats(self):
         """Return names of known formats."""
         formats = [name.split("__", maxsplit=1)[0] for name in self._eps.index]
-        return set(formats) | set(self._format_version)
+        with _MANAGER_LOCK:
+            return set(formats) | set(self._format_version)
 
     @property
     def unloaded_formats(self):
-        """Return names of known formats."""
-        loaded_or_failed = set(self._format_version) | self._failed_formats
-        return sorted(self.known_formats - loaded_or_failed)
+        """Return names of formats with plugins that are not yet loaded."""
+        with _MANAGER_LOCK:
+            unloaded = [x for x in self._eps.index if x not in self._loaded_eps]
+        return sorted({name.split("__", maxsplit=1)[0] for name in unloaded})
 
-    @cached_method
     def _get_fiber_io_by_input_type(self, input_type) -> set[FiberIO]:
         """Get a set of FiberIO instances that meet input type."""
-        if input_type not in self._fiber_io_by_input_type:
+        with _MANAGER_LOCK:
+            if input_type in self._fiber_io_by_input_type:
+                return set(self._fiber_io_by_input_type[input_type])
             out = set()
             for input_set in self._fiber_io_by_input_type.values():
                 out |= input_set
-        else:
-            out = self._fiber_io_by_input_type[input_type]
         return out
 
-    @cache
     def _get_prioritized_list(self, input_type="file"):
-        """Yield a prioritized list of fiber_ios."""
+        """Return a prioritized tuple of fiber_ios, sorted by format name."""
         # must load all plugins before getting list
         self.load_plugins()
-        priority_fiber_ios = []
-        second_class_fiber_ios = []
-        for format_name in self.known_formats:
-            unsorted = self._format_version[format_name]
-            keys = sorted(unsorted, reverse=True)
-            # formats whose plugins failed to load have no fiber_ios.
-            if not keys:
-                continue
-            fiber_ios = [unsorted[key] for key in keys]
-            priority_fiber_ios.append(fiber_ios[0])
-            if len(fiber_ios) > 1:
+        with _MANAGER_LOCK:
+            if (out := self._prioritized.get(input_type)) is not None:
+                return out
+            priority_fiber_ios = []
+            second_class_fiber_ios = []
+            for format_name in sorted(self._format_version):
+                unsorted = self._format_version[format_name]
+                keys = sorted(unsorted, reverse=True)
+                fiber_ios = [unsorted[key] for key in keys]
+                priority_fiber_ios.extend(fiber_ios[:1])
                 second_class_fiber_ios.extend(fiber_ios[1:])
-        maybe_ios = priority_fiber_ios + second_class_fiber_ios
-        # Now filter to input_type
-        valid_fiberio_by_type = self._get_fiber_io_by_input_type(input_type)
-        out = tuple(x for x in maybe_ios if x in valid_fiberio_by_type)
-        # And return fiberIOs that much the input type.
+            maybe_ios = priority_fiber_ios + second_class_fiber_ios
+            # Now filter to input_type
+            valid_fiberio_by_type = self._get_fiber_io_by_input_type(input_type)
+            out = tuple(x for x in maybe_ios if x in valid_fiberio_by_type)
+            # And return fiberIOs that much the input type.
+            self._prioritized[input_type] = out
         return out
 
-    @cached_method
     def load_plugins(self, format: str | None = None):
         """Load plugin for specific format or ensure all formats are loaded."""
-        if format is not None and format in self._format_version:
-            return  # already loaded
-        if not (unloaded := self.unloaded_formats):
-            return
-        formats = {format} if format is not None else unloaded
-        # Load one, or all, formats
-        for form in formats:
-            entries = [name for name in self._eps.index if name.startswith(form)]
-            for name, eps in self._eps.loc[entries].items():
-                try:
-                    self.register_fiberio(eps()())
-                except Exception as e:
-                    msg = (
-                        f"Failed to load FiberIO plugin '{name}' "
-                        f"({e.__class__.__name__}: {e}); skipping it. "
-                        "This can happen when an entry point from a previous "
-                        "install is stale; reinstalling dascore (or the "
-                        "package providing the plugin) may fix it."
-                    )
-                    warnings.warn(msg, UserWarning, stacklevel=2)
-            if form not in self._format_version:
-                self._failed_formats.add(form)
-        # The selected format(s) should now be loaded
-        assert set(formats).isdisjoint(self.unloaded_formats)
+        with _MANAGER_LOCK:
+            names = [x for x in self._eps.index if x not in self._loaded_eps]
+        if format is not None:
+            names = [x for x in names if x.startswith(format)]
+        # The lock can't be held here: importing acquires other locks.
+        for name in names:
+            try:
+                self.register_fiberio(self._eps[name]()())
+            except Exception as e:
+                msg = (
+                    f"Failed to load FiberIO plugin '{name}' "
+                    f"({e.__class__.__name__}: {e}); skipping it. "
+                    "This can happen when an entry point from a previous "
+                    "install is stale; reinstalling dascore (or the "
+                    "package providing the plugin) may fix it."
+                )
+                warnings.warn(msg, UserWarning, stacklevel=2)
+            self._loaded_eps.add(name)
 
     def register_fiberio(self, fiberio: FiberIO):
         """Register a new fiber IO to manage."""
         forma, ver = fiberio.name.upper(), fiberio.version
         id_tuple = (forma, ver)
-        if id_tuple in self._fiber_io_name_ver:
-            return
-        self._loaded_eps.add(fiberio.name)
-        for ext in iter(fiberio.preferred_extensions):
-            self._extension_list[ext].append(fiberio)
-        self._format_version[forma][ver] = fiberio
-        self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
-        self._fiber_io_name_ver.add(id_tuple)
-
-    @cached_method
+        with _MANAGER_LOCK:
+            if id_tuple in self._fiber_io_name_ver:
+                return
+            self._prioritized.clear()
+            # An earlier registration may have been interrupted part way.
+            fiberio = self._format_version[forma].setdefault(ver, fiberio)
+            for ext in iter(fiberio.preferred_extensions):
+                if fiberio not in self._extension_list[ext]:
+                    self._extension_list[ext].append(fiberio)
+            self._fiber_io_by_input_type[fiberio.input_type].add(fiberio)
+            self._fiber_io_name_ver.add(id_tuple)
+
     def get_fiberio(
         self,
         *,
@@ -325,8 +327,13 @@ class _FiberIOManager:
         """Generator to get fiber_io prioritized by preferred extensions."""
         has_yielded = set()
         self.load_plugins()
-        potential_fiberios = self._get_fiber_io_by_input_type(input_type)
-        for fiber_io in self._extension_list[extension]:
+        with _MANAGER_LOCK:
+            potential_fiberios = self._get_fiber_io_by_input_type(input_type)
+            fiber_ios = list(self._extension_list.get(extension, ()))
+        # The order must not depend on the order plugins were loaded.
+        fiber_ios.sort(key=lambda x: x.version, reverse=True)
+        fiber_ios.sort(key=lambda x: x.name.upper())
+        for fiber_io in fiber_ios:
             if fiber_io in potential_fiberios:
                 yield fiber_io
             has_yielded.add(fiber_io)
@@ -587,9 +594,6 @@ class FiberIO:
         if not cls.name:
             msg = "You must specify the file format with the name field."
             raise InvalidFiberIOError(msg)
-        # register fiber_io
-        manager: _FiberIOManager = cls.__mro__[1].manager
-        manager.register_fiberio(cls())
         # decorate methods for type-casting
         for name, param_ind in cls._automatic_type_casters.items():
             method = getattr(cls, name)
@@ -598,6 +602,9 @@ class FiberIO:
             required_type = get_type_hints(method).get(arg_name)
             method_wrapped = _type_caster(method, sig, required_type, arg_name)
             setattr(cls, name, method_wrapped)
+        # register fiber_io, only once it can be used.
+        manager: _FiberIOManager = cls.__mro__[1].manager
+        manager.register_fiberio(cls())
 
 
 def read(
-- 
2.43.0


From a07da403444e3a23cabb7b2a7603b2a7e47d693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 29/37] fix: a slice or selection of a chunked spool repeated
 samples

Several chunks can use the same source row; selecting the rows by the
instructions repeated them, and chunks made of several sources then
contained the samples of each repetition.
---
 dascore/core/spool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index a0705a3..0a1a9f7 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -486,7 +486,8 @@ class DataFrameSpool(BaseSpool):
             new_df = self._df.iloc[item]
             inst, source = self._instruction_df, self._source_df
             new_inst = inst[inst["current_index"].isin(new_df.index)]
-            new_source = source.loc[new_inst.index]
+            # Several instructions can use the same source row.
+            new_source = source.loc[new_inst.index.unique()]
             out = self.new_from_df(
                 df=new_df,
                 instruction_df=new_inst,
@@ -790,7 +791,7 @@ class DataFrameSpool(BaseSpool):
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
         source = adjust_segments(
-            self._source_df.loc[inst.index], ignore_bad_kwargs=True, **kwargs
+            self._source_df.loc[inst.index.unique()], ignore_bad_kwargs=True, **kwargs
         )
         out = self.new_from_df(
             filtered_df,
-- 
2.43.0


From 4b1e65084751ac7d47b5790d7abae8838482e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 30/37] fix: spool.map failed for callables without a name,
 unknown processor count

Also refuse split sizes below one rather than yielding empty spools forever.
---
 dascore/core/spool.py |  3 +++
 dascore/utils/misc.py | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 0a1a9f7..ebe5595 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -844,6 +844,9 @@ class DataFrameSpool(BaseSpool):
             msg = "Spool.split requires either spool_count or spool_size."
             raise ParameterError(msg)
         start = 0
+        if (count if size is None else size) <= 0:
+            msg = "Spool.split requires a positive size or count."
+            raise ParameterError(msg)
         step = int(np.ceil(len(self) / count if count else size))
         while start < len(self):
             yield self[start : start + step]
diff --git a/dascore/utils/misc.py b/dascore/utils/misc.py
index db638be..9babecd 100644
--- a/dascore/utils/misc.py
+++ b/dascore/utils/misc.py
@@ -503,6 +503,12 @@ def cached_method(func):
     return wrapper
 
 
+def _get_map_description(func):
+    """Get the label of the progress bar; not all callables have a name."""
+    name = getattr(func, "__name__", func.__class__.__name__)
+    return f"Applying {name} to spool"
+
+
 class _MapFuncWrapper:
     """A class for unwrapping spools to base applies."""
 
@@ -517,7 +523,7 @@ class _MapFuncWrapper:
         # to the first spool. This way only the first spool displays the
         # the progress bar. A huge hack, maybe there is a better way? See #265.
         if not getattr(spool, "_no_progress", False):
-            desc = f"Applying {self._func.__name__} to spool"
+            desc = _get_map_description(self._func)
             iterable = track(spool, desc) if self._progress else spool
         return [self._func(x, **self._kwargs) for x in iterable]
 
@@ -540,14 +546,15 @@ def _spool_map(spool, func, size=None, client=None, progress=True, **kwargs):
         Keywords passed to func.
     """
     # no client; simple for loop.
-    desc = f"Applying {func.__name__} to spool"
+    desc = _get_map_description(func)
     if client is None:
         iterable = track(spool, desc) if progress else spool
         return [func(patch, **kwargs) for patch in iterable]
     # Now things get interesting. We need to split the spool here
     # so that patches don't get serialized.
     if size is None:
-        size = len(spool) / os.cpu_count()
+        # The number of processors can't always be determined.
+        size = max(len(spool) / (os.cpu_count() or 1), 1)
     spools = list(spool.split(size=size))
     # this is a hack to get the progress bar to work. Essentially, we just
     # add a secret flag to all but one spool so that progress bar is only
-- 
2.43.0


From cfde85e49049d66e4a6cfcb792bc466620f08d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 31/37] fix: a failed read of a directory index was reported as
 empty or raised at once

Pandas and PyTables return nothing or an empty table for some read errors.
Loading the small index file as a whole reports them, so queries retry.
---
 dascore/io/indexer.py |  1 +
 dascore/utils/hdf5.py | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 35c3015..28035b9 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -130,6 +130,7 @@ class DirectoryIndexer(AbstractIndexer):
         self._index_table = HDFPatchIndexManager(
             self.index_path,
             self._namespace,
+            in_memory=True,
         )
         self.cache = pd.DataFrame(
             index=range(cache_size), columns="t1 t2 kwargs cindex".split()
diff --git a/dascore/utils/hdf5.py b/dascore/utils/hdf5.py
index eeff581..33f56df 100644
--- a/dascore/utils/hdf5.py
+++ b/dascore/utils/hdf5.py
@@ -214,6 +214,16 @@ class HDFPatchIndexManager:
 
     It creates a table of patch summary info, a table of metadata and a time
     stamp of the last time it was updated.
+
+    Parameters
+    ----------
+    path
+        The path to the hdf5 file, or an open file.
+    namespace
+        The group the tables are stored in.
+    in_memory
+        If True, load the whole file to query it. Use only if the file has
+        nothing but the index.
     """
 
     _complib = "blosc"
@@ -252,9 +262,10 @@ class HDFPatchIndexManager:
     # max number of retries for closed node files
     _max_retries = 10
 
-    def __init__(self, path, namespace=""):
+    def __init__(self, path, namespace="", in_memory=False):
         super().__init__()
         self.namespace = namespace
+        self.in_memory = in_memory
         self.path = path
 
     @property
@@ -316,7 +327,11 @@ class HDFPatchIndexManager:
 
         def _get_index(where, fail_counts=0, **kwargs):
             try:
-                df = pd.read_hdf(self.path, self._index_node, where=where, **kwargs)
+                df = pd.read_hdf(
+                    self.path, self._index_node, where=where, **open_kwargs, **kwargs
+                )
+                if df is None:  # pandas doesn't raise if the table is unreadable.
+                    raise OSError(f"Failed to read index from {self.path}")
             except (ClosedNodeError, Exception) as e:
                 # Sometimes in concurrent updates the nodes need time to open/close
                 # so we implement a simply "wait and retry" strategy.
@@ -328,6 +343,11 @@ class HDFPatchIndexManager:
             else:
                 return df
 
+        open_kwargs = {}
+        if self.in_memory:
+            # Pandas and PyTables don't report all errors of reading parts of a
+            # table, but do if the whole file can't be read when opening it.
+            open_kwargs = dict(driver="H5FD_CORE", driver_core_backing_store=0)
         time_min, time_max = get_max_min_times((time_min, time_max))
         # An unrestricted query must also return rows without times (NaT).
         where = None
-- 
2.43.0


From a1dc8b9bf362c78d6837e1a60b4dff3cfa4024f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 32/37] fix: recorded index locations could be lost by
 concurrent, interrupted or damaged writes

---
 dascore/io/indexer.py | 97 ++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 29 deletions(-)

diff --git a/dascore/io/indexer.py b/dascore/io/indexer.py
index 28035b9..d87ebb9 100644
--- a/dascore/io/indexer.py
+++ b/dascore/io/indexer.py
@@ -3,13 +3,13 @@
 from __future__ import annotations
 
 import abc
+import errno
 import json
 import os
 import time
 import uuid
 import warnings
-from contextlib import suppress
-from functools import cache
+from contextlib import contextmanager, suppress
 from pathlib import Path
 
 import pandas as pd
@@ -25,43 +25,76 @@ from dascore.utils.misc import iterate
 from dascore.utils.pd import filter_df
 from dascore.utils.time import get_max_min_times, to_timedelta64
 
+try:
+    import fcntl
+except ImportError:  # not available on windows
+    fcntl = None
+
 # supported read_hdf5 kwargs
 READ_HDF5_KWARGS = frozenset(
     {"columns", "where", "mode", "errors", "start", "stop", "key", "chunksize"}
 )
 
 
-@cache
+@contextmanager
+def _lock_index_map(cache_path):
+    """Keep other processes and threads from changing the map (if supported)."""
+    path = Path(cache_path)
+    path.parent.mkdir(exist_ok=True, parents=True)
+    if fcntl is None:
+        yield
+        return
+    with path.with_name(f"{path.name}.lock").open("a") as fi:
+        with suppress(OSError):  # Some file systems don't support locking.
+            fcntl.flock(fi, fcntl.LOCK_EX)
+        yield
+
+
+def _read_index_map(cache_path) -> dict | None:
+    """Read the dict of index locations, return None if its file is corrupt."""
+    try:
+        out = json.loads(Path(cache_path).read_bytes())
+    except FileNotFoundError:
+        return {}
+    # On rare occasions, the file can become corrupt. See #508.
+    except ValueError:
+        return None
+    if not isinstance(out, dict):
+        return None
+    return {i: v for i, v in out.items() if isinstance(v, str)}
+
+
 def _get_index_map(cache_path) -> dict:
+    """Get a dict of index locations, remove its file if it is corrupt."""
+    try:
+        out = _read_index_map(cache_path)
+        if out is None:
+            with _lock_index_map(cache_path):
+                # Another process might have replaced the file by now.
+                out = _read_index_map(cache_path)
+                if out is None:
+                    Path(cache_path).unlink(missing_ok=True)
+    except OSError:  # The file exists but can't be accessed.
+        out = None
+    return out or {}
+
+
+def _update_index_map(updates, cache_path) -> dict:
     """
-    Get a dict of index locations.
+    Update index map to track new index.
 
-    Note: this is purposefully mutable; handle with care.
+    The map is shared by all processes of the user. Hence it has to be read
+    again, and replaced as a whole so it is never seen partially written.
     """
     path = Path(cache_path)
-    out = {}
-    successful_read = True
-    if path.exists():
+    with _lock_index_map(path):
+        data = (_read_index_map(path) or {}) | updates
+        temp_path = path.with_name(f"{path.name}_{uuid.uuid4().hex}.tmp")
         try:
-            with path.open("r") as fi:
-                out = json.load(fi)
-        # On rare occasions, the file can become corrupt. See #508.
-        except (OSError, json.JSONDecodeError):
-            successful_read = False
-    if not isinstance(out, dict) or not successful_read:
-        out = {}
-        with suppress(FileNotFoundError, PermissionError):
-            path.unlink(missing_ok=True)
-    return out
-
-
-def _update_index_map(updates, cache_path) -> dict:
-    """Update index map to track new index."""
-    data = _get_index_map(cache_path=cache_path)
-    data.update(updates)
-    Path(cache_path).parent.mkdir(exist_ok=True, parents=True)
-    with open(cache_path, "w") as fi:
-        json.dump(data, fi)
+            temp_path.write_text(json.dumps(data))
+            os.replace(temp_path, path)
+        finally:
+            temp_path.unlink(missing_ok=True)
     return data
 
 
@@ -74,7 +107,12 @@ def _directory_writable(path):
         open(path, "w").close()
     except (PermissionError, IsADirectoryError):
         return False
-    else:
+    except OSError as e:
+        if e.errno == errno.EROFS:
+            return False
+        raise
+    # Another process could be checking the same directory.
+    with suppress(FileNotFoundError):
         os.remove(path)
     return True
 
@@ -141,7 +179,8 @@ class DirectoryIndexer(AbstractIndexer):
         data_path = Path(data_path).absolute()
         # user specified index path
         if index_path:
-            update = {str(data_path): str(Path(index_path).absolute())}
+            index_path = Path(index_path).absolute()
+            update = {str(data_path): str(index_path)}
             _update_index_map(update, cache_path=str(self.index_map_path))
             return index_path
         # see if expected path is in data path
-- 
2.43.0


From 32143c8198174d79c8a86162da88d0fc80dc4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 33/37] fix: unpickled and deep-copied patches and coordinates
 were writable, contents of a directory spool were shared

---
 dascore/clients/dirspool.py |  3 ++-
 dascore/core/patch.py       |  5 +++++
 dascore/utils/models.py     | 19 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/dascore/clients/dirspool.py b/dascore/clients/dirspool.py
index 0532964..54b44d8 100644
--- a/dascore/clients/dirspool.py
+++ b/dascore/clients/dirspool.py
@@ -100,7 +100,8 @@ class DirectorySpool(DataFrameSpool):
     @compose_docstring(doc=BaseSpool.get_contents.__doc__)
     def get_contents(self) -> pd.DataFrame:
         """{doc}."""
-        return self._df
+        # A copy is needed so changes made to it don't change the spool.
+        return self._df.copy()
 
     @compose_docstring(doc=BaseSpool.update.__doc__)
     def update(self, progress: PROGRESS_LEVELS = "standard") -> Self:
diff --git a/dascore/core/patch.py b/dascore/core/patch.py
index 360db1a..969cd8c 100644
--- a/dascore/core/patch.py
+++ b/dascore/core/patch.py
@@ -185,6 +185,11 @@ class Patch(NamespaceOwner):
         new._data = array(coords.validate_data(data))
         return new
 
+    def __setstate__(self, state):
+        """Restore a pickled or copied patch, its data are read-only again."""
+        self.__dict__.update(state)
+        self._data = array(self._data)
+
     _namespace_entry_point_group = "dascore.patch_namespace"
 
     def __eq__(self, other):
diff --git a/dascore/utils/models.py b/dascore/utils/models.py
index 68f4a88..1d99139 100644
--- a/dascore/utils/models.py
+++ b/dascore/utils/models.py
@@ -11,7 +11,7 @@ import pandas as pd
 from pydantic import BaseModel, ConfigDict, PlainSerializer, PlainValidator
 from typing_extensions import Self
 
-from dascore.compat import array, is_array_like
+from dascore.compat import array, is_array, is_array_like
 from dascore.units import Quantity, get_quantity, get_quantity_str
 from dascore.utils.mapping import FrozenDict
 from dascore.utils.misc import _all_null, all_close, to_str, unbyte
@@ -105,6 +105,23 @@ class DascoreBaseModel(BaseModel):
         out.update(kwargs)
         return self.__class__(**out)
 
+    def _reset_copied_state(self):
+        """Make arrays of a new copy read-only and forget its cached values."""
+        for value in self.__dict__.values():
+            if is_array(value):
+                array(value)
+        # Keys of cached values are not valid in other processes.
+        self._cache = {}
+
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        self._reset_copied_state()
+
+    def __deepcopy__(self, memo=None):
+        out = super().__deepcopy__(memo)
+        out._reset_copied_state()
+        return out
+
     @classmethod
     def get_summary_df(cls):
         """Get dataframe of attributes and descriptions for display."""
-- 
2.43.0


From 86ba955de7376c7c232975a0f309d10f4d721902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 34/37] fix: a memory spool created from a dataframe changed
 with it

---
 dascore/core/spool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index ebe5595..96eea84 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -883,7 +883,8 @@ class MemorySpool(DataFrameSpool):
             ):
                 self._patches = tuple(data)
             else:  # eg a spool or dataframe; needs the dataframe machinery.
-                self._data = data
+                # The dataframe might be changed before it is needed.
+                self._data = data.copy() if isinstance(data, pd.DataFrame) else data
 
     def _get_df(self):
         """Build the managing dataframes from the input patches."""
-- 
2.43.0


From 58017a777856080d95e590b66fabac2f5ddb463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 35/37] fix: the wacky_dim_coords_patch example differed with
 every call

---
 dascore/examples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dascore/examples.py b/dascore/examples.py
index 7fba020..f096da4 100644
--- a/dascore/examples.py
+++ b/dascore/examples.py
@@ -12,7 +12,6 @@ import pandas as pd
 
 import dascore as dc
 import dascore.core
-from dascore.compat import random_state
 from dascore.exceptions import UnknownExampleError
 from dascore.utils.docs import compose_docstring
 from dascore.utils.downloader import fetch
@@ -177,10 +176,12 @@ def wacky_dim_coord_patch():
     A patch with one Monotonic and one Array coord.
     """
     shape = (100, 1_000)
+    # a local generator, so the patch doesn't depend on previous calls.
+    rand = np.random.RandomState(42)
     # distance is neither monotonic nor evenly sampled.
-    dist_ar = random_state.random(100) + np.arange(100) * 0.3
+    dist_ar = rand.random(100) + np.arange(100) * 0.3
     # time is monotonic, not evenly sampled.
-    time_ar = dc.to_datetime64(np.cumsum(random_state.random(1_000)))
+    time_ar = dc.to_datetime64(np.cumsum(rand.random(1_000)))
     patch = random_patch(shape=shape, dist_array=dist_ar, time_array=time_ar)
     # check attrs
     attrs = patch.attrs
-- 
2.43.0


From b2e173a47b56af3d701caab84f544abacc6ecc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:40 +0000
Subject: [PATCH 36/37] fix: an interrupt while a file was opened could leave
 it open for the rest of the process

---
 dascore/utils/io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dascore/utils/io.py b/dascore/utils/io.py
index 96035a2..449ca0a 100644
--- a/dascore/utils/io.py
+++ b/dascore/utils/io.py
@@ -105,10 +105,12 @@ def get_handle_from_resource(uri, required_type):
     return uri if required type is not specified or supported in either
     handle function or has a `get_handle` method.
     """
+    # Note: a new handle is returned directly so an interrupt (eg
+    # KeyboardInterrupt) can't occur while only this function knows about it.
     if hasattr(required_type, "get_handle"):
-        uri = required_type.get_handle(uri)
+        return required_type.get_handle(uri)
     elif required_type in HANDLE_FUNCTIONS:
-        uri = HANDLE_FUNCTIONS[required_type](uri)
+        return HANDLE_FUNCTIONS[required_type](uri)
     return uri
 
 
@@ -142,8 +144,9 @@ class IOResourceManager:
             return self._source.get_resource(required_type)
         required_type = _get_required_type(required_type)
         if required_type not in self._cache:
-            out = get_handle_from_resource(self._source, required_type)
-            self._cache[required_type] = out
+            self._cache[required_type] = get_handle_from_resource(
+                self._source, required_type
+            )
         return self._cache[required_type]
 
     def close_all(self):
-- 
2.43.0


From f241e44f3066eb65d38f5d873921e1839968b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 37/37] fix: chunk with a conflict option lost metadata
 columns, selecting from the result failed

---
 dascore/core/spool.py  |  9 ++++++---
 dascore/utils/chunk.py | 10 ++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/dascore/core/spool.py b/dascore/core/spool.py
index 96eea84..512d6e4 100644
--- a/dascore/core/spool.py
+++ b/dascore/core/spool.py
@@ -790,9 +790,12 @@ class DataFrameSpool(BaseSpool):
             ignore_bad_kwargs=True,
             **kwargs,
         ).loc[lambda x: x["current_index"].isin(filtered_df.index)]
-        source = adjust_segments(
-            self._source_df.loc[inst.index.unique()], ignore_bad_kwargs=True, **kwargs
-        )
+        needed = self._source_df.loc[inst.index.unique()]
+        source = adjust_segments(needed, ignore_bad_kwargs=True, **kwargs)
+        # A source can be part of a selected patch without matching on its own.
+        other = needed.index.difference(source.index)
+        if len(other):
+            source = pd.concat([source, needed.loc[other]])
         out = self.new_from_df(
             filtered_df,
             # Drop rows that are no longer needed.
diff --git a/dascore/utils/chunk.py b/dascore/utils/chunk.py
index 25ad36f..9ac3e1a 100644
--- a/dascore/utils/chunk.py
+++ b/dascore/utils/chunk.py
@@ -294,11 +294,13 @@ class ChunkManager:
         # We exclude private columns for considering if merge can happen.
         for col in set(x for x in merger.columns if not x.startswith("_")):
             prefix = col.split("_")[0]
-            # If we have specified to ignore or remove conflicting attrs
-            # we don't need to check them here, but we do still check dims.
-            if self._attr_conflict != "raise" and prefix not in dims:
-                continue
             vals = merger[col].unique()
+            # If we have specified to ignore or remove conflicting attrs only
+            # the dims have to be equal.
+            if len(vals) > 1 and self._attr_conflict != "raise" and prefix not in dims:
+                if self._attr_conflict == "drop":
+                    continue
+                vals = vals[:1]
             if len(vals) > 1:
                 msg = (
                     f"Cannot merge on dim {self._name} because all values for "
-- 
2.43.0


From 1c00a1b9e9d57bb83bd4605bbbdaeb469461b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 01/62] fix: store and split the non-partitioned variables by
 the partitioning dimension, not the axis name

---
 zcollection/collection/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..d8a3d5b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -49,7 +49,7 @@ _LOGGER: logging.Logger = logging.getLogger(__name__)
 
 def _write_immutable_dataset(
     zds: dataset.Dataset,
-    axis: str,
+    dim: str,
     path: str,
     fs: fsspec.AbstractFileSystem,
     synchronizer: sync.Sync,
@@ -58,11 +58,11 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        dim: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
-    immutable_dataset = zds.select_variables_by_dims((axis, ), predicate=False)
+    immutable_dataset = zds.select_variables_by_dims((dim, ), predicate=False)
     assert len(immutable_dataset.variables) != 0, (
         'The dataset to insert does not contain any variable '
         'that is not split.')
@@ -379,11 +379,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From 488ab6a80145d6b12e282cdc225619db71a61c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:56 +0000
Subject: [PATCH 02/62] fix: refuse in-memory datasets whose partitioning keys
 are not sorted

---
 zcollection/partitioning/abc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..7767ee4 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -120,9 +120,14 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     """
     index: NDArray
     indices: NDArray
-
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    # The array is sorted if, and only if, the ranks of its elements are.
+    if not numpy.all(numpy.diff(inverse.reshape(-1)) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From 567d2413e43e252e4c4fbebad3ab31573a606290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 03/62] fix: check the partitioning keys before storing the
 non-partitioned variables

---
 zcollection/collection/__init__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d8a3d5b..cd1fc54 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -373,6 +373,16 @@ class Collection(ReadOnlyCollection):
         ds = ds.set_for_insertion(self.metadata)
         client: dask.distributed.Client = dask_utils.get_client()
 
+        # Split the dataset before writing anything: a dataset that cannot be
+        # partitioned must leave the collection unchanged.
+        partitions = tuple(
+            self.partitioning.split_dataset(ds, self.partition_properties.dim))
+
+        if npartitions is not None:
+            if npartitions < 1:
+                raise ValueError('The number of partitions must be positive')
+            npartitions = len(partitions) // npartitions + 1
+
         # If the dataset contains variables that should not be partitioned.
         if self._immutable is not None:
 
@@ -389,14 +399,6 @@ class Collection(ReadOnlyCollection):
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-        partitions = tuple(
-            self.partitioning.split_dataset(ds, self.partition_properties.dim))
-
-        if npartitions is not None:
-            if npartitions < 1:
-                raise ValueError('The number of partitions must be positive')
-            npartitions = len(partitions) // npartitions + 1
-
         scattered_ds: Any = client.scatter(ds)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
-- 
2.43.0


From 8a304fe9422cfc46d6590c584ebff555af5080cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 04/62] fix: keep the existing samples located one time unit
 after the merged period

---
 zcollection/merging/time_series.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..2a2cf51 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -53,11 +53,9 @@ def _merge_time_series(
     # The new piece is located before, but there is an overlap
     # between the two datasets.
     if relation.is_before_overlapping():
-        # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
-        # pylint: enable=comparison-with-callable
+            existing_axis > intersection.last)[0]  # type: ignore
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
 
@@ -79,10 +77,8 @@ def _merge_time_series(
     before: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(0, index[-1] + 1, None)})
 
-    # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
-    # pylint: enable=comparison-with-callable
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
 
-- 
2.43.0


From 7cc274342209457bbaa1620ebf6f05649d6b0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:04 +0000
Subject: [PATCH 05/62] fix: wait for the running tasks before releasing the
 synchronizer

---
 zcollection/storage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..67cb343 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -69,17 +69,17 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception (and releasing the resources), we
+            # wait until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
-- 
2.43.0


From 28a0da083e43c63d697e89887fb094b7be3cdce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:43 +0000
Subject: [PATCH 06/62] fix: parse the partition keys from the end of the path,
 whatever the base directory is called

---
 zcollection/collection/abc.py   | 4 ++--
 zcollection/partitioning/abc.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..d9bde0b 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -361,8 +361,8 @@ class ReadOnlyCollection:
 
         yield from (self._relative_path(item) if relative else item
                     for item in partitions
-                    if (item != self._immutable and self._is_selected(
-                        item.replace(base_dir, '').split(sep), expr)))
+                    if (item != self._immutable
+                        and self._is_selected(item.split(sep), expr)))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 7767ee4..bf5e9f0 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -265,7 +265,10 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        keys: str = r'[/\\]'.join(rf'({re.escape(item)})=(-?\d+)'
+                                  for item in self._keys())
+        # The partitioning scheme is spelled by the last elements of the path.
+        return re.compile(rf'(?:^|[/\\]){keys}[/\\]?$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From 504840985916151b59fe1d6881b4725e813c82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:38 +0000
Subject: [PATCH 07/62] fix: write partitions in a hidden directory of the
 collection and put them in place at once

---
 zcollection/collection/detail.py |  69 ++++---------
 zcollection/merging/__init__.py  | 170 +++++++++++++++++++++++++++----
 2 files changed, 168 insertions(+), 71 deletions(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..431e379 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -11,17 +11,15 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, Sequence, Tuple
 import dataclasses
 import sys
-import time
 import traceback
 import types
 
 import dask.utils
 import fsspec
-import zarr.storage
 
-from .. import dataset, merging, partitioning, sync
+from .. import dataset, merging, partitioning
 from ..fs_utils import join_path
-from ..storage import open_zarr_group, update_zarr_array, write_zarr_group
+from ..storage import open_zarr_group, update_zarr_array
 from ..type_hints import ArrayLike
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 
@@ -365,26 +363,6 @@ def _wrap_update_func_with_overlap(
     return wrap_function
 
 
-def _rm(fs: fsspec.AbstractFileSystem, dirname: str) -> None:
-    """Remove a directory and its content.
-
-    Args:
-        fs: The file system on which the directory is stored.
-        dirname: The name of the directory to remove.
-    """
-    tries = 0
-    while tries < 10:
-        try:
-            fs.rm(dirname, recursive=True)
-            fs.invalidate_cache(dirname)
-            if not fs.exists(dirname):
-                return
-        except OSError:
-            fs.invalidate_cache(dirname)
-        time.sleep(1)
-        tries += 1
-
-
 def _insert(
     *,
     args: PartitionSlice,
@@ -412,34 +390,25 @@ def _insert(
     partition, indexer = args
     dirname: str = join_path(*((partitioning_properties.dir, ) + partition))
 
+    # If a previous insertion was interrupted, restore the partition.
+    merging.recover(dirname, fs, partitioning_properties.dir)
+
     # If the consolidated zarr metadata does not exist, we consider the
     # partition as empty.
-    if fs.exists(join_path(dirname, '.zmetadata')):
-        # The current partition already exists, so we need to merge
-        # the dataset.
-        merging.perform(zds.isel(indexer),
-                        dirname,
-                        axis,
-                        fs,
-                        partitioning_properties.dim,
-                        delayed=zds.delayed,
-                        merge_callable=merge_callable,
-                        **kwargs)
-        return
-
-    # The current partition does not exist, so we need to create
-    # it and insert the dataset.
-    try:
-        zarr.storage.init_group(store=fs.get_mapper(dirname))
-
-        # The synchronization is done by the caller.
-        write_zarr_group(zds.isel(indexer), dirname, fs, sync.NoSync())
-    except:  # noqa: E722
-        # If the construction of the new dataset fails, the created
-        # partition is deleted, to guarantee the integrity of the
-        # collection.
-        _rm(fs, dirname)
-        raise
+    if not fs.exists(join_path(dirname, '.zmetadata')):
+        merge_callable = None
+
+    # The partition is replaced once the new data is completely written, to
+    # guarantee the integrity of the collection.
+    merging.perform(zds.isel(indexer),
+                    dirname,
+                    axis,
+                    fs,
+                    partitioning_properties.dim,
+                    delayed=zds.delayed,
+                    merge_callable=merge_callable,
+                    partition_base_dir=partitioning_properties.dir,
+                    **kwargs)
 
 
 def _load_and_apply_indexer(
diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..cda3739 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -10,7 +10,7 @@ from __future__ import annotations
 
 from typing import Protocol
 import hashlib
-import shutil
+import os
 
 import fsspec
 import fsspec.implementations.local
@@ -62,42 +62,164 @@ class MergeCallable(Protocol):
     #: pylint: enable=too-few-public-methods,duplicate-code
 
 
-def _rename(
+def _move(
     fs: fsspec.AbstractFileSystem,
     source: str,
     dest: str,
 ) -> None:
-    """Rename a directory on a file system.
+    """Move a directory on a file system.
 
     Args:
         fs: The file system.
         source: The source directory.
-        dest: The destination directory.
+        dest: The destination directory, which must not exist.
     """
     if isinstance(fs, fsspec.implementations.local.LocalFileSystem):
         # fspec implementation of the local file system, copy the source
         # directory to the destination directory and remove the source
-        # directory. This is not efficient. So we use the shutil
-        # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        # directory. This is not efficient. So we use the operating system
+        # to rename the directory.
+        fs.makedirs(os.path.dirname(dest), exist_ok=True)
+        os.rename(source, dest)
         return
 
-    fs.rm(dest, recursive=True)
     fs.mv(source, dest, recursive=True)
 
 
+def _remove(fs: fsspec.AbstractFileSystem, path: str) -> None:
+    """Remove a directory, if it exists.
+
+    Args:
+        fs: The file system.
+        path: The directory to remove.
+    """
+    if fs.exists(path):
+        fs.rm(path, recursive=True)
+        fs.invalidate_cache(path)
+
+
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts: list[str] = dirname.split(sep)
+    while len(parts) > 1 and '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
+def _hidden_dirname(
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+    partition_base_dir: str | None,
+    suffix: str,
+) -> str:
+    """Return a hidden directory, never considered as a partition, used to
+    modify a partition.
+
+    Args:
+        dirname: The name of the partition.
+        fs: The file system that the partition is stored on.
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
+        suffix: The suffix of the directory.
+    """
+    root: str = partition_base_dir or _extract_root_dirname(dirname, fs.sep)
+    name: str = hashlib.sha256(dirname.encode()).hexdigest()
+    return fs_utils.join_path(root, f'.{name}.{suffix}')
+
+
+def remove(
+    path: str,
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+    partition_base_dir: str | None = None,
+) -> None:
+    """Remove a directory related to a partition.
+
+    Args:
+        path: The directory to remove.
+        dirname: The name of the partition.
+        fs: The file system that the partition is stored on.
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
+    """
+    if isinstance(fs, fsspec.implementations.local.LocalFileSystem):
+        # The directory disappears at once: a deletion that is interrupted
+        # leaves nothing but hidden data.
+        trash: str = _hidden_dirname(dirname, fs, partition_base_dir, 'trash')
+        _remove(fs, trash)
+        _move(fs, path, trash)
+        path = trash
+    _remove(fs, path)
+
+
+def _rename(
+    fs: fsspec.AbstractFileSystem,
+    source: str,
+    dest: str,
+    partition_base_dir: str | None = None,
+) -> None:
+    """Rename a directory on a file system.
+
+    Args:
+        fs: The file system.
+        source: The source directory.
+        dest: The destination directory (the partition).
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
+    """
+    if not fs.isdir(dest):
+        try:
+            _move(fs, source, dest)
+        except Exception:
+            # If the construction of the new partition fails, the created
+            # partition is deleted, to guarantee the integrity of the
+            # collection.
+            _remove(fs, source)
+            _remove(fs, dest)
+            raise
+        fs.invalidate_cache(dest)
+        return
+
+    # The existing data is deleted only once the new data is in place.
+    backup: str = _hidden_dirname(dest, fs, partition_base_dir, 'old')
+    _remove(fs, backup)
+    _move(fs, dest, backup)
+    try:
+        _move(fs, source, dest)
+    except Exception:
+        _remove(fs, dest)
+        _move(fs, backup, dest)
+        _remove(fs, source)
+        raise
+    fs.invalidate_cache(dest)
+    remove(backup, dest, fs, partition_base_dir)
+
+
+def recover(
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+    partition_base_dir: str | None = None,
+) -> None:
+    """Restore a partition whose replacement has been interrupted.
+
+    Args:
+        dirname: The name of the partition.
+        fs: The file system that the partition is stored on.
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
+    """
+    backup: str = _hidden_dirname(dirname, fs, partition_base_dir, 'old')
+    if fs.exists(backup) and not fs.exists(dirname):
+        _move(fs, backup, dirname)
+        fs.invalidate_cache(dirname)
+
+
 def _update_fs(
     dirname: str,
     zds: dataset.Dataset,
     fs: fsspec.AbstractFileSystem,
     *,
+    partition_base_dir: str | None = None,
     synchronizer: sync.Sync | None = None,
 ) -> None:
     """Updates a dataset stored in a partition.
@@ -106,31 +228,30 @@ def _update_fs(
         dirname: The name of the partition.
         zds: The dataset to update.
         fs: The file system that the partition is stored on.
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
     # temporary directory is the hash of the partition name.
-    temp: str = fs_utils.join_path(
-        _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
-    if fs.exists(temp):
-        fs.rm(temp, recursive=True)
-
-    # Initializing Zarr group
-    zarr.storage.init_group(store=fs.get_mapper(temp))
+    temp: str = _hidden_dirname(dirname, fs, partition_base_dir, 'new')
+    _remove(fs, temp)
 
     # Writing new data.
     try:
+        # Initializing Zarr group
+        zarr.storage.init_group(store=fs.get_mapper(temp))
+
         # The synchronization is done by the caller.
         storage.write_zarr_group(zds, temp, fs, synchronizer or sync.NoSync())
     except Exception:
         # The "write_zarr_group" method throws the exception if all scheduled
         # tasks are finished. So here we can delete the temporary directory.
-        fs.rm(temp, recursive=True)
+        _remove(fs, temp)
         raise
 
     # Rename the existing entry on the file system
-    _rename(fs, temp, dirname)
+    _rename(fs, temp, dirname, partition_base_dir)
 
 
 def perform(
@@ -142,6 +263,7 @@ def perform(
     *,
     delayed: bool = True,
     merge_callable: MergeCallable | None,
+    partition_base_dir: str | None = None,
     synchronizer: sync.Sync | None = None,
     **kwargs,
 ) -> None:
@@ -158,6 +280,8 @@ def perform(
         merge_callable: The merge callable. If None, the inserted dataset
             overwrites the existing dataset stored in the partition.
             Defaults to None.
+        partition_base_dir: The base directory of the partitions. If None, it
+            is deduced from the name of the partition.
         synchronizer: The instance handling access to critical resources.
             Defaults to None.
         **kwargs: Additional keyword arguments are passed through to the merge
@@ -172,4 +296,8 @@ def perform(
         # dataset is used.
         ds.copy_properties(ds=ds_inserted)
         zds = merge_callable(ds, ds_inserted, axis, partitioning_dim, **kwargs)
-    _update_fs(dirname, zds, fs, synchronizer=synchronizer)
+    _update_fs(dirname,
+               zds,
+               fs,
+               partition_base_dir=partition_base_dir,
+               synchronizer=synchronizer)
-- 
2.43.0


From fbe1d82e934bd41595b4d12a235a4090746001dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:24 +0000
Subject: [PATCH 08/62] fix: report a lock as acquired only while it is held,
 and exclude the threads of a process

---
 zcollection/sync.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index 74467dc..e0ee4bc 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Callable
 import abc
+import os
 import threading
 
 import fasteners
@@ -49,25 +50,56 @@ class NoSync(Sync):
         return False
 
 
+#: Mutexes shared by the synchronizers of this process, by lock file: the
+#: operating system does not exclude the threads of the process owning the lock.
+_MUTEXES: dict[str, threading.Lock] = {}
+
+
 class ProcessSync(Sync):
     """This class is used when the user wants to synchronize accesses to the
     collection, in other words, when there is concurrency."""
 
     def __init__(self, path: str) -> None:
         self.lock = fasteners.InterProcessLock(path)
+        self._mutex: threading.Lock = _MUTEXES.setdefault(
+            os.path.abspath(path), threading.Lock())
 
     def __enter__(self) -> bool:
-        return self.lock.acquire()
+        # pylint: disable=consider-using-with
+        # The mutex is released when the context is exited.
+        self._mutex.acquire()
+        # pylint: enable=consider-using-with
+        try:
+            return self.lock.acquire()
+        except BaseException:
+            self._mutex.release()
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         try:
             self.lock.release()
         except threading.ThreadError:
             pass
+        finally:
+            self._mutex.release()
 
     def __reduce__(self) -> tuple[Callable, tuple[str]]:
         return (ProcessSync, (str(self.lock.path), ))
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-        return self.lock.exists()
+        if not self._mutex.acquire(blocking=False):
+            return True
+        try:
+            # Without lock file, nobody holds the lock.
+            if not self.lock.exists():
+                return False
+            lock = fasteners.InterProcessLock(self.lock.path)
+            acquired: bool = lock.acquire(blocking=False)
+            if acquired:
+                lock.release()
+            else:
+                lock.lockfile.close()
+            return not acquired
+        finally:
+            self._mutex.release()
-- 
2.43.0


From ce1d0e8754f7d277b66842ad5a35bf9c5efdf1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:59 +0000
Subject: [PATCH 09/62] fix: a synchronizer sent to another process uses the
 same lock file

---
 zcollection/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index e0ee4bc..8831737 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -84,7 +84,7 @@ class ProcessSync(Sync):
             self._mutex.release()
 
     def __reduce__(self) -> tuple[Callable, tuple[str]]:
-        return (ProcessSync, (str(self.lock.path), ))
+        return (ProcessSync, (os.fsdecode(self.lock.path), ))
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-- 
2.43.0


From 541fc5997e2a60d27f2c1afd00d7e15468468c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 10/62] fix: hold the synchronizer from the listing of the
 partitions to the end of their modification

---
 zcollection/collection/__init__.py | 164 +++++++++++++++++++----------
 1 file changed, 106 insertions(+), 58 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index cd1fc54..9f40c4f 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -38,6 +38,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -88,12 +89,10 @@ def _infer_callable(
     except StopIteration:
         return ()
 
-    with collection.synchronizer:
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+    # The synchronization is done by the caller.
+    zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                         collection._immutable, one_partition,
+                                         selected_variables)
     func_result: dict[str, Any]
     func_result = _try_infer_callable(func, zds,
                                       collection.partition_properties.dim,
@@ -442,33 +441,40 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now: datetime.datetime = datetime.datetime.now(datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
-        folders = list(self.partitions(filters=filters, lock=True))
-
-        # No partition selected, nothing to do.
-        if not folders:
-            return folders
 
         def is_created_before(path: str, now: datetime.datetime,
                               timedelta: datetime.timedelta) -> bool:
             """Return whether the partition was created before the
             timedelta."""
-            created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
+            created: datetime.datetime
+            try:
+                created = self.fs.created(path)
+            except FileNotFoundError:
+                # The file system does not handle the directories.
+                created = self.fs.created(
+                    fs_utils.join_path(path, '.zmetadata'))
+            if created.tzinfo is None:
+                created = created.replace(tzinfo=datetime.timezone.utc)
             return now - created > timedelta
 
-        if timedelta is not None:
-            folders = list(
-                filter(
-                    lambda folder: is_created_before(  # type: ignore[arg-type]
-                        folder, now, timedelta),
-                    folders))
-
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+        # The collection is locked from the listing of the partitions to their
+        # removal.
+        with self.synchronizer:
+            folders = list(self.partitions(filters=filters))
+            if timedelta is not None:
+                folders = list(
+                    filter(
+                        lambda folder: is_created_before(  # type: ignore
+                            folder, now, timedelta),
+                        folders))
+
+            storage.execute_transaction(client, sync.NoSync(), [
+                dask_utils.simple_delayed('drop', merging.remove)(
+                    folder, folder, self.fs, self.partition_properties.dir)
+                for folder in folders
+            ])
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -537,26 +543,59 @@ class Collection(ReadOnlyCollection):
         if not callable(func):
             raise TypeError('func must be a callable')
 
+        # The collection is locked from the listing of the partitions to their
+        # update.
+        with self.synchronizer:
+            self._update(func,
+                         *args,
+                         delayed=delayed,
+                         depth=depth,
+                         filters=filters,
+                         npartitions=npartitions,
+                         selected_variables=selected_variables,
+                         trim=trim,
+                         variables=variables,
+                         **kwargs)
+
+    def _update(
+        self,
+        func: UpdateCallable,
+        /,
+        *args,
+        delayed: bool,
+        depth: int,
+        filters: PartitionFilter | None,
+        npartitions: int | None,
+        selected_variables: list[str] | None,
+        trim: bool,
+        variables: Sequence[str] | None,
+        **kwargs,
+    ) -> None:
+        """Update the selected partitions (the synchronization is done by the
+        caller)."""
         variables = variables or _infer_callable(
             self, func, filters, delayed, selected_variables, *args, **kwargs)
 
         if not variables:
             warnings.warn('You are trying to update an empty collection.',
                           category=RuntimeWarning,
-                          stacklevel=2)
+                          stacklevel=3)
             return
 
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
-                set(variables) - set(selected_variables))
+            selected_variables = [
+                *selected_variables,
+                *(set(variables) - set(selected_variables))
+            ]
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
                      ', '.join(repr(item) for item in variables))
 
-        selected_partitions = tuple(self.partitions(filters=filters,
-                                                    lock=True))
+        selected_partitions = tuple(self.partitions(filters=filters))
+        if not selected_partitions:
+            return
 
         local_func: WrappedPartitionCallable = _wrap_update_func(
             *args,
@@ -583,9 +622,10 @@ class Collection(ReadOnlyCollection):
         batches: Iterator[Sequence[str]] = dask_utils.split_sequence(
             selected_partitions, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+        storage.execute_transaction(client, sync.NoSync(), [
+            dask_utils.simple_delayed(func.__name__, local_func)(batch)
+            for batch in batches
+        ])
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -622,13 +662,20 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
-        del self.metadata.variables[variable]
-        self._write_config()
+        with self.synchronizer:
+            self._drop_zarr_arrays(client, variable)
+            del self.metadata.variables[variable]
+            self._write_config()
+
+    def _drop_zarr_arrays(self, client: dask.distributed.Client,
+                          variable: str) -> None:
+        """Delete a variable from all the partitions (the synchronization is
+        done by the caller)."""
+        storage.execute_transaction(client, sync.NoSync(), [
+            dask_utils.simple_delayed('drop_variable', storage.del_zarr_array)(
+                partition, variable, self.fs)
+            for partition in self.partitions()
+        ])
 
     def add_variable(
         self,
@@ -663,13 +710,6 @@ class Collection(ReadOnlyCollection):
         if self.partition_properties.dim not in variable.dimensions:
             raise ValueError(
                 'The new variable must use the partitioning axis.')
-        self.metadata.add_variable(variable)
-        self._write_config()
-
-        # Remove the attribute from the variable. The attribute will be added
-        # from the collection metadata.
-        variable = variable.set_for_insertion()
-
         client: dask.distributed.Client = dask_utils.get_client()
 
         template: meta.Variable = self.metadata.search_same_dimensions_as(
@@ -678,19 +718,27 @@ class Collection(ReadOnlyCollection):
             dim.name: dim.value
             for dim in self.metadata.chunks
         }
-        try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
+        with self.synchronizer:
+            self.metadata.add_variable(variable)
+            try:
+                self._write_config()
+                # Remove the attribute from the variable. The attribute will be
+                # added from the collection metadata.
+                storage.execute_transaction(client, sync.NoSync(), [
+                    dask_utils.simple_delayed(
+                        'add_variable', storage.add_zarr_array)(
+                            partition,
+                            variable.set_for_insertion(),
                             template.name,
                             self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
-        except Exception:
-            self.drop_variable(variable.name)
-            raise
+                            chunks=chunks) for partition in self.partitions()
+                ])
+            except Exception:
+                # Restore the previous state of the collection.
+                del self.metadata.variables[variable.name]
+                self._write_config()
+                self._drop_zarr_arrays(client, variable.name)
+                raise
 
     def copy(
         self,
-- 
2.43.0


From 6d46f261a6d83cf2e64bc3b6d71fc0da228761a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 11/62] fix: refuse to drop the axis, or an immutable variable
 not yet stored

---
 zcollection/collection/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9f40c4f..bc10e12 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -654,13 +654,14 @@ class Collection(ReadOnlyCollection):
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
+        if (self.partition_properties.dim
+                not in self.metadata.variables[variable].dimensions):
+            raise ValueError(
+                f'The variable {variable!r} is part of the immutable '
+                'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         with self.synchronizer:
             self._drop_zarr_arrays(client, variable)
-- 
2.43.0


From f1698d3e9e87aad88bf5d1ca1e85e0efbfc46271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 12/62] fix: do not truncate the configuration when it cannot
 be serialized

---
 zcollection/collection/__init__.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index bc10e12..f937da6 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -234,16 +234,19 @@ class Collection(ReadOnlyCollection):
             "Updating collection's configuration: %s"
             if exists else 'Creating the collection: %s', config)
 
-        self.fs.makedirs(base_dir, exist_ok=True)
+        # Serialize the configuration before modifying the existing one.
+        params: str = json.dumps(
+            {
+                'axis': self.axis,
+                'dataset': self.metadata.get_config(),
+                'partitioning': self.partitioning.get_config(),
+            },
+            indent=4)
 
-        params = {
-            'axis': self.axis,
-            'dataset': self.metadata.get_config(),
-            'partitioning': self.partitioning.get_config(),
-        }
+        self.fs.makedirs(base_dir, exist_ok=True)
 
         with self.fs.open(config, mode='w') as stream:
-            json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            stream.write(params)  # type: ignore[arg-type]
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
-- 
2.43.0


From 493e97bda857dc1d515d9aa6d75cd1f292a743c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 13/62] fix: store the immutable variables again if their first
 storage was interrupted

---
 zcollection/collection/__init__.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index f937da6..0ae6621 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -68,11 +68,18 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    storage.write_zarr_group(immutable_dataset,
-                             path,
-                             fs,
-                             synchronizer,
-                             distributed=False)
+    try:
+        storage.write_zarr_group(immutable_dataset,
+                                 path,
+                                 fs,
+                                 synchronizer,
+                                 distributed=False)
+    except Exception:
+        # An incomplete dataset must not be considered as stored.
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
+            fs.invalidate_cache(path)
+        raise
 
 
 def _infer_callable(
@@ -390,10 +397,12 @@ class Collection(ReadOnlyCollection):
 
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.partition_properties.dim,
-                                         self._immutable, self.fs,
-                                         self.synchronizer)
+            with self.synchronizer:
+                if not self.fs.exists(
+                        fs_utils.join_path(self._immutable, '.zmetadata')):
+                    _write_immutable_dataset(ds, self.partition_properties.dim,
+                                             self._immutable, self.fs,
+                                             sync.NoSync())
 
             # Remove the variables that should not be partitioned.
             ds = ds.select_variables_by_dims(
-- 
2.43.0


From 9a1999f5cdc34012e98ab7a42f58afc6d5830a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 14/62] fix: copy the immutable variables, an empty selection,
 and to the same file system by default

---
 zcollection/collection/__init__.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 0ae6621..1f7adf0 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -786,20 +786,21 @@ class Collection(ReadOnlyCollection):
             >>> collection.copy(target="my_new_collection")
         """
         _LOGGER.info('Copying of the collection to %r', target)
-        if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+        filesystem = filesystem or self.fs
+        target = fs_utils.normalize_path(filesystem, target)
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
 
         # Sequence of (source, target) to copy split in npartitions
-        args = tuple(
-            dask_utils.split_sequence(
-                [(item,
-                  fs_utils.join_path(
-                      target,
-                      os.path.relpath(item, self.partition_properties.dir)))
-                 for item in self.partitions(filters=filters)], npartitions))
+        partitions: list[tuple[str, str]] = [
+            (item,
+             fs_utils.join_path(
+                 target, os.path.relpath(item, self.partition_properties.dir)))
+            for item in self.partitions(filters=filters)
+        ]
+        args = tuple(dask_utils.split_sequence(
+            partitions, npartitions)) if partitions else ()
         # Copy the selected partitions
         partial = functools.partial(fs_utils.copy_tree,
                                     fs_source=self.fs,
@@ -809,7 +810,14 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        client.gather(client.map(worker_task, args, pure=False))
+        filesystem.makedirs(target, exist_ok=True)
+        # The variables that are not partitioned.
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            immutable: str = fs_utils.join_path(
+                target, os.path.basename(self._immutable))
+            if not filesystem.exists(immutable):
+                partial(self._immutable, immutable)
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
-- 
2.43.0


From bf72268548030bcfd789aa403127560b567b1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 15/62] fix: report all the partitions that cannot be read, and
 do not remove them in read-only mode

---
 zcollection/collection/__init__.py | 40 ++++++++++++++++--------------
 zcollection/storage.py             |  5 +++-
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 1f7adf0..c9b09e3 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -846,25 +846,27 @@ class Collection(ReadOnlyCollection):
         Returns:
             A list of invalid partitions.
         """
-        partitions = tuple(self.partitions(filters=filters))
-        if not partitions:
-            return []
+        if fix and self.mode == 'r':
+            self._unsupported_operation()
         client: dask.distributed.Client = dask_utils.get_client()
-        futures: list[dask.distributed.Future] = client.map(
-            _check_partition,
-            partitions,
-            fs=self.fs,
-            partitioning_strategy=self.partitioning)
         invalid_partitions: list[str] = []
-        for item in dask.distributed.as_completed(futures):
-            partition, valid = item.result()  # type: ignore
-            if not valid:
-                warnings.warn(f'Invalid partition: {partition}',
-                              category=RuntimeWarning)
-                invalid_partitions.append(partition)
-
-        if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
+        with self.synchronizer if fix else sync.NoSync():
+            futures: list[dask.distributed.Future] = client.map(
+                _check_partition,
+                tuple(self.partitions(filters=filters)),
+                fs=self.fs,
+                partitioning_strategy=self.partitioning,
+                pure=False)
+            for item in dask.distributed.as_completed(futures):
+                partition, valid = item.result()  # type: ignore
+                if not valid:
+                    warnings.warn(f'Invalid partition: {partition}',
+                                  category=RuntimeWarning)
+                    invalid_partitions.append(partition)
+
+            if fix:
+                for item in invalid_partitions:
+                    _LOGGER.info('Removing invalid partition: %s', item)
+                    merging.remove(item, item, self.fs,
+                                   self.partition_properties.dir)
         return invalid_partitions
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 67cb343..aeb0d11 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -468,6 +468,9 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    # pylint: disable=broad-except
+    # The error depends on the damage, the codec and the file system.
+    except Exception:
         return False
+    # pylint: enable=broad-except
     return True
-- 
2.43.0


From 7f9cf8f65e3071f4cb2253fb762323d8d187e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 16/62] fix: load the immutable variables in the computations
 with overlap

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 431e379..326e929 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -241,7 +241,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From 68adf0d76d9dcc3330dbd81f01f7fc3e7194017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 17/62] fix: write the variables again when an insertion is
 repeated

---
 zcollection/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index aeb0d11..64fde9c 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -261,6 +261,7 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    pure=False,
                 )
                 execute_transaction(
                     client,
-- 
2.43.0


From 53039b8f1c424922fc3e8281264c12e4bc283bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 18/62] fix: complete the deletion of a variable that was
 interrupted

---
 zcollection/storage.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 64fde9c..abdd405 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -394,11 +394,13 @@ def del_zarr_array(
     path: str = join_path(dirname, name)
     if fs.exists(path):
         fs.rm(path, recursive=True)
-        zarr.consolidate_metadata(
-            fs.get_mapper(dirname),  # type: ignore[arg-type]
-        )
-        # Invalidate any cached directory information.
-        fs.invalidate_cache(dirname)
+    # The metadata is updated even if the array no longer exists, in order to
+    # complete an interrupted deletion.
+    zarr.consolidate_metadata(
+        fs.get_mapper(dirname),  # type: ignore[arg-type]
+    )
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def add_zarr_array(
-- 
2.43.0


From 133cbff363ea6cca766ed3d09e414533f15a08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:56 +0000
Subject: [PATCH 19/62] fix: hold the synchronizer of a view from the listing
 of its partitions to the end of their modification

---
 zcollection/view/__init__.py | 223 +++++++++++++++++++----------------
 1 file changed, 124 insertions(+), 99 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..bbdb444 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -106,25 +106,25 @@ class View:
     def _init_partitions(self, filters: collection.PartitionFilter) -> None:
         """Initialize the partitions of the view."""
         _LOGGER.info('Populating view %s', self)
-        args = tuple(
-            map(lambda item: fs_utils.join_path(self.base_dir, item),
-                self.view_ref.partitions(filters=filters, relative=True)))
-        # When opening an existing view, if the user asks to use new partitions
-        # from the reference collection, in this case only the missing
-        # partitions are created.
-        args = tuple(filter(lambda item: not self.fs.exists(item), args))
-        _LOGGER.info('%d partitions selected from %s', len(args),
-                     self.view_ref)
         client: dask.distributed.Client = dask_utils.get_client()
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(
-                _write_checksum,
-                tuple(args),
-                base_dir=self.base_dir,
-                view_ref=self.view_ref,
-                fs=self.fs,
-            ))
+        with self.synchronizer:
+            args = tuple(
+                map(lambda item: fs_utils.join_path(self.base_dir, item),
+                    self.view_ref.partitions(filters=filters, relative=True)))
+            # When opening an existing view, if the user asks to use new
+            # partitions from the reference collection, in this case only the
+            # missing partitions are created.
+            args = tuple(filter(lambda item: not self.fs.exists(item), args))
+            _LOGGER.info('%d partitions selected from %s', len(args),
+                         self.view_ref)
+            storage.execute_transaction(client, sync.NoSync(), [
+                dask_utils.simple_delayed('write_checksum', _write_checksum)(
+                    item,
+                    base_dir=self.base_dir,
+                    view_ref=self.view_ref,
+                    fs=self.fs,
+                ) for item in args
+            ])
 
     def __str__(self) -> str:
         return (f'{self.__class__.__name__}'
@@ -258,48 +258,46 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
 
-        existing_partitions: set[str] = {
-            pathlib.Path(path).relative_to(self.base_dir).as_posix()
-            for path in self.partitions()
-        }
-
-        if len(existing_partitions) == 0:
-            _LOGGER.info('No partitions found, skipping variable creation')
-            return
+        with self.synchronizer:
+            existing_partitions: set[str] = {
+                pathlib.Path(path).relative_to(self.base_dir).as_posix()
+                for path in self.partitions()
+            }
+
+            args = filter(lambda item: item[0] in existing_partitions,
+                          self.view_ref.iterate_on_records(relative=True))
+
+            self.metadata.add_variable(variable)
+            try:
+                # Remove the attribute from the variable. The attribute will
+                # be added from the view metadata.
+                storage.execute_transaction(client, sync.NoSync(), [
+                    dask_utils.simple_delayed(
+                        'add_variable', _create_zarr_array)(
+                            item,
+                            base_dir=self.base_dir,
+                            fs=self.fs,
+                            template=template.name,
+                            variable=variable.set_for_insertion())
+                    for item in args
+                ])
+                self._write_config()
+            except Exception:
+                # Restore the previous state of the view.
+                del self.metadata.variables[variable.name]
+                storage.execute_transaction(client, sync.NoSync(), [
+                    dask_utils.simple_delayed(
+                        'drop_variable', _drop_zarr_zarr)(
+                            item,
+                            fs=self.fs,
+                            variable=variable.name,
+                            ignore_errors=True) for item in self.partitions()
+                ])
+                raise
 
-        args = filter(lambda item: item[0] in existing_partitions,
-                      self.view_ref.iterate_on_records(relative=True))
-
-        # Remove the attribute from the variable. The attribute will be added
-        # from the view metadata.
-        # Remove the attribute from the variable. The attribute will be added
-        # from the collection metadata.
-        variable = variable.set_for_insertion()
-
-        try:
-            storage.execute_transaction(
-                client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
-        except Exception:
-            storage.execute_transaction(
-                client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
-            raise
-
-        self._write_config()
         # pylint: enable=duplicate-code
 
     def drop_variable(
@@ -323,15 +321,15 @@ class View:
                                  varname)
         client: dask.distributed.Client = dask_utils.get_client()
 
-        variable: meta.Variable = self.metadata.variables.pop(varname)
-        self._write_config()
+        with self.synchronizer:
+            variable: meta.Variable = self.metadata.variables.pop(varname)
+            self._write_config()
 
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            storage.execute_transaction(client, sync.NoSync(), [
+                dask_utils.simple_delayed('drop_variable', _drop_zarr_zarr)(
+                    item, fs=self.fs, variable=variable.name)
+                for item in self.partitions()
+            ])
 
     def load(
         self,
@@ -466,6 +464,33 @@ class View:
         """
         _assert_have_variables(self.metadata)
 
+        # The view is locked from the loading of the data to its update.
+        with self.synchronizer:
+            self._update(func,
+                         *args,
+                         depth=depth,
+                         delayed=delayed,
+                         filters=filters,
+                         npartitions=npartitions,
+                         selected_variables=selected_variables,
+                         trim=trim,
+                         **kwargs)
+
+    def _update(
+        self,
+        func: collection.UpdateCallable,
+        /,
+        *args,
+        depth: int,
+        delayed: bool,
+        filters: collection.PartitionFilter,
+        npartitions: int | None,
+        selected_variables: Iterable[str] | None,
+        trim: bool,
+        **kwargs,
+    ) -> None:
+        """Update a variable stored int the view (the synchronization is done
+        by the caller)."""
         client: dask.distributed.Client = dask_utils.get_client()
 
         datasets_list = tuple(
@@ -527,12 +552,10 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(client, sync.NoSync(), [
+            dask_utils.simple_delayed(func.__name__, wrap_function)(
+                batch, base_dir=self.base_dir) for batch in batchs
+        ])
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -736,21 +759,35 @@ class View:
         Returns:
             True if the view is synchronized, False otherwise.
         """
+        with self.synchronizer:
+            unsynchronized_partition = self._sync(dry_run=True)
+        return len(unsynchronized_partition) == 0
+
+    def _sync(self, dry_run: bool = False) -> tuple[str, ...]:
+        """Synchronize the partitions (the synchronization of the accesses is
+        done by the caller).
+
+        Args:
+            dry_run: If True, the partitions are not modified.
+
+        Returns:
+            The partitions that are not synchronized.
+        """
         partitions = tuple(self.view_ref.partitions(relative=True))
+        _LOGGER.info('%d partitions to synchronize', len(partitions))
+
         client: dask.distributed.Client = dask_utils.get_client()
-        unsynchronized_partition = storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
-        return len(
-            tuple(
-                filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+        result: list[str | None] | None = storage.execute_transaction(
+            client, sync.NoSync(), [
+                dask_utils.simple_delayed('sync', _sync)(
+                    item,
+                    base_dir=self.base_dir,
+                    fs=self.fs,
+                    view_ref=self.view_ref,
+                    metadata=self.metadata,
+                    dry_run=dry_run) for item in partitions
+            ])
+        return tuple(item for item in result or () if item is not None)
 
     def sync(
         self,
@@ -785,22 +822,10 @@ class View:
             self._write_config()
             self._init_partitions(filters)
 
-        partitions = tuple(self.view_ref.partitions(relative=True))
-        _LOGGER.info('%d partitions to synchronize', len(partitions))
-
-        client: dask.distributed.Client = dask_utils.get_client()
-        synchronized_partition: list[str | None] = storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+        with self.synchronizer:
+            synchronized_partition = self._sync()
 
         partition_ids = tuple(
-            dict(self.view_ref.partitioning.parse(
-                item))  # type: ignore[arg-type] # item is filtered
-            for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+            dict(self.view_ref.partitioning.parse(item))
+            for item in synchronized_partition)
         return lambda item: item in partition_ids
-- 
2.43.0


From c8219aa72661082fff3eee9fc51e94cec1b3d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 20/62] fix: do not truncate the configuration of a view when
 it cannot be serialized

---
 zcollection/view/__init__.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index bbdb444..79b6f4b 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -140,19 +140,20 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(
-                {
-                    'base_dir': self.base_dir,
-                    'filters': _serialize_filters(self.filters),
-                    'metadata': self.metadata.get_config(),
-                    'view_ref': {
-                        'path': self.view_ref.partition_properties.dir,
-                        'fs': fs,
-                    },
+        # Serialize the configuration before modifying the existing one.
+        params: str = json.dumps(
+            {
+                'base_dir': self.base_dir,
+                'filters': _serialize_filters(self.filters),
+                'metadata': self.metadata.get_config(),
+                'view_ref': {
+                    'path': self.view_ref.partition_properties.dir,
+                    'fs': fs,
                 },
-                stream,  # type: ignore[arg-type]
-                indent=4)
+            },
+            indent=4)
+        with self.fs.open(config, mode='w') as stream:
+            stream.write(params)  # type: ignore[arg-type]
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From 138af6f4cbb0e8b92f680049fb3fbb3518a56893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:35 +0000
Subject: [PATCH 21/62] fix: apply the filters and the indexer when loading a
 view, whatever the selected variables

---
 zcollection/view/__init__.py |  2 +-
 zcollection/view/detail.py   | 42 +++++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 79b6f4b..70a26c0 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -367,7 +367,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters=filters)))
             if len(arguments) == 0:
                 return None
         else:
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..bd2155c 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -185,7 +185,7 @@ def _load_one_dataset(
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        return dataset.Dataset(
+        zds = dataset.Dataset(
             [
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
@@ -196,25 +196,27 @@ def _load_one_dataset(
                     variable,
                     delayed=delayed) for variable in variables
             ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+            attrs=zds.attrs,
+            delayed=delayed)
+    else:
+        # pylint: disable=expression-not-assigned
+        # We use the set notation to evaluate the generator.
+        {
+            zds.add_variable(  # type: ignore[func-returns-value]
+                item.metadata(),
+                item.array,
+            )
+            for item in (
+                open_zarr_array(
+                    zarr.open(  # type: ignore[arg-type]
+                        fs.get_mapper(join_path(base_dir, partition,
+                                                variable)),
+                        mode='r',
+                    ),
+                    variable,
+                    delayed=delayed) for variable in variables)
+        }
+        # pylint: enable=expression-not-assigned
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 73e0815e68909446657f2c9723f561d105064253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 22/62] fix: computations with overlap on a view made of a
 single partition

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index bd2155c..153c2c9 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -344,7 +344,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From 5374f294339a2e1679e74bb7e81be22c52e2aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 23/62] fix: load the non-partitioned variables of the
 reference through a view

---
 zcollection/view/detail.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 153c2c9..d490bce 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -227,6 +227,16 @@ def _load_one_dataset(
         zds = ds_list.pop(0)
         if ds_list:
             zds = zds.concat(ds_list, dim)
+
+    # Add the variables of the reference that are not partitioned.
+    # pylint: disable=protected-access
+    if view_ref._immutable:
+        zds.merge(
+            open_zarr_group(view_ref._immutable,
+                            view_ref.fs,
+                            delayed=delayed,
+                            selected_variables=selected_variables))
+    # pylint: enable=protected-access
     return zds, partition
 
 
-- 
2.43.0


From 3e3d39feb425bcd06dec97b1b27e7ed63e6a8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 24/62] fix: read the stored data again when a view is loaded
 several times

---
 zcollection/view/__init__.py | 3 ++-
 zcollection/view/detail.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 70a26c0..a6dba2b 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -384,7 +384,8 @@ class View:
             selected_variables=self.view_ref.metadata.select_variables(
                 selected_variables),
             view_ref=client.scatter(self.view_ref),
-            variables=self.metadata.select_variables(selected_variables))
+            variables=self.metadata.select_variables(selected_variables),
+            pure=False)
 
         # The load function returns the path to the partitions and the loaded
         # datasets. Only the loaded datasets are retrieved here and filter None
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index d490bce..2548272 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -292,7 +292,8 @@ def _load_datasets_list(
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
         view_ref=client.scatter(view_ref),
-        variables=metadata.select_variables(selected_variables))
+        variables=metadata.select_variables(selected_variables),
+        pure=False)
 
     return filter(lambda item: item is not None,
                   client.gather(futures))  # type: ignore[arg-type]
-- 
2.43.0


From bafb8ac8061d2512a229d97c2bdd90140a4e3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:29 +0000
Subject: [PATCH 25/62] fix: synchronize the partitions of the view only, and
 create the variables of the new partitions

---
 zcollection/view/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index a6dba2b..3e3963b 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -775,7 +775,14 @@ class View:
         Returns:
             The partitions that are not synchronized.
         """
-        partitions = tuple(self.view_ref.partitions(relative=True))
+        # The partitions to synchronize are those selected by the filters of
+        # the view, and those already present in the view.
+        selected = set(
+            self.view_ref.partitions(filters=self.filters, relative=True))
+        partitions = tuple(
+            item for item in self.view_ref.partitions(relative=True)
+            if item in selected
+            or self.fs.exists(fs_utils.join_path(self.base_dir, item)))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
 
         client: dask.distributed.Client = dask_utils.get_client()
@@ -819,12 +826,10 @@ class View:
         """
         _LOGGER.info('Synchronizing view %s', self)
 
-        if filters is not None:
-            self.filters = filters
-            self._write_config()
-            self._init_partitions(filters)
-
         with self.synchronizer:
+            if filters is not None:
+                self.filters = filters
+                self._write_config()
             synchronized_partition = self._sync()
 
         partition_ids = tuple(
-- 
2.43.0


From fe4ba2f1d635080d35ca4418c675f454c8348da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:52 +0000
Subject: [PATCH 26/62] fix: raise when the arrays to concatenate have
 inconsistent shapes

---
 zcollection/variable/abc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..cfef892 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -79,17 +79,6 @@ def concat(
 
     try:
         axis: int = self.dimensions.index(dim)
-        return new_variable(
-            type(self),
-            name=self.name,
-            array=concatenate((self.array, *(item.array for item in other)),
-                              axis=axis),
-            dimensions=self.dimensions,
-            attrs=self.attrs,
-            compressor=self.compressor,
-            fill_value=self.fill_value,
-            filters=self.filters,
-        )
     except ValueError:
         # If the concatenation dimension is not within the dimensions of the
         # variable, then the original variable is returned (i.e.
@@ -102,6 +91,17 @@ def concat(
                             compressor=self.compressor,
                             fill_value=self.fill_value,
                             filters=self.filters)
+    return new_variable(
+        type(self),
+        name=self.name,
+        array=concatenate((self.array, *(item.array for item in other)),
+                          axis=axis),
+        dimensions=self.dimensions,
+        attrs=self.attrs,
+        compressor=self.compressor,
+        fill_value=self.fill_value,
+        filters=self.filters,
+    )
 
 
 def not_equal(first: Any, second: Any) -> bool:
-- 
2.43.0


From bbd8e7cbe74397d4e27da1496491bdb8d72313e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:47 +0000
Subject: [PATCH 27/62] fix: update with any callable, and with the
 non-partitioned variables only

---
 zcollection/collection/__init__.py | 3 ++-
 zcollection/collection/detail.py   | 2 +-
 zcollection/view/__init__.py       | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c9b09e3..cfc639b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -635,7 +635,8 @@ class Collection(ReadOnlyCollection):
             selected_partitions, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(client, sync.NoSync(), [
-            dask_utils.simple_delayed(func.__name__, local_func)(batch)
+            dask_utils.simple_delayed(dask.utils.funcname(func),
+                                      local_func)(batch)
             for batch in batches
         ])
         tuple(map(self.fs.invalidate_cache, selected_partitions))
diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 326e929..9fe4abf 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -73,9 +73,9 @@ def _try_infer_callable(
         The result of the function.
     """
     partition_info: tuple[str, slice]
-    partition_info = dim, slice(0, zds.dimensions[dim])
     try:
         if dask.utils.has_keyword(func, 'partition_info'):
+            partition_info = dim, slice(0, zds.dimensions[dim])
             return func(zds, *args, partition_info=partition_info, **kwargs)
         return func(zds, *args, **kwargs)
     except Exception as exc:
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 3e3963b..e179dda 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -555,7 +555,8 @@ class View:
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(client, sync.NoSync(), [
-            dask_utils.simple_delayed(func.__name__, wrap_function)(
+            dask_utils.simple_delayed(
+                dask.utils.funcname(func), wrap_function)(
                 batch, base_dir=self.base_dir) for batch in batchs
         ])
 
-- 
2.43.0


From 990cf87ace5a1881be1a93f494a6641b9fbcd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:46 +0000
Subject: [PATCH 28/62] fix: load a view when the selected reference variables
 do not have the dimensions of the view variables

---
 zcollection/view/detail.py | 43 +++++++++++---------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 2548272..8f6db15 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,41 +182,22 @@ def _load_one_dataset(
     if zds is None:
         return None
 
+    view_variables: list[dataset.Variable] = [
+        open_zarr_array(
+            zarr.open(  # type: ignore[arg-type]
+                fs.get_mapper(join_path(base_dir, partition, variable)),
+                mode='r',
+            ),
+            variable,
+            delayed=delayed) for variable in variables
+    ]
+
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        zds = dataset.Dataset(
-            [
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs,
-            delayed=delayed)
+        zds = dataset.Dataset(view_variables, attrs=zds.attrs, delayed=delayed)
     else:
-        # pylint: disable=expression-not-assigned
-        # We use the set notation to evaluate the generator.
-        {
-            zds.add_variable(  # type: ignore[func-returns-value]
-                item.metadata(),
-                item.array,
-            )
-            for item in (
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables)
-        }
-        # pylint: enable=expression-not-assigned
+        zds.merge(dataset.Dataset(view_variables, delayed=delayed))
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 322d76e94d5da08b72874d59c5945c51c8222190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:21 +0000
Subject: [PATCH 29/62] fix: dropping a partition also drops what an
 interrupted replacement left

---
 zcollection/merging/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index cda3739..e035838 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -142,6 +142,11 @@ def remove(
         partition_base_dir: The base directory of the partitions. If None, it
             is deduced from the name of the partition.
     """
+    # The data left by an interrupted replacement must not reappear.
+    backup: str = _hidden_dirname(dirname, fs, partition_base_dir, 'old')
+    if path != backup:
+        _remove(fs, backup)
+
     if isinstance(fs, fsspec.implementations.local.LocalFileSystem):
         # The directory disappears at once: a deletion that is interrupted
         # leaves nothing but hidden data.
-- 
2.43.0


From 07437f0e801c80c119c999151060212fcb4ccc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:17 +0000
Subject: [PATCH 30/62] fix: drop the variable of a view from the partitions
 not yet synchronized

---
 zcollection/view/detail.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 8f6db15..f0a3eca 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -132,8 +132,12 @@ def _drop_zarr_zarr(partition: str,
         variable: The name of the variable to drop.
         ignore_errors: If True, ignore errors when dropping the array.
     """
+    path: str = join_path(partition, variable)
     try:
-        fs.rm(join_path(partition, variable), recursive=True)
+        # The array does not exist in the partitions of the reference
+        # collection which have not been synchronized since its creation.
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
         fs.invalidate_cache(partition)
     # pylint: disable=broad-except
     # We don't want to fail on errors.
-- 
2.43.0


From de92a730d09fcde9e6065d30f434a9bb9e19b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:17 +0000
Subject: [PATCH 31/62] fix: restore the type of the keys of a sequence when a
 collection is reopened

---
 zcollection/partitioning/sequence.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zcollection/partitioning/sequence.py b/zcollection/partitioning/sequence.py
index 194c6ea..b72c825 100644
--- a/zcollection/partitioning/sequence.py
+++ b/zcollection/partitioning/sequence.py
@@ -124,6 +124,16 @@ class Sequence(abc.Partitioning):
                 for item, (ix, start) in zip(index, enumerate(indices[:-1])))
         # pylint: enable=arguments-differ
 
+    def get_config(self) -> dict[str, Any]:
+        """Return the configuration of the partitioning scheme.
+
+        Returns:
+            The configuration of the partitioning scheme.
+        """
+        config: dict[str, Any] = super().get_config()
+        config['dtype'] = self._dtype
+        return config
+
     def encode(
         self,
         partition: tuple[tuple[str, int], ...],
-- 
2.43.0


From dbb8249a12f795be872559900a2cd64b94f1b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 32/62] fix: record the fill value of a variable with the type
 of the variable

---
 zcollection/meta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zcollection/meta.py b/zcollection/meta.py
index 9a0ac6b..8ccb03c 100644
--- a/zcollection/meta.py
+++ b/zcollection/meta.py
@@ -15,6 +15,7 @@ import numcodecs.abc
 import numpy
 import zarr.codecs
 import zarr.meta
+import zarr.util
 
 from .type_hints import DTypeLike
 
@@ -175,13 +176,17 @@ class Variable:
         compressor_config = compressor.get_config(
         ) if compressor is not None else None
 
+        # The fill value is recorded with the type of the variable: the unit of
+        # a date or the precision of a number may differ.
+        fill_value = zarr.util.normalize_fill_value(self.fill_value,
+                                                    self.dtype)
+
         return {
             'attrs': sorted(item.get_config() for item in self.attrs),
             'compressor': compressor_config,
             'dimensions': self.dimensions,
             'dtype': zarr.meta.encode_dtype(self.dtype),
-            'fill_value': zarr.meta.encode_fill_value(self.fill_value,
-                                                      self.dtype),
+            'fill_value': zarr.meta.encode_fill_value(fill_value, self.dtype),
             'filters': tuple(item.get_config() for item in self.filters),
             'name': self.name,
         }
-- 
2.43.0


From 6ba416c5a4473259359d8847616c474511d26bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:51 +0000
Subject: [PATCH 33/62] fix: drop from an index the entries of the updated
 partitions that are no longer indexed

---
 zcollection/indexing/abc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..75bcaa3 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -274,7 +274,11 @@ class Indexer(abc.ABC):
         partitions = []
         for partition, data in bag.compute():
             length = data.size
-            # If the current item is empty, skip it.
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
+            # If the current item is empty, there is nothing to index: only the
+            # previous index of the partition is dropped.
             if length == 0:
                 continue
             # Create a new table with the indexed data.
@@ -287,9 +291,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
@@ -322,8 +323,9 @@ class Indexer(abc.ABC):
             # pylint: enable=no-member
 
         if len(tables) == 0:
-            # No new data, nothing to do.
-            return
+            # No data to index.
+            tables.append(pyarrow.schema(list(
+                self._type.items())).empty_table())
 
         table = pyarrow.concat_tables(tables)
         if len(self._meta) and table.schema.metadata is None:
-- 
2.43.0


From 3ac0cc74008facc6853f1db505dee960db97b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:51 +0000
Subject: [PATCH 34/62] fix: select all the rows of the overlapping ranges of
 an index

---
 zcollection/indexing/abc.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 75bcaa3..1ab9648 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -380,23 +380,30 @@ class Indexer(abc.ABC):
         start = table[self.START].to_numpy()
         stop = table[self.STOP].to_numpy()
 
-        # Calculate the indexes of each contiguous slice.
-        # index = [0,     1, ...,   69,    70, ...,   134]
-        # start = [817, 823, ..., 2320, 17333, ..., 19337]
-        # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
-        # chunks = [0, 70, 134]
-        chunks: Any = [[0],
-                       numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
-                       [len(table)]]
-
-        # Adds the chunks corresponding to the partitioning keys
+        # Calculate the chunks corresponding to the partitioning keys
+        chunks: Any = [[0], [len(table)]]
         chunks += [
             numpy.where(numpy.roll(values, 1) != values)[0]
             for values in data.values()
         ]
+        chunks = numpy.unique(numpy.concatenate(chunks)).astype('int64')
 
+        # A range may contain the following ones: the data selected so far ends
+        # at the largest end of the previous ranges.
+        stop = numpy.concatenate([stop[:0]] + [
+            numpy.maximum.accumulate(stop[ix0:ix1])
+            for ix0, ix1 in zip(chunks[:-1], chunks[1:])
+        ])
+
+        # Adds the indexes of each contiguous slice.
+        # index = [0,     1, ...,   69,    70, ...,   134]
+        # start = [817, 823, ..., 2320, 17333, ..., 19337]
+        # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
+        # chunks = [0, 70, 134]
         # Finally, we build the list of indexes of the different chunks found.
-        chunks = numpy.unique(numpy.concatenate(chunks))
+        chunks = numpy.union1d(
+            chunks,
+            numpy.where(start[1:] - stop[:-1] > 0)[0] + 1)
 
         return (  # force yapf to respect the line break for flake8
             (tuple((name, data[name][ix0])
-- 
2.43.0


From 40456c8b02c7505886f9638cf59619d01494dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:51 +0000
Subject: [PATCH 35/62] fix: query an index with bytes, and with the operator
 invert

---
 zcollection/indexing/abc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 1ab9648..f84bc08 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -436,6 +436,10 @@ class Indexer(abc.ABC):
         logical_op = logical_op or 'and'
         if logical_op not in ('and', 'and_not', 'invert', 'or', 'xor'):
             raise ValueError(f'Invalid logical operator: {logical_op}')
+        invert = logical_op == 'invert'
+        if invert:
+            # The rows that do not match all the columns.
+            logical_op = 'and'
         if logical_op in ('and', 'or'):
             logical_op += '_'
         function = getattr(pyarrow.compute, logical_op)
@@ -446,7 +450,7 @@ class Indexer(abc.ABC):
 
         # Transform the columns values into a list if they are not iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v] if isinstance(v, bytes) or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
@@ -463,6 +467,8 @@ class Indexer(abc.ABC):
                                           value, type=self._type[name]))
                 for name, value in values.items()
             ])
+            if invert:
+                mask = pyarrow.compute.invert(mask)
             # pylint: disable=no-member
             table = table.filter(mask)
 
-- 
2.43.0


From b6a9a2d6112225d1621923cc182410fd362ec2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:59 +0000
Subject: [PATCH 36/62] fix: load with an indexer that designates deleted
 partitions

---
 zcollection/collection/abc.py    | 2 ++
 zcollection/collection/detail.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index d9bde0b..8e4ae46 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -644,6 +644,8 @@ class ReadOnlyCollection:
                         partition_properties=self.partition_properties,
                         selected_variables=selected_variables,
                     ).compute()))
+            if len(arrays) == 0:
+                return None
 
         array: dataset.Dataset = arrays.pop(0)
         if arrays:
diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 9fe4abf..799b5c0 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -439,6 +439,9 @@ def _load_and_apply_indexer(
     partition: str = join_path(
         partition_properties.dir,
         partition_handler.join(partition_scheme, fs.sep))
+    # The indexer may designate partitions that have been deleted.
+    if not fs.exists(partition):
+        return []
     zds: dataset.Dataset = open_zarr_group(
         partition, fs, delayed=delayed, selected_variables=selected_variables)
     return [zds.isel({partition_properties.dim: indexer}) for indexer in items]
-- 
2.43.0


From a3b318c2e279b939991b935296c9ebf7acdedc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 37/62] fix: delete rows of a dataset holding variables without
 the given axis

---
 zcollection/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..67bbcc9 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -149,7 +149,7 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
                                        var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -160,7 +160,7 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_array(
             var,  # type: ignore[arg-type]
             numpy.delete(var.array, indexer, var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -567,6 +567,8 @@ class Dataset:
         Returns:
             New dataset.
         """
+        if axis not in self.dimensions:
+            raise ValueError(f'Invalid dimension name: {axis!r}')
         variables: list[Variable] = _delete_delayed_vars(
             self, indexer, axis) if self.delayed else _delete_vars(
                 self, indexer, axis)
-- 
2.43.0


From 91cbe83ee2b1bfc7b15271a397f16023fd3343c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 38/62] fix: persist a delayed variable

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..c4745cf 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        self.array, = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From f732158d04b5058089b3dbd9758e67f142772e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 39/62] fix: leave the dataset unchanged when a merge is
 refused

---
 zcollection/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 67bbcc9..be733c7 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -701,13 +701,10 @@ class Dataset:
         if self.delayed != other.delayed:
             raise ValueError('cannot merge delayed and non-delayed data')
 
-        # Merge the variables
-        for name, var in other.variables.items():
-
-            # It's impossible to merge a variable with itself.
+        # It's impossible to merge a variable with itself.
+        for name in other.variables:
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -715,6 +712,9 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        # Merge the variables
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From ae84fbc48491a443f969aef19bba8614aadb3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 40/62] fix: refuse data whose rank differs from the dimensions
 of the variable

---
 zcollection/dataset.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index be733c7..1586fde 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -174,16 +174,14 @@ def _update_dimensions(self: Dataset,
             raise ValueError(
                 'the dataset contains both delayed and non-delayed '
                 'variables')
-        try:
-            for idx, dim in enumerate(var.dimensions):
-                if dim not in self.dimensions:
-                    self.dimensions[dim] = var.array.shape[idx]
-                elif self.dimensions[dim] != var.array.shape[idx]:
-                    raise ValueError(f'variable {var.name} has conflicting '
-                                     'dimensions')
-        except IndexError as exc:
-            raise ValueError(
-                f'variable {var.name} has missing dimensions') from exc
+        if len(var.dimensions) != len(var.array.shape):
+            raise ValueError(f'variable {var.name} has missing dimensions')
+        for idx, dim in enumerate(var.dimensions):
+            if dim not in self.dimensions:
+                self.dimensions[dim] = var.array.shape[idx]
+            elif self.dimensions[dim] != var.array.shape[idx]:
+                raise ValueError(f'variable {var.name} has conflicting '
+                                 'dimensions')
     return delayed
 
 
@@ -339,6 +337,10 @@ class Dataset:
                 dtype=var.dtype) if self.delayed else numpy.full(
                     shape, var.fill_value, dtype=var.dtype)
         else:
+            if len(data.shape) != len(var.dimensions):
+                raise ValueError(
+                    f'variable {var.name} has dimensions {var.dimensions} '
+                    f'that do not match the shape {data.shape} of the data')
             for dim, size in zip(var.dimensions, data.shape):
                 if size != self.dimensions[dim]:
                     raise ValueError(
-- 
2.43.0


From 3a8b548e30bfc9947449c6ca306c168511e80c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 41/62] fix: keep the type of the data of a dataset when no
 variable is selected

---
 zcollection/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 1586fde..faf2622 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -395,7 +395,8 @@ class Dataset:
         return Dataset((self.variables[name] for name in names),
                        attrs=self.attrs,
                        block_size_limit=self.block_size_limit,
-                       chunks=self.dims_chunk)
+                       chunks=self.dims_chunk,
+                       delayed=self.delayed)
 
     def metadata(self) -> meta.Dataset:
         """Get the dataset metadata.
@@ -509,6 +510,7 @@ class Dataset:
             ],
             chunks=mds.chunks,
             block_size_limit=mds.block_size_limit,
+            delayed=self.delayed,
         )
 
     def copy_properties(self, ds: Dataset):
@@ -632,7 +634,8 @@ class Dataset:
         return Dataset(variables=variables,
                        attrs=self.attrs,
                        chunks=self.dims_chunk,
-                       block_size_limit=self.block_size_limit)
+                       block_size_limit=self.block_size_limit,
+                       delayed=self.delayed)
 
     def persist(
         self,
@@ -763,7 +766,8 @@ class Dataset:
         return Dataset(variables=variables,
                        attrs=self.attrs,
                        chunks=self.dims_chunk,
-                       block_size_limit=self.block_size_limit)
+                       block_size_limit=self.block_size_limit,
+                       delayed=self.delayed)
 
     def to_zarr(self,
                 path: str,
-- 
2.43.0


From 4e2f26bf129668d47889e466ed67f33a8c9c412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 42/62] fix: write a dataset to a Zarr store with
 Dataset.to_zarr

---
 zcollection/dataset.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index faf2622..31f1525 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -782,14 +782,16 @@ class Dataset:
         """
         if not self.delayed:
             raise ValueError('cannot write a non-delayed dataset to Zarr')
-        # pylint: disable=import-outside-toplevel, import-error
+        # pylint: disable=import-outside-toplevel
         # Avoid circular import
-        import storage
-        import sync
-
-        # pylint: enable=import-outside-toplevel, import-error
-        storage.write_zarr_group(self, path, fs or fsspec.filesystem('file'),
-                                 sync.NoSync(), parallel)
+        from . import storage, sync
+
+        # pylint: enable=import-outside-toplevel
+        storage.write_zarr_group(self,
+                                 path,
+                                 fs or fsspec.filesystem('file'),
+                                 sync.NoSync(),
+                                 distributed=parallel)
 
     def __str__(self) -> str:
         return _dataset_repr(self)
-- 
2.43.0


From 1ed3243cece4292c7a0371bb3dd46f20e5193d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:01 +0000
Subject: [PATCH 43/62] fix: store the results of an update with overlap once
 all of them are computed

---
 zcollection/collection/__init__.py | 32 +++++++++----
 zcollection/collection/detail.py   | 74 ++++++++++++++++++++++++------
 zcollection/view/__init__.py       | 38 +++++++++++----
 3 files changed, 112 insertions(+), 32 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index cfc639b..e5b114a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -8,7 +8,7 @@ Collection of Zarr groups
 """
 from __future__ import annotations
 
-from typing import Any, Iterable, Iterator, Literal, NoReturn, Sequence
+from typing import Any, Iterable, Literal, NoReturn, Sequence
 import datetime
 import functools
 import io
@@ -37,8 +37,10 @@ from .. import (
 from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
+    _discard_update,
     _insert,
     _load_dataset,
+    _store_update,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -631,14 +633,26 @@ class Collection(ReadOnlyCollection):
 
         client: dask.distributed.Client = dask_utils.get_client()
 
-        batches: Iterator[Sequence[str]] = dask_utils.split_sequence(
-            selected_partitions, npartitions
-            or dask_utils.dask_workers(client, cores_only=True))
-        storage.execute_transaction(client, sync.NoSync(), [
-            dask_utils.simple_delayed(dask.utils.funcname(func),
-                                      local_func)(batch)
-            for batch in batches
-        ])
+        batches: tuple[Sequence[str], ...] = tuple(
+            dask_utils.split_sequence(
+                selected_partitions, npartitions
+                or dask_utils.dask_workers(client, cores_only=True)))
+        try:
+            storage.execute_transaction(client, sync.NoSync(), [
+                dask_utils.simple_delayed(dask.utils.funcname(func),
+                                          local_func)(batch)
+                for batch in batches
+            ])
+            # If depth is not 0, the variables are modified once they are no
+            # longer needed to process the neighboring partitions.
+            if depth != 0:
+                storage.execute_transaction(client, sync.NoSync(), [
+                    dask_utils.simple_delayed('store_update', _store_update)(
+                        batch, self.fs) for batch in batches
+                ])
+        finally:
+            if depth != 0:
+                _discard_update(selected_partitions, self.fs)
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 799b5c0..0dac915 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -10,10 +10,12 @@ from __future__ import annotations
 
 from typing import Any, Callable, Dict, Iterable, Sequence, Tuple
 import dataclasses
+import pickle
 import sys
 import traceback
 import types
 
+import dask.array.core
 import dask.utils
 import fsspec
 
@@ -23,6 +25,10 @@ from ..storage import open_zarr_group, update_zarr_array
 from ..type_hints import ArrayLike
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 
+#: Name of the file containing, in a partition, the result of an update with
+#: overlap before it is stored.
+UPDATE_FILE = '.update'
+
 #: Partition's type.
 PartitionSlice = Tuple[Tuple[str, ...], Dict[str, slice]]
 
@@ -102,7 +108,10 @@ def _update_with_overlap(
     trim: bool,
     **kwargs,
 ) -> None:
-    """Update a partition with overlap.
+    """Compute the update of a partition with overlap.
+
+    The result is set aside in the partition, and not stored in its variables,
+    because other partitions may need the current values of these variables.
 
     Args:
         func: Function to apply to update each partition.
@@ -115,8 +124,7 @@ def _update_with_overlap(
         *args: Positional arguments to pass to the function.
         **kwargs: Keyword arguments to pass to the function.
 
-    Returns:
-        The updated variables.
+    .. seealso:: :func:`_store_update`
     """
     dictionary: dict[str, ArrayLike] = (func(
         zds, *args, partition_info=(dim, indices), **
@@ -124,21 +132,59 @@ def _update_with_overlap(
             zds, *args, **kwargs))
 
     if trim:
+        dictionary = {
+            varname:
+            array[_get_slices(  # type: ignore[index]
+                zds[varname], dim, indices)]
+            for varname, array in dictionary.items()
+        }
+    fs.pipe_file(
+        join_path(path, UPDATE_FILE),
+        pickle.dumps({
+            varname:
+            array.compute()
+            if isinstance(array, dask.array.core.Array) else array
+            for varname, array in dictionary.items()
+        }))
+
+
+def _store_update(
+    partitions: Iterable[str],
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Store the result of an update with overlap.
+
+    Args:
+        partitions: Partitions updated.
+        fs: File system on which the Zarr dataset is stored.
+
+    .. seealso:: :func:`_update_with_overlap`
+    """
+    for partition in partitions:
+        dictionary: dict[str, ArrayLike] = pickle.loads(
+            fs.cat_file(join_path(partition, UPDATE_FILE)))
         for varname, array in dictionary.items():
-            slices: tuple[slice, ...] = _get_slices(zds[varname], dim, indices)
             update_zarr_array(
-                dirname=join_path(path, varname),
-                array=array[slices],  # type: ignore[index]
+                dirname=join_path(partition, varname),
+                array=array,
                 fs=fs,
             )
-    else:
-        tuple(
-            map(
-                lambda items: update_zarr_array(
-                    dirname=join_path(path, items[0]),
-                    array=items[1],
-                    fs=fs,
-                ), dictionary.items()))
+
+
+def _discard_update(
+    partitions: Iterable[str],
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Delete the result of an update with overlap that is set aside.
+
+    Args:
+        partitions: Partitions updated.
+        fs: File system on which the Zarr dataset is stored.
+    """
+    for partition in partitions:
+        path: str = join_path(partition, UPDATE_FILE)
+        if fs.exists(path):
+            fs.rm(path)
 
 
 def _load_dataset(
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index e179dda..55b1cad 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -23,7 +23,11 @@ import fsspec
 
 from .. import collection, dask_utils, dataset, fs_utils, meta, storage, sync
 from ..collection.callable_objects import MapCallable, PartitionCallable
-from ..collection.detail import _try_infer_callable
+from ..collection.detail import (
+    _discard_update,
+    _store_update,
+    _try_infer_callable,
+)
 from ..convenience import collection as convenience
 from ..type_hints import ArrayLike
 from .detail import (
@@ -551,14 +555,30 @@ class View:
                 **kwargs,
             )
 
-        batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
-            datasets_list, npartitions
-            or dask_utils.dask_workers(client, cores_only=True))
-        storage.execute_transaction(client, sync.NoSync(), [
-            dask_utils.simple_delayed(
-                dask.utils.funcname(func), wrap_function)(
-                batch, base_dir=self.base_dir) for batch in batchs
-        ])
+        batchs: tuple[Sequence[Any], ...] = tuple(
+            dask_utils.split_sequence(
+                datasets_list, npartitions
+                or dask_utils.dask_workers(client, cores_only=True)))
+        partitions: tuple[str, ...] = tuple(
+            fs_utils.join_path(self.base_dir, item[1])
+            for item in datasets_list)
+        try:
+            storage.execute_transaction(client, sync.NoSync(), [
+                dask_utils.simple_delayed(
+                    dask.utils.funcname(func), wrap_function)(
+                    batch, base_dir=self.base_dir) for batch in batchs
+            ])
+            # If depth is not 0, the variables are modified once they are no
+            # longer needed to process the neighboring partitions.
+            if depth != 0:
+                storage.execute_transaction(client, sync.NoSync(), [
+                    dask_utils.simple_delayed('store_update', _store_update)(
+                        batch, self.fs) for batch in dask_utils.split_sequence(
+                            partitions, len(batchs))
+                ])
+        finally:
+            if depth != 0:
+                _discard_update(partitions, self.fs)
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
-- 
2.43.0


From 4cc8678eac5fa5ae75916a9f597b9be10c96ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:04 +0000
Subject: [PATCH 44/62] fix: compute all the results of an update before
 storing any of them

---
 zcollection/collection/detail.py | 30 +++++++++++++++++++++---------
 zcollection/view/detail.py       |  5 +++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 0dac915..cd0cb14 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -97,6 +97,23 @@ def _try_infer_callable(
             f'is: {execution_tb}') from exc
 
 
+def _compute(dictionary: dict[str, ArrayLike]) -> dict[str, ArrayLike]:
+    """Compute the arrays returned by an update function before any of them is
+    stored, because they may depend on the variables they replace.
+
+    Args:
+        dictionary: Arrays returned by the update function.
+
+    Returns:
+        The arrays computed.
+    """
+    return {
+        varname:
+        array.compute() if isinstance(array, dask.array.core.Array) else array
+        for varname, array in dictionary.items()
+    }
+
+
 def _update_with_overlap(
     *args,
     func: UpdateCallable,
@@ -138,14 +155,8 @@ def _update_with_overlap(
                 zds[varname], dim, indices)]
             for varname, array in dictionary.items()
         }
-    fs.pipe_file(
-        join_path(path, UPDATE_FILE),
-        pickle.dumps({
-            varname:
-            array.compute()
-            if isinstance(array, dask.array.core.Array) else array
-            for varname, array in dictionary.items()
-        }))
+    fs.pipe_file(join_path(path, UPDATE_FILE),
+                 pickle.dumps(_compute(dictionary)))
 
 
 def _store_update(
@@ -328,7 +339,8 @@ def _wrap_update_func(
         for partition in partitions:
             zds: dataset.Dataset = _load_dataset(delayed, fs, immutable,
                                                  partition, selected_variables)
-            dictionary: dict[str, ArrayLike] = func(zds, *args, **kwargs)
+            dictionary: dict[str, ArrayLike] = _compute(
+                func(zds, *args, **kwargs))
             tuple(
                 update_zarr_array(  # type: ignore[func-returns-value]
                     dirname=join_path(partition, varname),
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index f0a3eca..1ee5f90 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -25,7 +25,7 @@ import numpy
 import zarr
 
 from .. import collection, dataset, meta
-from ..collection.detail import _update_with_overlap
+from ..collection.detail import _compute, _update_with_overlap
 from ..fs_utils import get_fs, join_path
 from ..storage import (
     DIMENSIONS,
@@ -370,7 +370,8 @@ def _wrap_update_func(
         """Wrap the function to be applied to the dataset."""
         for zds, partition in parameters:
             # Applying function on partition's data
-            dictionary: dict[str, ArrayLike] = func(zds, *args, **kwargs)
+            dictionary: dict[str, ArrayLike] = _compute(
+                func(zds, *args, **kwargs))
             tuple(
                 update_zarr_array(  # type: ignore[func-returns-value]
                     dirname=join_path(base_dir, partition, varname),
-- 
2.43.0


From 8defdd630e4838deca84d7f580754a76f2ffbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:40 +0000
Subject: [PATCH 45/62] fix: write the variables having an empty dimension

---
 zcollection/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index abdd405..6be1667 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -93,7 +93,8 @@ def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
         **kwargs: Additional keyword arguments to pass to the `zarr.create`
             function.
     """
-    chunks: list[tuple[int, ...]] = [chunk[0] for chunk in array.chunks]
+    # A chunk has at least one element, even if the dimension is empty.
+    chunks: list[int] = [max(chunk[0], 1) for chunk in array.chunks]
     target: dask.array.core.Array = zarr.create(
         shape=array.shape,
         chunks=chunks,  # type: ignore[arg-type]
-- 
2.43.0


From 5ef7bb945359b561339fee0e816175fddd808dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:55 +0000
Subject: [PATCH 46/62] fix: keep arrays when selecting data in a dataset
 holding variables without dimension

---
 zcollection/variable/abc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index cfef892..d8a2024 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -401,9 +401,11 @@ class Variable(IVariable):
         Returns:
             The new variable
         """
+        # The ellipsis guarantees that the result is an array, even if the
+        # variable has no dimension.
         return new_variable(type(self),
                             name=self.name,
-                            array=self.array[key],
+                            array=self.array[(*key, ...)],
                             dimensions=self.dimensions,
                             attrs=self.attrs,
                             compressor=self.compressor,
-- 
2.43.0


From 04949950b51a21858765a638ce987c857ced4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:19 +0000
Subject: [PATCH 47/62] fix: keep the values of the variables as they are when
 persisting a dataset

---
 zcollection/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 31f1525..79716a0 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -660,7 +660,7 @@ class Dataset:
                 var.array = var.array.map_blocks(CompressedArray,
                                                  fill_value=var.fill_value)
         arrays: Iterable[NDArray] = dask.base.persist(
-            *tuple(item.data for item in self.variables.values()), **kwargs)
+            *tuple(item.array for item in self.variables.values()), **kwargs)
         variables: OrderedDict[str, Variable] = self.variables
         for name, array in zip(self.variables, arrays):
             variables[name].array = array
-- 
2.43.0


From 8822386ff815a2d301bf247ce89e2c3f9e268384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 48/62] fix: keep the mask of a masked array when compressing
 it

---
 zcollection/compressed_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 109247b..8c8cfd2 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -47,6 +47,11 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         *args,
         **kwargs,
     ):
+        if isinstance(array, numpy.ma.MaskedArray):
+            # The masked values are identified by the fill value.
+            if kwargs.get('fill_value', None) is None:
+                kwargs['fill_value'] = array.fill_value
+            array = array.filled(kwargs['fill_value'])
         self._fill_value = kwargs.get('fill_value', None)
         if isinstance(array, numpy.ndarray):
             self._array = zarr.array(array, *args, **kwargs)
-- 
2.43.0


From e4b8f2e37870ce6547f6dba7c5f778d392f22bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 49/62] fix: keep the fill value when rechunking a compressed
 array

---
 zcollection/compressed_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 8c8cfd2..1bee69f 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -180,12 +180,14 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The rechunked array.
         """
-        return CompressedArray(
+        result = CompressedArray(
             zarr.array(self._array,
                        chunks=chunks,
                        compressor=self.compressor,
                        fill_value=self.fill_value,
                        filters=self.filters))
+        result._fill_value = self._fill_value
+        return result
 
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
-- 
2.43.0


From ef15a8b05508de386ef7f984900f4d5e141e8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 50/62] fix: use the own fill value of each operand of a
 compressed array

The operands may also be any object supported by numpy: scalars, dates,
strings, sequences.
---
 zcollection/compressed_array.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 1bee69f..3260b6d 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -209,18 +209,10 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     def _cast(self, obj: Any) -> Any:
         """Cast an object to a value compatible with numpy.ndarray."""
         if isinstance(obj, CompressedArray):
-            #: pylint: disable=protected-access
-            # obj is a CompressedArray, we can access its _array attribute.
-            return obj._array[...] if self._fill_value is None else \
-                numpy.ma.masked_equal(obj._array[...], self._fill_value)
-            #: pylint: enable=protected-access
-        if isinstance(obj, numpy.ndarray):
-            return obj
+            return obj.__array__()
         if isinstance(obj, dask.array.core.Array):
-            return obj.compute()
-        if isinstance(obj, (float, int, bool)):
-            return obj
-        raise TypeError(f'Cannot cast {type(obj)} to array like object')
+            return self._cast(obj.compute())
+        return obj
 
     def __array_function__(
         self,
-- 
2.43.0


From df75fcfd45375ce3a3fcf448bf0631aa22b35b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 51/62] fix: decompress the arrays nested in the arguments of
 numpy functions

numpy.concatenate, for example, recursed endlessly.
---
 zcollection/compressed_array.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 3260b6d..118060a 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -26,6 +26,18 @@ from .type_hints import DType, NDArray, NDMaskedArray
 Array = Union[NDArray, NDMaskedArray]
 
 
+def _decompress(obj: Any) -> Any:
+    """Decompress the compressed arrays contained in the arguments of a numpy
+    function."""
+    if isinstance(obj, CompressedArray):
+        return obj.__array__()
+    if type(obj) in (list, tuple):
+        return type(obj)(_decompress(item) for item in obj)
+    if type(obj) is dict:
+        return {key: _decompress(item) for key, item in obj.items()}
+    return obj
+
+
 class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     """Hold a compressed array and provide a numpy.ndarray interface to it.
 
@@ -232,11 +244,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the numpy function.
         """
-        arrays: list[NDArray] = [
-            item.__array__() if isinstance(item, CompressedArray) else item
-            for item in args
-        ]
-        return func(*arrays, **kwargs)
+        return func(*_decompress(args), **_decompress(kwargs))
 
     def __array_ufunc__(
         self,
-- 
2.43.0


From ddba99a85f78348c7301c1225f7481fb17733c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 52/62] fix: support the methods of the ufuncs and their
 outputs on compressed arrays

An in-place operator on a compressed array recursed until the
interpreter crashed.
---
 zcollection/compressed_array.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 118060a..739ba33 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -264,15 +264,25 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the ufunc.
         """
-        inputs = [self._cast(arg) for arg in args]
+        if method == 'at':
+            return NotImplemented
 
-        if method in ['__call__', 'reduce']:
-            result = getattr(ufunc, method)(*inputs, **kwargs)
-            if numpy.isscalar(result):
-                return result
+        inputs = [self._cast(arg) for arg in args]
+        outputs: tuple = kwargs.pop('out', ())
+        if outputs:
+            kwargs['out'] = tuple(self._cast(item) for item in outputs)
+        if 'where' in kwargs:
+            kwargs['where'] = self._cast(kwargs['where'])
+
+        result = getattr(ufunc, method)(*inputs, **kwargs)
+        if not any(isinstance(item, CompressedArray) for item in outputs):
             return result
 
-        return NotImplemented
+        # Compress the values written in the decompressed outputs.
+        for item, values in zip(outputs, kwargs['out']):
+            if isinstance(item, CompressedArray):
+                item[...] = values
+        return outputs[0] if len(outputs) == 1 else outputs
 
     def astype(self, astype_dtype=None, **_kwargs) -> Array:
         """Return a copy of the array with the specified data type.
-- 
2.43.0


From e25faef0ab69791ef8c891336e61108a1e9a072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 53/62] fix: index compressed arrays like numpy arrays

---
 zcollection/compressed_array.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 739ba33..9258339 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -38,6 +38,14 @@ def _decompress(obj: Any) -> Any:
     return obj
 
 
+def _is_zarr_selection(key: Any) -> bool:
+    """Return True if Zarr makes the given selection like numpy."""
+    return all(
+        item is Ellipsis or type(item) is int or isinstance(item, slice) and
+        (item.step is None or item.step > 0)
+        for item in (key if isinstance(key, tuple) else (key, )))
+
+
 class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     """Hold a compressed array and provide a numpy.ndarray interface to it.
 
@@ -103,6 +111,8 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The data for the key.
         """
+        if not _is_zarr_selection(key):
+            return self.__array__()[key]
         values: Array = self._array[key]
         if self._fill_value is not None:
             values = numpy.ma.masked_equal(values, self._fill_value)
@@ -119,7 +129,15 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
             key: The key to set.
             value: The value to set.
         """
-        self._array[key] = value
+        value = _decompress(value)
+        if isinstance(value, numpy.ma.MaskedArray):
+            value = value.filled(self._fill_value)
+        if _is_zarr_selection(key):
+            self._array[key] = value
+        else:
+            values: NDArray = self._array[...]
+            values[key] = value
+            self._array[...] = values
 
     @property
     def ndim(self) -> int:
-- 
2.43.0


From f791ade898e8d1e5584b78bda016a3e6cd187f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:02 +0000
Subject: [PATCH 54/62] fix: concatenate compressed and uncompressed blocks

---
 zcollection/compressed_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 9258339..44952be 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -342,8 +342,8 @@ def dask_array_from_compressed_array(
 @dask.array.dispatch.concatenate_lookup.register(CompressedArray)
 def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
     dtype: DType | None = kwargs.get('dtype', None)
-    arr: list[NDArray] = [item.__array__(dtype=dtype) for item in arrays]
-    if any(tuple(item.fill_value is not None for item in arrays)):
+    arr: list[Array] = [numpy.asanyarray(item, dtype=dtype) for item in arrays]
+    if any(isinstance(item, numpy.ma.MaskedArray) for item in arr):
         return numpy.ma.concatenate(arr, **kwargs)
     return numpy.concatenate(arr, **kwargs)
 
-- 
2.43.0


From 9d516fe97b6ce254dc3acec637b1e7ec33e4ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 55/62] fix: modify the compressed scalars, that Zarr reads as
 read-only arrays

---
 zcollection/compressed_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 44952be..8a1b9a5 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -135,7 +135,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         if _is_zarr_selection(key):
             self._array[key] = value
         else:
-            values: NDArray = self._array[...]
+            values: NDArray = numpy.array(self._array[...])
             values[key] = value
             self._array[...] = values
 
@@ -288,7 +288,9 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         inputs = [self._cast(arg) for arg in args]
         outputs: tuple = kwargs.pop('out', ())
         if outputs:
-            kwargs['out'] = tuple(self._cast(item) for item in outputs)
+            kwargs['out'] = tuple(
+                numpy.array(item, subok=True) if isinstance(
+                    item, CompressedArray) else item for item in outputs)
         if 'where' in kwargs:
             kwargs['where'] = self._cast(kwargs['where'])
 
-- 
2.43.0


From b9621d588e72c5d1ae18dd43d8d0ff0c75c545d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 56/62] fix: keep the values of a dataset when persisting it
 compressed

---
 zcollection/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 79716a0..eb431eb 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -657,8 +657,9 @@ class Dataset:
             return self
         if compress:
             for var in self.variables.values():
-                var.array = var.array.map_blocks(CompressedArray,
-                                                 fill_value=var.fill_value)
+                # Nothing to compress in a scalar.
+                if var.array.ndim:
+                    var.array = var.array.map_blocks(CompressedArray)
         arrays: Iterable[NDArray] = dask.base.persist(
             *tuple(item.array for item in self.variables.values()), **kwargs)
         variables: OrderedDict[str, Variable] = self.variables
-- 
2.43.0


From 22c15bd339a657c4cf56ac5f6c0a9e6ffea01096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 57/62] fix: compute a numpy array from a variable made of a
 compressed block

---
 zcollection/variable/delayed_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index c4745cf..884a8d3 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -261,6 +261,8 @@ class DelayedArray(Variable):
             if 'cannot reshape' in msg or 'buffer too small' in msg:
                 raise ModifiedVariableError() from exc
             raise
+        # A variable made of a single compressed block is not a numpy array.
+        values = numpy.asanyarray(values)
         return values if self.fill_value is None else numpy.ma.masked_equal(
             values, self.fill_value)
 
-- 
2.43.0


From fc78beeaa4e73349437a9853e131dc1f5948036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 58/62] fix: apply the mask of a compressed array in the
 operations with a masked array

---
 zcollection/compressed_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 8a1b9a5..6ee8f2c 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -219,6 +219,11 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         result._fill_value = self._fill_value
         return result
 
+    @property
+    def _mask(self) -> Any:
+        """The mask of the array, which numpy.ma reads in its operands."""
+        return numpy.ma.getmask(self.__array__())
+
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
 
-- 
2.43.0


From 9d370f404c9bfd2c708de922b8f29e044fc77954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 59/62] fix: wait for the end of a copy before reporting its
 failure

The batches still running when one of them failed continued to write in the
target after the exception was raised.
---
 zcollection/collection/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index e5b114a..57f248e 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -825,7 +825,8 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args, pure=False))
+        storage.execute_transaction(client, sync.NoSync(),
+                                    client.map(worker_task, args, pure=False))
         filesystem.makedirs(target, exist_ok=True)
         # The variables that are not partitioned.
         if self._immutable is not None and self.fs.exists(self._immutable):
-- 
2.43.0


From a1b0757b1ef7c463b2e0b9158caeae5ad6a03b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:07 +0000
Subject: [PATCH 60/62] fix: open a collection or a view whose path ends with a
 slash

The path given to open_collection and open_view was not normalized before
looking for the configuration file: on the memory file system a collection
created with the path 'dir/' could not be opened with the same path.
---
 zcollection/collection/__init__.py | 2 +-
 zcollection/view/__init__.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 57f248e..f18ec3d 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -293,7 +293,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Opening collection: %r', path)
         fs: fsspec.AbstractFileSystem = fs_utils.get_fs(filesystem)
-        config: str = cls._config(path)
+        config: str = cls._config(fs_utils.normalize_path(fs, path))
         if not fs.exists(config):
             raise ValueError(f'zarr collection not found at path {path!r}')
         with fs.open(config) as stream:
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 55b1cad..7b71dff 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -183,7 +183,7 @@ class View:
         """
         _LOGGER.info('Opening view %r', path)
         fs: fsspec.AbstractFileSystem = fs_utils.get_fs(filesystem)
-        config: str = cls._config(path)
+        config: str = cls._config(fs_utils.normalize_path(fs, path))
         if not fs.exists(config):
             raise ValueError(f'zarr view not found at path {path!r}')
         with fs.open(config) as stream:
-- 
2.43.0


From 48780c378f7ee5eaff6da28a9711bb313688f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:35 +0000
Subject: [PATCH 61/62] fix: synchronize a view after an interrupted
 synchronization

A partition of the view left without its checksum made is_synced and sync
fail for ever.
---
 zcollection/view/detail.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 1ee5f90..efba8a4 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -495,7 +495,7 @@ def _write_checksum_array(
 def _load_checksum_array(
     partition: str,
     fs: fsspec.AbstractFileSystem,
-) -> zarr.Array:
+) -> zarr.Array | None:
     """Load the checksum of a partition from a file.
 
     Args:
@@ -503,11 +503,17 @@ def _load_checksum_array(
         fs: The file system used to access the variables in the view.
 
     Returns:
-        The checksum of the partition and the axis of the reference partition.
+        The checksum of the partition and the axis of the reference partition,
+        or None if an interrupted synchronization left the partition without
+        its checksum.
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
     mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    return zarr.open_array(mapper)
+    try:
+        array: zarr.Array = zarr.open_array(mapper, mode='r')
+    except zarr.errors.ArrayNotFoundError:
+        return None
+    return array if CHECKSUM_ATTR in array.attrs else None
 
 
 def _write_checksum(
@@ -640,19 +646,19 @@ def _sync(
     # The partition exists, so we check if it is synced.
     partition_ref: str = join_path(view_ref.partition_properties.dir,
                                    partition)
-    array: zarr.Array = _load_checksum_array(partition_view, fs)
+    array: zarr.Array | None = _load_checksum_array(partition_view, fs)
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
-    if axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
+    if array is None or axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
         # If the checksums are different, the partition is not synced. we load
         # the axis of partition's view to check if the partition is a subset of
         # the reference partition.
-        axis_view: NDArray = array[:]
-        if axis_ref.array.size > axis_view.size and numpy.all(
-                axis_view == axis_ref.array[:axis_view.size]):
+        axis_view: NDArray | None = array[:] if array is not None else None
+        if (axis_view is not None and axis_ref.array.size > axis_view.size
+                and numpy.all(axis_view == axis_ref.array[:axis_view.size])):
             # The view partition is a subset of the reference partition.
             # So we extend the view partition to the reference partition.
             # fs_invalid_cache is done by _extend_partition
-- 
2.43.0


From 3e1d16365af95feb7294e1403910815d29ca946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:35 +0000
Subject: [PATCH 62/62] fix: keep the configuration of a collection or a view
 when rewriting it fails

The file was truncated before the new content was written.
---
 zcollection/collection/__init__.py |  3 +--
 zcollection/fs_utils.py            | 32 ++++++++++++++++++++++++++++++
 zcollection/view/__init__.py       |  3 +--
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index f18ec3d..ca72dae 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -254,8 +254,7 @@ class Collection(ReadOnlyCollection):
 
         self.fs.makedirs(base_dir, exist_ok=True)
 
-        with self.fs.open(config, mode='w') as stream:
-            stream.write(params)  # type: ignore[arg-type]
+        fs_utils.write_text(self.fs, config, params)
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 4728300..0c11f04 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -12,6 +12,7 @@ from typing import Any, Iterator, Sequence
 import os
 
 import fsspec
+import fsspec.implementations.local
 
 #: Path separator
 SEPARATOR = '/'
@@ -108,6 +109,37 @@ def fs_walk(
         yield from fs_walk(fs, item, sort=sort)
 
 
+def write_text(
+    fs: fsspec.AbstractFileSystem,
+    path: str,
+    text: str,
+) -> None:
+    """Write a text file, replacing the existing one only when the new one is
+    complete.
+
+    Args:
+        fs: The file system that the file is stored on.
+        path: The path of the file.
+        text: The content of the file.
+    """
+    if not isinstance(fs, fsspec.implementations.local.LocalFileSystem):
+        with fs.open(path, mode='w') as stream:
+            stream.write(text)  # type: ignore[arg-type]
+        return
+
+    # Opening an existing file truncates it: its content would be lost if the
+    # writing is interrupted.
+    temp: str = f'{path}.new'
+    try:
+        with fs.open(temp, mode='w') as stream:
+            stream.write(text)  # type: ignore[arg-type]
+        os.replace(fs._strip_protocol(temp), fs._strip_protocol(path))
+    except BaseException:
+        if fs.exists(temp):
+            fs.rm(temp)
+        raise
+
+
 def copy_file(
     source: str,
     target: str,
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 7b71dff..ac142ed 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -156,8 +156,7 @@ class View:
                 },
             },
             indent=4)
-        with self.fs.open(config, mode='w') as stream:
-            stream.write(params)  # type: ignore[arg-type]
+        fs_utils.write_text(self.fs, config, params)
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From dde07a86aa9b2072c8e878c85285c006c05e3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 01/52] fix: merge_time_series drops the record that follows
 the inserted period

The end of a period is one unit past its last date: a record located exactly
one unit after the inserted data was dropped (and raised IndexError when it
was the last one).
---
 zcollection/merging/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..a25405c 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -56,7 +56,7 @@ def _merge_time_series(
         # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
+            existing_axis > intersection.last)[0]  # type: ignore
         # pylint: enable=comparison-with-callable
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
@@ -81,7 +81,7 @@ def _merge_time_series(
 
     # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     # pylint: enable=comparison-with-callable
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
-- 
2.43.0


From 4ef59fb3440f5007ae76a384edc89e0877bb0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:26 +0000
Subject: [PATCH 02/52] fix: run the tasks of a transaction once, inside its
 critical section

The tasks were submitted to the cluster (client.map, persist) before the
synchronizer was acquired, so the modifications were done without holding the
lock. They were also submitted as pure functions: repeating an operation while
the futures of the previous one were alive (e.g. held by the traceback of a
failure) returned the previous outcome without running anything.
---
 zcollection/collection/__init__.py | 41 ++++++++-------
 zcollection/dask_utils.py          | 21 +++++++-
 zcollection/storage.py             |  1 +
 zcollection/view/__init__.py       | 81 ++++++++++++++++--------------
 zcollection/view/detail.py         |  3 +-
 5 files changed, 89 insertions(+), 58 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..8804cdd 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -18,7 +18,6 @@ import os
 import types
 import warnings
 
-import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
@@ -464,7 +463,8 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+            dask_utils.delayed_map('drop', self.fs.rm, folders,
+                                   recursive=True))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -581,7 +581,7 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+            dask_utils.delayed_map('update', local_func, batches))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -618,11 +618,13 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map('drop_variable',
+                                   storage.del_zarr_array,
+                                   tuple(self.partitions(lock=True)),
+                                   name=variable,
+                                   fs=self.fs))
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -675,15 +677,15 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer,
+                dask_utils.delayed_map('add_variable',
+                                       storage.add_zarr_array,
+                                       tuple(self.partitions(lock=True)),
+                                       variable=variable,
+                                       template=template.name,
+                                       fs=self.fs,
+                                       chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
             raise
@@ -744,7 +746,7 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        client.gather(client.map(worker_task, args, pure=False))
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
@@ -781,7 +783,8 @@ class Collection(ReadOnlyCollection):
             _check_partition,
             partitions,
             fs=self.fs,
-            partitioning_strategy=self.partitioning)
+            partitioning_strategy=self.partitioning,
+            pure=False)
         invalid_partitions: list[str] = []
         for item in dask.distributed.as_completed(futures):
             partition, valid = item.result()  # type: ignore
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..3c660a4 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -8,7 +8,7 @@ Dask utilities
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import itertools
 import uuid
 
@@ -84,6 +84,25 @@ def split_sequence(sequence: Sequence[Any],
     yield from (sequence[item:div[ix + 1]] for ix, item in enumerate(div[:-1]))
 
 
+def delayed_map(name: str, func: Callable, sequence: Iterable[Any], /,
+                **kwargs) -> list[dask_Delayed]:
+    """Create the lazy tasks applying a function on each item of a sequence.
+
+    Nothing is submitted to the cluster until the tasks are computed. Each call
+    creates new tasks: the result of a previous execution is never reused.
+
+    Args:
+        name: name of the function
+        func: function to apply
+        sequence: The items to process.
+        **kwargs: The keyword arguments to pass to the function.
+
+    Returns:
+        The lazy tasks.
+    """
+    return [simple_delayed(name, func)(item, **kwargs) for item in sequence]
+
+
 def simple_delayed(name: str, func: Callable) -> dask_Delayed:
     """Create a simple delayed function.
 
diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..7000913 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -261,6 +261,7 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    pure=False,
                 )
                 execute_transaction(
                     client,
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..371bd73 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,9 +118,10 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            dask_utils.delayed_map(
+                'write_checksum',
                 _write_checksum,
-                tuple(args),
+                args,
                 base_dir=self.base_dir,
                 view_ref=self.view_ref,
                 fs=self.fs,
@@ -283,20 +284,22 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                dask_utils.delayed_map('add_variable',
+                                       _create_zarr_array,
+                                       args,
+                                       base_dir=self.base_dir,
+                                       fs=self.fs,
+                                       template=template.name,
+                                       variable=variable))
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                dask_utils.delayed_map('drop_variable',
+                                       _drop_zarr_zarr,
+                                       tuple(self.partitions()),
+                                       fs=self.fs,
+                                       variable=variable.name,
+                                       ignore_errors=True))
             raise
 
         self._write_config()
@@ -328,10 +331,11 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            dask_utils.delayed_map('drop_variable',
+                                   _drop_zarr_zarr,
+                                   tuple(self.partitions()),
+                                   fs=self.fs,
+                                   variable=variable.name))
 
     def load(
         self,
@@ -385,7 +389,8 @@ class View:
             selected_variables=self.view_ref.metadata.select_variables(
                 selected_variables),
             view_ref=client.scatter(self.view_ref),
-            variables=self.metadata.select_variables(selected_variables))
+            variables=self.metadata.select_variables(selected_variables),
+            pure=False)
 
         # The load function returns the path to the partitions and the loaded
         # datasets. Only the loaded datasets are retrieved here and filter None
@@ -527,12 +532,12 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map('update',
+                                   wrap_function,
+                                   batchs,
+                                   base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -740,13 +745,14 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            dask_utils.delayed_map('is_synced',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata,
+                                   dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -791,12 +797,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            dask_utils.delayed_map('sync',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..307bbca 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -280,7 +280,8 @@ def _load_datasets_list(
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
         view_ref=client.scatter(view_ref),
-        variables=metadata.select_variables(selected_variables))
+        variables=metadata.select_variables(selected_variables),
+        pure=False)
 
     return filter(lambda item: item is not None,
                   client.gather(futures))  # type: ignore[arg-type]
-- 
2.43.0


From df0fcf25f1e5422bd1e5c4b21c58f87d8f2008bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:31 +0000
Subject: [PATCH 03/52] fix: reject the non-monotonic keys that return to a
 previous value

Without Dask, keys such as (1, 2, 1) were accepted and the trailing records
were stored in the partition of another key.
---
 zcollection/partitioning/abc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..8fba7aa 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -121,8 +121,13 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     index: NDArray
     indices: NDArray
 
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    if not numpy.all(numpy.diff(inverse.ravel()) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From c42b6c2cfdb161ef616661d30ffb963c6b360a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:31 +0000
Subject: [PATCH 04/52] fix: parse partitions of collections whose path looks
 like a partition

The greedy search matched the keys found in the path of the collection
(e.g. /data/year=2020/collection/year=1999).
---
 zcollection/partitioning/abc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 8fba7aa..f8bfe37 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -265,7 +265,10 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        # The scheme ends the path of a partition. What precedes it (the path of
+        # the collection) can contain similar expressions.
+        return re.compile('.'.join(f'({item})=(-?\\d+)'
+                                   for item in self._keys()) + '$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From 71852f61d2e4d5d94481cb4af0ae1018d0b247f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 05/52] fix: splitting an empty sequence raises
 ZeroDivisionError

Updating or copying a selection without partition failed.
---
 zcollection/dask_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 3c660a4..7b59f8a 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -68,11 +68,12 @@ def split_sequence(sequence: Sequence[Any],
     Returns:
         Iterator of sequences.
     """
-    sections = len(sequence) if sections is None else sections
-    if sections <= 0:
+    if sections is not None and sections <= 0:
         raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
-    sections = min(sections, length)
+    if length == 0:
+        return
+    sections = length if sections is None else min(sections, length)
 
     size: int
     extras: int
-- 
2.43.0


From 8706666f138d729c628f3f409771201ccb7eb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:23 +0000
Subject: [PATCH 06/52] fix: hide the temporary directory written while merging
 a partition

The directory was created at the root of the path stripped of every component
containing '=' (possibly outside the collection) under a name which was then
taken for a partition: after an interruption the collection could no longer be
listed.
---
 zcollection/merging/__init__.py | 14 +++++---------
 zcollection/partitioning/abc.py |  8 ++++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..4b60074 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -87,12 +87,6 @@ def _rename(
     fs.mv(source, dest, recursive=True)
 
 
-def _extract_root_dirname(dirname: str, sep: str) -> str:
-    """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
-    return sep.join(parts)
-
-
 def _update_fs(
     dirname: str,
     zds: dataset.Dataset,
@@ -109,10 +103,12 @@ def _update_fs(
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
+    # temporary directory is the hash of the partition name. It's a hidden
+    # directory, located beside the partition, so that it is not taken for a
+    # partition.
     temp: str = fs_utils.join_path(
-        _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
+        dirname.rstrip(fs.sep).rpartition(fs.sep)[0],
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index f8bfe37..dd3eb03 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -199,11 +199,15 @@ def list_partitions(
                                        root=False)
         return StopIteration()
 
+    # Hidden directories are not partitions.
+    items = filter(
+        lambda item: not item.rstrip('/').split(fs.sep)[-1].startswith('.'),
+        fs.ls(path, detail=False))
     if depth == 0:
-        yield from fs.ls(path, detail=False)
+        yield from items
         return StopIteration()
 
-    for item in fs.ls(path, detail=False):
+    for item in items:
         yield from list_partitions(fs, item, depth=depth - 1, root=False)
     return StopIteration()
 
-- 
2.43.0


From bfa4f6be7f54146db1d1be691be512d21f77801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:38 +0000
Subject: [PATCH 07/52] fix: selection of partitions when the path of the
 collection occurs in their names

---
 zcollection/collection/abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..d9bde0b 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -361,8 +361,8 @@ class ReadOnlyCollection:
 
         yield from (self._relative_path(item) if relative else item
                     for item in partitions
-                    if (item != self._immutable and self._is_selected(
-                        item.replace(base_dir, '').split(sep), expr)))
+                    if (item != self._immutable
+                        and self._is_selected(item.split(sep), expr)))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
-- 
2.43.0


From 4957ad9a49e974956c96b51eda6ad24be927355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:46 +0000
Subject: [PATCH 08/52] fix: copy the non-partitioned variables and the empty
 selections

Collection.copy ignored the variables stored outside the partitions, and failed
when no partition was selected.
---
 zcollection/collection/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 8804cdd..47566a3 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -747,7 +747,17 @@ class Collection(ReadOnlyCollection):
             tuple(map(lambda arg: partial(*arg), args))
 
         client.gather(client.map(worker_task, args, pure=False))
-        # Then the remaining files in the root directory (config, metadata,
+        filesystem.makedirs(target, exist_ok=True)
+        # Then the variables that are not partitioned
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            fs_utils.copy_tree(
+                self._immutable,
+                fs_utils.join_path(
+                    target,
+                    os.path.relpath(self._immutable,
+                                    self.partition_properties.dir)), self.fs,
+                filesystem)
+        # And the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
             item['name']
-- 
2.43.0


From be5893cdbd3252c926d8598dd86584bf5f541e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 09/52] fix: update modifies the list of selected variables of
 the caller

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 47566a3..eadd758 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -545,8 +545,10 @@ class Collection(ReadOnlyCollection):
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
-                set(variables) - set(selected_variables))
+            selected_variables = [
+                *selected_variables,
+                *(set(variables) - set(selected_variables))
+            ]
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
                      ', '.join(repr(item) for item in variables))
-- 
2.43.0


From e2f17674cee7e6ba598025b895846dcc4f881650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:53 +0000
Subject: [PATCH 10/52] fix: partitions inserted by remote workers are not seen
 by the client

---
 zcollection/collection/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index eadd758..bf748ba 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -409,8 +409,14 @@ class Collection(ReadOnlyCollection):
             ]
             storage.execute_transaction(client, self.synchronizer, futures)
 
-        return (fs_utils.join_path(*((self.partition_properties.dir, ) + item))
-                for item, _ in partitions)
+        inserted = [
+            fs_utils.join_path(*((self.partition_properties.dir, ) + item))
+            for item, _ in partitions
+        ]
+        # The partitions are written by the workers: forget the listings known
+        # by the file system of this process.
+        tuple(map(self.fs.invalidate_cache, inserted))
+        return iter(inserted)
 
     # pylint: disable=method-hidden
     def drop_partitions(
-- 
2.43.0


From 39ae9b8de39bd9e0811dbf7c286be055481b7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:19 +0000
Subject: [PATCH 11/52] fix: dropping the axis makes the collection unreadable

---
 zcollection/collection/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index bf748ba..f3df664 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -615,6 +615,9 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-- 
2.43.0


From ac29412be8c588d0b8737a35d977158be9696a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:11 +0000
Subject: [PATCH 12/52] fix: restore a local partition that cannot be replaced

---
 zcollection/merging/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 4b60074..dd27aad 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Protocol
 import hashlib
+import os
 import shutil
 
 import fsspec
@@ -78,9 +79,20 @@ def _rename(
         # fspec implementation of the local file system, copy the source
         # directory to the destination directory and remove the source
         # directory. This is not efficient. So we use the shutil
-        # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        # implementation to rename the directory. The existing directory is
+        # set aside until the new one has taken its place, and restored if it
+        # cannot.
+        backup = f'{source}.old'
+        shutil.rmtree(backup, ignore_errors=True)
+        if os.path.exists(dest):
+            os.rename(dest, backup)
+        try:
+            shutil.move(source, dest)
+        except OSError:
+            if os.path.exists(backup):
+                os.rename(backup, dest)
+            raise
+        shutil.rmtree(backup, ignore_errors=True)
         return
 
     fs.rm(dest, recursive=True)
-- 
2.43.0


From 16e4b0f411aebc1d701aeccf9c9c3e54b1effa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:02 +0000
Subject: [PATCH 13/52] fix: an interrupted insertion cannot be repeated

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..7cd94e4 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -430,7 +430,7 @@ def _insert(
     # The current partition does not exist, so we need to create
     # it and insert the dataset.
     try:
-        zarr.storage.init_group(store=fs.get_mapper(dirname))
+        zarr.storage.init_group(store=fs.get_mapper(dirname), overwrite=True)
 
         # The synchronization is done by the caller.
         write_zarr_group(zds.isel(indexer), dirname, fs, sync.NoSync())
-- 
2.43.0


From d92b0850fc04438e2ddcb5bda6a9538b5e6e3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:32 +0000
Subject: [PATCH 14/52] fix: the schema keeps a variable whose addition or
 removal could not be saved

---
 zcollection/collection/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index f3df664..c989b4a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -636,8 +636,14 @@ class Collection(ReadOnlyCollection):
                                    tuple(self.partitions(lock=True)),
                                    name=variable,
                                    fs=self.fs))
+        variables: dict[str, meta.Variable] = dict(self.metadata.variables)
         del self.metadata.variables[variable]
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            # The variable is still described by the stored configuration.
+            self.metadata.variables = variables
+            raise
 
     def add_variable(
         self,
@@ -673,7 +679,11 @@ class Collection(ReadOnlyCollection):
             raise ValueError(
                 'The new variable must use the partitioning axis.')
         self.metadata.add_variable(variable)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            del self.metadata.variables[variable.name]
+            raise
 
         # Remove the attribute from the variable. The attribute will be added
         # from the collection metadata.
-- 
2.43.0


From 9185fcf436f3a7dfc3077500f0fdbd62389f85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:28 +0000
Subject: [PATCH 15/52] fix: an interrupted insertion must not overwrite a file

---
 zcollection/collection/detail.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 7cd94e4..faa12f3 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -430,7 +430,9 @@ def _insert(
     # The current partition does not exist, so we need to create
     # it and insert the dataset.
     try:
-        zarr.storage.init_group(store=fs.get_mapper(dirname), overwrite=True)
+        # The directory left by an interrupted insertion is overwritten.
+        zarr.storage.init_group(store=fs.get_mapper(dirname),
+                                overwrite=fs.isdir(dirname))
 
         # The synchronization is done by the caller.
         write_zarr_group(zds.isel(indexer), dirname, fs, sync.NoSync())
-- 
2.43.0


From 3be8794b1aada109ae0b9d637346a38ef221674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 16/52] fix: the configuration is lost when it cannot be
 written

---
 zcollection/collection/__init__.py |  3 +--
 zcollection/fs_utils.py            | 27 +++++++++++++++++++++++++++
 zcollection/view/__init__.py       | 23 ++++++++++-------------
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c989b4a..fa4c479 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -242,8 +242,7 @@ class Collection(ReadOnlyCollection):
             'partitioning': self.partitioning.get_config(),
         }
 
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+        fs_utils.write_text(self.fs, config, json.dumps(params, indent=4))
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 4728300..de314ad 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -12,6 +12,7 @@ from typing import Any, Iterator, Sequence
 import os
 
 import fsspec
+import fsspec.implementations.local
 
 #: Path separator
 SEPARATOR = '/'
@@ -43,6 +44,32 @@ def normalize_path(fs: fsspec.AbstractFileSystem, path: str) -> str:
     return path
 
 
+def write_text(fs: fsspec.AbstractFileSystem, path: str, text: str) -> None:
+    """Write a text file, replacing the existing one.
+
+    On a local file system, the content is written beside the existing file,
+    which is kept until the new one is complete.
+
+    Args:
+        fs: file system object
+        path: path to the file to write
+        text: content of the file
+    """
+    if not isinstance(fs, fsspec.implementations.local.LocalFileSystem):
+        with fs.open(path, mode='w') as stream:
+            stream.write(text)  # type: ignore[arg-type]
+        return
+    temp: str = f'{path}.tmp'
+    try:
+        with fs.open(temp, mode='w') as stream:
+            stream.write(text)  # type: ignore[arg-type]
+        os.replace(temp, path)
+    except Exception:
+        if fs.exists(temp):
+            fs.rm(temp)
+        raise
+
+
 def get_fs(
     filesystem: fsspec.AbstractFileSystem | str | None = None
 ) -> fsspec.AbstractFileSystem:
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 371bd73..06f9dc3 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -141,19 +141,16 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(
-                {
-                    'base_dir': self.base_dir,
-                    'filters': _serialize_filters(self.filters),
-                    'metadata': self.metadata.get_config(),
-                    'view_ref': {
-                        'path': self.view_ref.partition_properties.dir,
-                        'fs': fs,
-                    },
-                },
-                stream,  # type: ignore[arg-type]
-                indent=4)
+        params: dict[str, Any] = {
+            'base_dir': self.base_dir,
+            'filters': _serialize_filters(self.filters),
+            'metadata': self.metadata.get_config(),
+            'view_ref': {
+                'path': self.view_ref.partition_properties.dir,
+                'fs': fs,
+            },
+        }
+        fs_utils.write_text(self.fs, config, json.dumps(params, indent=4))
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From 106092922f04f48031acefe1d9defc079164ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:45 +0000
Subject: [PATCH 17/52] fix: an interrupted deletion of a variable cannot be
 completed

---
 zcollection/storage.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 7000913..1a2eee6 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -394,11 +394,13 @@ def del_zarr_array(
     path: str = join_path(dirname, name)
     if fs.exists(path):
         fs.rm(path, recursive=True)
-        zarr.consolidate_metadata(
-            fs.get_mapper(dirname),  # type: ignore[arg-type]
-        )
-        # Invalidate any cached directory information.
-        fs.invalidate_cache(dirname)
+    # The metadata are consolidated even if the variable is already deleted:
+    # a previous deletion may have been interrupted before this step.
+    zarr.consolidate_metadata(
+        fs.get_mapper(dirname),  # type: ignore[arg-type]
+    )
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def add_zarr_array(
-- 
2.43.0


From a7d67d74d3862e842907ebe99b438c13742de3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:40 +0000
Subject: [PATCH 18/52] fix: a partition cannot be read once its metadata could
 not be rewritten

---
 zcollection/storage.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 1a2eee6..36e8978 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -12,6 +12,7 @@ from typing import Any, Iterable, Sequence
 import collections
 import json
 import logging
+import os
 
 import dask.array.core
 import dask.base
@@ -19,6 +20,7 @@ from dask.delayed import Delayed as dask_Delayed
 import dask.distributed
 import dask.local
 import fsspec
+import fsspec.implementations.local
 import numcodecs.abc
 import numcodecs.blosc
 import numpy
@@ -82,6 +84,28 @@ def execute_transaction(
         raise
 
 
+def _consolidate_metadata(
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Consolidate the metadata of a Zarr group.
+
+    On a local file system, the existing metadata are kept until the new ones
+    are complete: a group without metadata cannot be read.
+
+    Args:
+        dirname: The name of the dataset.
+        fs: The file system that the dataset is stored on.
+    """
+    store: fsspec.FSMap = fs.get_mapper(dirname)
+    if not isinstance(fs, fsspec.implementations.local.LocalFileSystem):
+        zarr.consolidate_metadata(store)  # type: ignore[arg-type]
+        return
+    key = '.zmetadata.tmp'
+    zarr.consolidate_metadata(store, metadata_key=key)
+    os.replace(join_path(store.root, key), join_path(store.root, '.zmetadata'))
+
+
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
              **kwargs) -> None:
     """Write a Dask array to a Zarr dataset.
@@ -215,7 +239,7 @@ def _write_meta(
             stream,  # type: ignore[arg-type]
             indent=2,
         )
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
     fs.invalidate_cache(dirname)
 
 
@@ -396,9 +420,7 @@ def del_zarr_array(
         fs.rm(path, recursive=True)
     # The metadata are consolidated even if the variable is already deleted:
     # a previous deletion may have been interrupted before this step.
-    zarr.consolidate_metadata(
-        fs.get_mapper(dirname),  # type: ignore[arg-type]
-    )
+    _consolidate_metadata(dirname, fs)
     # Invalidate any cached directory information.
     fs.invalidate_cache(dirname)
 
@@ -447,7 +469,7 @@ def add_zarr_array(
         store=store,
         filters=variable.filters)
     write_zattrs(dirname, variable, fs)
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
 
 
 def check_zarr_group(
-- 
2.43.0


From 45b6d8d6ff498d619d99f9512d187c93c4581b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:52 +0000
Subject: [PATCH 19/52] fix: validate_partitions raises on the partitions whose
 metadata are missing or data corrupted

---
 zcollection/storage.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 36e8978..16a904c 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -493,6 +493,13 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except OSError as exc:
+        # The storage failed: nothing can be said about the group. The errors
+        # of the codecs have no error number.
+        if exc.errno is not None:
+            raise
+        return False
+    except Exception:  # pylint: disable=broad-except
+        # Missing or truncated metadata, data that cannot be decoded...
         return False
     return True
-- 
2.43.0


From dba84a996e9c8329b8fc317b611a94e654c6412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 20/52] fix: a failing operation releases the lock while its
 tasks are still running

---
 zcollection/storage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 16a904c..51e197d 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -71,17 +71,17 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception, and leaving the critical section,
+            # we wait until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _consolidate_metadata(
-- 
2.43.0


From 362f6753dffb130f475197fdb951d0cef7ceaa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:34 +0000
Subject: [PATCH 21/52] fix: an update reads the values it has just written

---
 zcollection/collection/detail.py | 42 ++++++++++++++++++++------------
 zcollection/view/detail.py       |  4 +--
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index faa12f3..6dcbf2b 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -15,6 +15,7 @@ import time
 import traceback
 import types
 
+import dask.base
 import dask.utils
 import fsspec
 import zarr.storage
@@ -93,6 +94,20 @@ def _try_infer_callable(
             f'is: {execution_tb}') from exc
 
 
+def _compute_arrays(dictionary: dict[str, ArrayLike]) -> dict[str, ArrayLike]:
+    """Compute the values of the variables to update, before any of them is
+    written: the delayed ones may be read from the variables to update.
+
+    Args:
+        dictionary: The variables to update.
+
+    Returns:
+        The computed values of the variables to update.
+    """
+    arrays = dask.base.compute(*dictionary.values(), traverse=False)
+    return dict(zip(dictionary, arrays))
+
+
 def _update_with_overlap(
     *args,
     func: UpdateCallable,
@@ -126,21 +141,18 @@ def _update_with_overlap(
             zds, *args, **kwargs))
 
     if trim:
-        for varname, array in dictionary.items():
-            slices: tuple[slice, ...] = _get_slices(zds[varname], dim, indices)
-            update_zarr_array(
-                dirname=join_path(path, varname),
-                array=array[slices],  # type: ignore[index]
+        dictionary = {
+            varname: array[_get_slices(zds[varname], dim, indices)]
+            for varname, array in dictionary.items()
+        }
+    tuple(
+        map(
+            lambda items: update_zarr_array(
+                dirname=join_path(path, items[0]),
+                array=items[1],
                 fs=fs,
-            )
-    else:
-        tuple(
-            map(
-                lambda items: update_zarr_array(
-                    dirname=join_path(path, items[0]),
-                    array=items[1],
-                    fs=fs,
-                ), dictionary.items()))
+            ),
+            _compute_arrays(dictionary).items()))
 
 
 def _load_dataset(
@@ -290,7 +302,7 @@ def _wrap_update_func(
                     dirname=join_path(partition, varname),
                     array=array,
                     fs=fs,
-                ) for varname, array in dictionary.items())
+                ) for varname, array in _compute_arrays(dictionary).items())
 
     return wrap_function
 
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 307bbca..295afa2 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -25,7 +25,7 @@ import numpy
 import zarr
 
 from .. import collection, dataset, meta
-from ..collection.detail import _update_with_overlap
+from ..collection.detail import _compute_arrays, _update_with_overlap
 from ..fs_utils import get_fs, join_path
 from ..storage import (
     DIMENSIONS,
@@ -378,7 +378,7 @@ def _wrap_update_func(
                     dirname=join_path(base_dir, partition, varname),
                     array=array,
                     fs=fs,
-                ) for varname, array in dictionary.items())
+                ) for varname, array in _compute_arrays(dictionary).items())
 
     return wrap_function
 
-- 
2.43.0


From de28af4b0c8997ddd54234e16327f63adb5dcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:55 +0000
Subject: [PATCH 22/52] fix: a variable added to a view without partitions is
 lost, and a failing addition leaves it in the metadata

---
 zcollection/view/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 06f9dc3..90529f5 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -256,9 +256,9 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
@@ -267,7 +267,6 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
-            return
 
         args = filter(lambda item: item[0] in existing_partitions,
                       self.view_ref.iterate_on_records(relative=True))
@@ -288,7 +287,9 @@ class View:
                                        fs=self.fs,
                                        template=template.name,
                                        variable=variable))
+            self._write_config()
         except Exception:
+            del self.metadata.variables[variable.name]
             storage.execute_transaction(
                 client, self.synchronizer,
                 dask_utils.delayed_map('drop_variable',
@@ -298,8 +299,6 @@ class View:
                                        variable=variable.name,
                                        ignore_errors=True))
             raise
-
-        self._write_config()
         # pylint: enable=duplicate-code
 
     def drop_variable(
@@ -323,8 +322,14 @@ class View:
                                  varname)
         client: dask.distributed.Client = dask_utils.get_client()
 
+        variables: dict[str, meta.Variable] = dict(self.metadata.variables)
         variable: meta.Variable = self.metadata.variables.pop(varname)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            # The variable is still described by the stored configuration.
+            self.metadata.variables = variables
+            raise
 
         storage.execute_transaction(
             client, self.synchronizer,
-- 
2.43.0


From d92fceaec6fb530e5b95386698dc8633798f9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:55 +0000
Subject: [PATCH 23/52] fix: a synchronization of a view misses the partitions
 its filters select, and creates unreadable ones

---
 zcollection/view/__init__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 90529f5..b05df7c 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -737,13 +737,24 @@ class View:
             npartitions=npartitions)
         return bag.map(_wrap, func, datasets_list, depth, *args, **kwargs)
 
+    def _partitions_to_sync(self) -> tuple[str, ...]:
+        """Returns the partitions of the reference collection that the view
+        must contain: the ones selected by its filters and the ones already
+        present in the view."""
+        selected = set(
+            self.view_ref.partitions(filters=self.filters, relative=True))
+        return tuple(
+            item for item in self.view_ref.partitions(relative=True)
+            if item in selected
+            or self.fs.exists(fs_utils.join_path(self.base_dir, item)))
+
     def is_synced(self) -> bool:
         """Check if the view is synchronized with the underlying collection.
 
         Returns:
             True if the view is synchronized, False otherwise.
         """
-        partitions = tuple(self.view_ref.partitions(relative=True))
+        partitions = self._partitions_to_sync()
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
@@ -754,7 +765,7 @@ class View:
                                    fs=self.fs,
                                    view_ref=self.view_ref,
                                    metadata=self.metadata,
-                                   dry_run=True))
+                                   dry_run=True)) or []
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -791,9 +802,8 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
-        partitions = tuple(self.view_ref.partitions(relative=True))
+        partitions = self._partitions_to_sync()
         _LOGGER.info('%d partitions to synchronize', len(partitions))
 
         client: dask.distributed.Client = dask_utils.get_client()
@@ -805,7 +815,7 @@ class View:
                                    base_dir=self.base_dir,
                                    fs=self.fs,
                                    view_ref=self.view_ref,
-                                   metadata=self.metadata))
+                                   metadata=self.metadata)) or []
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From 00d413642ef2258f4d80b53ebcce4fe485d71825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:17 +0000
Subject: [PATCH 24/52] fix: copy without a filesystem fails instead of using
 the one of the collection

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index fa4c479..eb0bd13 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -744,7 +744,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
-- 
2.43.0


From 4efe10826fa88dc35e20d699e338abb53a637d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 25/52] fix: a view ignores the filters or the indexer, and
 cannot mix variables of different dimensions

---
 zcollection/view/__init__.py |  2 +-
 zcollection/view/detail.py   | 37 +++++++++++-------------------------
 2 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index b05df7c..042d82a 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -374,7 +374,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters=filters)))
             if len(arguments) == 0:
                 return None
         else:
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 295afa2..a5bea31 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,11 +182,13 @@ def _load_one_dataset(
     if zds is None:
         return None
 
-    # If the user has not selected any variables in the reference view. In this
-    # case, the dataset is built from all the variables selected in the view.
-    if len(zds.dimensions) == 0:
-        return dataset.Dataset(
-            [
+    # The dataset is built from the variables selected in the reference and
+    # from the variables selected in the view, which may use dimensions that
+    # are not used by the first ones.
+    zds = dataset.Dataset(
+        [
+            *zds.variables.values(),
+            *(
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
                         fs.get_mapper(join_path(base_dir, partition,
@@ -194,27 +196,10 @@ def _load_one_dataset(
                         mode='r',
                     ),
                     variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+                    delayed=delayed) for variable in variables)
+        ],
+        attrs=zds.attrs,
+        delayed=delayed)
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 815930a5e3e9c06bcd9d72bce91cc216b257ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:02 +0000
Subject: [PATCH 26/52] fix: map_overlap and update of a view fail when a
 single partition is selected

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index a5bea31..5c097cf 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -328,7 +328,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From a6ddc08e91b359b19dd891f160bb106fab68dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:00 +0000
Subject: [PATCH 27/52] fix: the operator invert of a query is ignored or fails

---
 zcollection/indexing/abc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..097cfb8 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -427,6 +427,10 @@ class Indexer(abc.ABC):
         logical_op = logical_op or 'and'
         if logical_op not in ('and', 'and_not', 'invert', 'or', 'xor'):
             raise ValueError(f'Invalid logical operator: {logical_op}')
+        # "invert" selects what the conjunction of the columns does not select.
+        invert = logical_op == 'invert'
+        if invert:
+            logical_op = 'and'
         if logical_op in ('and', 'or'):
             logical_op += '_'
         function = getattr(pyarrow.compute, logical_op)
@@ -454,6 +458,8 @@ class Indexer(abc.ABC):
                                           value, type=self._type[name]))
                 for name, value in values.items()
             ])
+            if invert:
+                mask = pyarrow.compute.invert(mask)  # type:ignore
             # pylint: disable=no-member
             table = table.filter(mask)
 
-- 
2.43.0


From 5ac45d245b26af8e36f2ba04b64a0d701bdd0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:00 +0000
Subject: [PATCH 28/52] fix: a query on a single bytes value fails

---
 zcollection/indexing/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 097cfb8..c72697a 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -441,7 +441,8 @@ class Indexer(abc.ABC):
 
         # Transform the columns values into a list if they are not iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v]
+            if isinstance(v, bytes) or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
-- 
2.43.0


From b283d5e162304053f13189404a7aa89f3ae29268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:30 +0000
Subject: [PATCH 29/52] fix: a query on entries of an index contained in others
 loses records

---
 zcollection/indexing/abc.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index c72697a..3963237 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -378,20 +378,26 @@ class Indexer(abc.ABC):
         start = table[self.START].to_numpy()
         stop = table[self.STOP].to_numpy()
 
+        # Calculate the indexes of the chunks corresponding to the partitioning
+        # keys.
+        chunks: Any = [[0], [len(table)]] + [
+            numpy.where(numpy.roll(values, 1) != values)[0]
+            for values in data.values()
+        ]
+
+        # A slice may contain the following ones: in each chunk, the stop to
+        # consider is the greatest one met so far.
+        keys = numpy.unique(numpy.concatenate(chunks))
+        stop = stop.copy()
+        for ix0, ix1 in zip(keys[:-1], keys[1:]):
+            numpy.maximum.accumulate(stop[ix0:ix1], out=stop[ix0:ix1])
+
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
         # start = [817, 823, ..., 2320, 17333, ..., 19337]
         # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
         # chunks = [0, 70, 134]
-        chunks: Any = [[0],
-                       numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
-                       [len(table)]]
-
-        # Adds the chunks corresponding to the partitioning keys
-        chunks += [
-            numpy.where(numpy.roll(values, 1) != values)[0]
-            for values in data.values()
-        ]
+        chunks.append(numpy.where(start[1:] - stop[:-1] > 0)[0] + 1)
 
         # Finally, we build the list of indexes of the different chunks found.
         chunks = numpy.unique(numpy.concatenate(chunks))
-- 
2.43.0


From e50a801bf27b9233adde87d13139edc7a7bced7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:46 +0000
Subject: [PATCH 30/52] fix: the entries of a partition that has no more
 entries stay in the index

---
 zcollection/indexing/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 3963237..a815276 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -273,8 +273,11 @@ class Indexer(abc.ABC):
         # List of new partitions indexed.
         partitions = []
         for partition, data in bag.compute():
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
             length = data.size
-            # If the current item is empty, skip it.
+            # If the current item is empty, there is nothing to add.
             if length == 0:
                 continue
             # Create a new table with the indexed data.
@@ -287,9 +290,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
-- 
2.43.0


From 1fae0ceca9ae8c60a3c59615017258e380c1a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:31 +0000
Subject: [PATCH 31/52] fix: insertion fails for the variables that are not
 partitioned when the axis does not bear the name of its dimension

---
 zcollection/collection/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index eb0bd13..94db12f 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -48,7 +48,7 @@ _LOGGER: logging.Logger = logging.getLogger(__name__)
 
 def _write_immutable_dataset(
     zds: dataset.Dataset,
-    axis: str,
+    dim: str,
     path: str,
     fs: fsspec.AbstractFileSystem,
     synchronizer: sync.Sync,
@@ -57,11 +57,11 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        dim: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
-    immutable_dataset = zds.select_variables_by_dims((axis, ), predicate=False)
+    immutable_dataset = zds.select_variables_by_dims((dim, ), predicate=False)
     assert len(immutable_dataset.variables) != 0, (
         'The dataset to insert does not contain any variable '
         'that is not split.')
@@ -377,11 +377,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From 0124efc999ee6e3e1c5243ce507547831831899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:31 +0000
Subject: [PATCH 32/52] fix: the variables that are not partitioned are lost
 when their insertion is interrupted

---
 zcollection/collection/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 94db12f..03da5c3 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -376,7 +376,9 @@ class Collection(ReadOnlyCollection):
 
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
+            # (the consolidated metadata are written last).
+            if not self.fs.exists(
+                    fs_utils.join_path(self._immutable, '.zmetadata')):
                 _write_immutable_dataset(ds, self.partition_properties.dim,
                                          self._immutable, self.fs,
                                          self.synchronizer)
-- 
2.43.0


From 708e22bdf1aa4151797e2685e905e72d4931b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:31 +0000
Subject: [PATCH 33/52] fix: map_overlap and update with overlap fail when some
 variables are not partitioned

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 6dcbf2b..5320145 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -255,7 +255,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From fcf23388bf2de4fcb10c3a17326a108dae20ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 34/52] fix: an insertion that fails leaves incomplete
 variables that are not partitioned

---
 zcollection/collection/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 03da5c3..2688a58 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -37,6 +37,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _rm,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -66,11 +67,16 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    storage.write_zarr_group(immutable_dataset,
-                             path,
-                             fs,
-                             synchronizer,
-                             distributed=False)
+    try:
+        storage.write_zarr_group(immutable_dataset,
+                                 path,
+                                 fs,
+                                 synchronizer,
+                                 distributed=False)
+    except:  # noqa: E722
+        # An incomplete dataset would be considered as already stored.
+        _rm(fs, path)
+        raise
 
 
 def _infer_callable(
-- 
2.43.0


From fc701cd4ebbaaa054c0c8e5dcd6330f13e6e5737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 35/52] fix: update does not give the variables that are not
 partitioned to the function when it looks for the variables to update

---
 zcollection/collection/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 2688a58..b52d890 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -37,6 +37,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _rm,
     _try_infer_callable,
     _wrap_update_func,
@@ -94,11 +95,11 @@ def _infer_callable(
         return ()
 
     with collection.synchronizer:
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+        # pylint: disable=protected-access
+        zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                             collection._immutable,
+                                             one_partition, selected_variables)
+        # pylint: enable=protected-access
     func_result: dict[str, Any]
     func_result = _try_infer_callable(func, zds,
                                       collection.partition_properties.dim,
-- 
2.43.0


From 87ed49da5a509f5647d65a5f7109b9e343d18a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:33 +0000
Subject: [PATCH 36/52] fix: a variable cannot be dropped before the first
 insertion when others are not partitioned

---
 zcollection/collection/__init__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index b52d890..9766d8b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -631,13 +631,11 @@ class Collection(ReadOnlyCollection):
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        if self.partition_properties.dim not in self.metadata.variables[
+                variable].dimensions:
+            raise ValueError(
+                f'The variable {variable!r} is part of the immutable '
+                'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-- 
2.43.0


From d392238c6b27104423b7eb4a90563d5ac5e55af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 37/52] fix: a dataset is modified by rename and merge even if
 they fail

---
 zcollection/dataset.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..e822f67 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -364,10 +364,12 @@ class Dataset:
         Raises:
             ValueError: If the new names conflict with existing names
         """
+        variables: VariableType = self.variables.copy()
         for old, new in names.items():
-            if new in self.variables:
+            if new in variables:
                 raise ValueError(f'{new} already exists in the dataset')
-            self.variables[new] = self.variables.pop(old).rename(new)
+            variables[new] = variables.pop(old).rename(new)
+        self.variables = variables
 
     def drops_vars(self, names: str | Sequence[str]) -> None:
         """Drop variables from the dataset.
@@ -699,13 +701,10 @@ class Dataset:
         if self.delayed != other.delayed:
             raise ValueError('cannot merge delayed and non-delayed data')
 
-        # Merge the variables
-        for name, var in other.variables.items():
-
+        for name in other.variables:
             # It's impossible to merge a variable with itself.
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -713,6 +712,9 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        # Merge the variables
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From aab899ded2f95a65a2fd75544bbce726c81062da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 38/52] fix: delete fails when a variable does not use the axis

---
 zcollection/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index e822f67..3990155 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -149,7 +149,7 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
                                        var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -160,7 +160,7 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_array(
             var,  # type: ignore[arg-type]
             numpy.delete(var.array, indexer, var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
-- 
2.43.0


From f04eebd226617c3ce9d3772650bcfbeadccea60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 39/52] fix: an empty selection of variables of an in-memory
 dataset becomes delayed

---
 zcollection/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 3990155..7c350b0 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -395,7 +395,8 @@ class Dataset:
         return Dataset((self.variables[name] for name in names),
                        attrs=self.attrs,
                        block_size_limit=self.block_size_limit,
-                       chunks=self.dims_chunk)
+                       chunks=self.dims_chunk,
+                       delayed=self.delayed)
 
     def metadata(self) -> meta.Dataset:
         """Get the dataset metadata.
@@ -761,7 +762,8 @@ class Dataset:
         return Dataset(variables=variables,
                        attrs=self.attrs,
                        chunks=self.dims_chunk,
-                       block_size_limit=self.block_size_limit)
+                       block_size_limit=self.block_size_limit,
+                       delayed=self.delayed)
 
     def to_zarr(self,
                 path: str,
-- 
2.43.0


From 9f0e831dc98839e2fd0ccbccf6a70095cde56a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 40/52] fix: concat silently drops the data that cannot be
 concatenated

---
 zcollection/variable/abc.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..60f5dd4 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -77,20 +77,7 @@ def concat(
     if not all(isinstance(item, type(self)) for item in other):
         raise ValueError(f'other must be a sequence of {type(self)}')
 
-    try:
-        axis: int = self.dimensions.index(dim)
-        return new_variable(
-            type(self),
-            name=self.name,
-            array=concatenate((self.array, *(item.array for item in other)),
-                              axis=axis),
-            dimensions=self.dimensions,
-            attrs=self.attrs,
-            compressor=self.compressor,
-            fill_value=self.fill_value,
-            filters=self.filters,
-        )
-    except ValueError:
+    if dim not in self.dimensions:
         # If the concatenation dimension is not within the dimensions of the
         # variable, then the original variable is returned (i.e.
         # concatenation is not necessary).
@@ -103,6 +90,19 @@ def concat(
                             fill_value=self.fill_value,
                             filters=self.filters)
 
+    # The arrays that cannot be concatenated raise an exception.
+    return new_variable(
+        type(self),
+        name=self.name,
+        array=concatenate((self.array, *(item.array for item in other)),
+                          axis=self.dimensions.index(dim)),
+        dimensions=self.dimensions,
+        attrs=self.attrs,
+        compressor=self.compressor,
+        fill_value=self.fill_value,
+        filters=self.filters,
+    )
+
 
 def not_equal(first: Any, second: Any) -> bool:
     """Check if two objects are not equal.
-- 
2.43.0


From 4d46f8b8c917dc08353cb217ead6aa5af8a957ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:44 +0000
Subject: [PATCH 41/52] fix: the persisted array of a delayed variable is
 replaced by a tuple

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..c4745cf 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        self.array, = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From 97d0bf3507a8dd55914968d65a2fca52e469e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 42/52] fix: a persisted variable ignores the values defined
 afterwards that are equal to the fill value

---
 zcollection/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 7c350b0..4bb1af8 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -656,7 +656,7 @@ class Dataset:
                 var.array = var.array.map_blocks(CompressedArray,
                                                  fill_value=var.fill_value)
         arrays: Iterable[NDArray] = dask.base.persist(
-            *tuple(item.data for item in self.variables.values()), **kwargs)
+            *tuple(item.array for item in self.variables.values()), **kwargs)
         variables: OrderedDict[str, Variable] = self.variables
         for name, array in zip(self.variables, arrays):
             variables[name].array = array
-- 
2.43.0


From f5084de8203e6908ddcecf2c35e4e7f2713cad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:51 +0000
Subject: [PATCH 43/52] fix: a collection that cannot be described leaves a
 directory that prevents its creation

---
 zcollection/collection/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9766d8b..5978b95 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -241,15 +241,15 @@ class Collection(ReadOnlyCollection):
             "Updating collection's configuration: %s"
             if exists else 'Creating the collection: %s', config)
 
-        self.fs.makedirs(base_dir, exist_ok=True)
-
         params = {
             'axis': self.axis,
             'dataset': self.metadata.get_config(),
             'partitioning': self.partitioning.get_config(),
         }
+        text: str = json.dumps(params, indent=4)
 
-        fs_utils.write_text(self.fs, config, json.dumps(params, indent=4))
+        self.fs.makedirs(base_dir, exist_ok=True)
+        fs_utils.write_text(self.fs, config, text)
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
-- 
2.43.0


From 4810b5a488d89a7785820739ba4088e5a9f33ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:02 +0000
Subject: [PATCH 44/52] fix: validate_partitions removes partitions of a
 collection opened in read-only mode

---
 zcollection/collection/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5978b95..c3cede7 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -813,7 +813,13 @@ class Collection(ReadOnlyCollection):
 
         Returns:
             A list of invalid partitions.
+
+        Raises:
+            io.UnsupportedOperation: If `fix` is True and the collection is
+                opened in read-only mode.
         """
+        if fix and self.is_readonly():
+            self._unsupported_operation()
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From 549ecb4a8701aec97a4941f216efe40dc1c70701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:52 +0000
Subject: [PATCH 45/52] fix: validate_partitions removes the partitions that
 another client is writing

---
 zcollection/collection/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c3cede7..228ef96 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -820,6 +820,26 @@ class Collection(ReadOnlyCollection):
         """
         if fix and self.is_readonly():
             self._unsupported_operation()
+        if not fix:
+            return self._invalid_partitions(filters)
+        # A partition that another client is writing is not valid yet: it must
+        # neither be checked nor removed.
+        with self.synchronizer:
+            invalid_partitions = self._invalid_partitions(filters)
+            for item in invalid_partitions:
+                _LOGGER.info('Removing invalid partition: %s', item)
+                self.fs.rm(item, recursive=True)
+        return invalid_partitions
+
+    def _invalid_partitions(self, filters: PartitionFilter | None) -> list[str]:
+        """Return the selected partitions that are not valid.
+
+        Args:
+            filters: The predicate used to filter the partitions to validate.
+
+        Returns:
+            A list of invalid partitions.
+        """
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
@@ -837,9 +857,4 @@ class Collection(ReadOnlyCollection):
                 warnings.warn(f'Invalid partition: {partition}',
                               category=RuntimeWarning)
                 invalid_partitions.append(partition)
-
-        if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
         return invalid_partitions
-- 
2.43.0


From 1f504cfbabef0253b2ea7c643ddac1f58d127ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:50 +0000
Subject: [PATCH 46/52] fix: drop_partitions ignores the time zone of the
 creation date of the partitions

---
 zcollection/collection/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 228ef96..a42df3e 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -453,7 +453,7 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now: datetime.datetime = datetime.datetime.now(datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
         folders = list(self.partitions(filters=filters, lock=True))
 
@@ -466,8 +466,9 @@ class Collection(ReadOnlyCollection):
             """Return whether the partition was created before the
             timedelta."""
             created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
+            if created.tzinfo is None:
+                # Naive dates are local times.
+                created = created.astimezone()
             return now - created > timedelta
 
         if timedelta is not None:
-- 
2.43.0


From f47c7139df0e2af865f806994837ca842bf7143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 47/52] fix: a copy silently misses the directories that could
 not be listed

---
 zcollection/fs_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index de314ad..0c83769 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -113,7 +113,7 @@ def fs_walk(
     dirs, files = [], []
     try:
         listing: list[dict[str, Any]] = fs.ls(path, detail=True)
-    except (FileNotFoundError, OSError):
+    except FileNotFoundError:
         yield '', [], []
         return
 
-- 
2.43.0


From 278aff187ad029bf0d4b191ea06f5841b56a061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:02 +0000
Subject: [PATCH 48/52] fix: a variable cannot be added when the size of the
 chunks is automatic

---
 zcollection/collection/__init__.py |  2 ++
 zcollection/storage.py             | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index a42df3e..7321bc2 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -715,6 +715,8 @@ class Collection(ReadOnlyCollection):
                                        variable=variable,
                                        template=template.name,
                                        fs=self.fs,
+                                       block_size_limit=self.metadata.
+                                       block_size_limit,
                                        chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 51e197d..7ee35de 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -431,6 +431,7 @@ def add_zarr_array(
     template: str,
     fs: fsspec.AbstractFileSystem,
     *,
+    block_size_limit: int | None = None,
     chunks: dict[str, int | str] | None = None,
 ) -> None:
     """Add a variable to a Zarr dataset.
@@ -440,6 +441,8 @@ def add_zarr_array(
         variable: The variable to add.
         template: The name of the template variable.
         fs: The file system that the dataset is stored on.
+        block_size_limit: Maximum size (in bytes) of a block/chunk. Defaults
+            to :data:`zcollection.meta.BLOCK_SIZE_LIMIT`.
         chunks: Chunk size for each dimension. Defaults to None. See
             :func:`zarr.create` for more information.
 
@@ -458,6 +461,14 @@ def add_zarr_array(
     var_chunks: tuple[int | str, ...] = shape if chunks is None else tuple(
         chunks.get(dim, shape[ix])  # type: ignore[misc]
         for ix, dim in enumerate(variable.dimensions))
+    if 'auto' in var_chunks:
+        # As when the variable is inserted.
+        var_chunks = tuple(
+            item[0] for item in dask.array.core.normalize_chunks(
+                var_chunks,
+                shape,
+                limit=block_size_limit or meta.BLOCK_SIZE_LIMIT,
+                dtype=variable.dtype))
 
     store: fsspec.FSMap = fs.get_mapper(join_path(dirname, variable.name))
     zarr.create(
-- 
2.43.0


From a1d3f2176f13d3baa37ee1d6d99e9ae6736d2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:23 +0000
Subject: [PATCH 49/52] fix: a copy of ProcessSync sent to another process uses
 another lock

The path of the lock is kept as bytes by fasteners: str() gives "b'...'",
the name of another file, relative to the current directory.
---
 zcollection/sync.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index 74467dc..5e3eab0 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Callable
 import abc
+import os
 import threading
 
 import fasteners
@@ -66,7 +67,7 @@ class ProcessSync(Sync):
             pass
 
     def __reduce__(self) -> tuple[Callable, tuple[str]]:
-        return (ProcessSync, (str(self.lock.path), ))
+        return (ProcessSync, (os.fsdecode(self.lock.path), ))
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-- 
2.43.0


From d584553a7555ff3e8c75f50464c55af01d438658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 50/52] fix: a view whose synchronization was interrupted can
 never be synchronized again

A partition without a complete checksum made sync and is_synced raise for
ever.
---
 zcollection/view/detail.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 5c097cf..ffd6cc9 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -13,6 +13,7 @@ import base64
 import dataclasses
 import hashlib
 import io
+import json
 import pathlib
 import pickle
 import warnings
@@ -23,6 +24,7 @@ import dask.distributed
 import fsspec
 import numpy
 import zarr
+import zarr.storage
 
 from .. import collection, dataset, meta
 from ..collection.detail import _compute_arrays, _update_with_overlap
@@ -482,7 +484,7 @@ def _write_checksum_array(
 def _load_checksum_array(
     partition: str,
     fs: fsspec.AbstractFileSystem,
-) -> zarr.Array:
+) -> zarr.Array | None:
     """Load the checksum of a partition from a file.
 
     Args:
@@ -490,10 +492,18 @@ def _load_checksum_array(
         fs: The file system used to access the variables in the view.
 
     Returns:
-        The checksum of the partition and the axis of the reference partition.
+        The checksum of the partition and the axis of the reference partition,
+        or None if the checksum has not been completely written.
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
     mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
+    try:
+        # Zarr would take a file that cannot be read for a missing file.
+        json.loads(mapper[zarr.storage.array_meta_key])
+        if CHECKSUM_ATTR not in json.loads(mapper[zarr.storage.attrs_key]):
+            return None
+    except (KeyError, ValueError):
+        return None
     return zarr.open_array(mapper)
 
 
@@ -627,19 +637,24 @@ def _sync(
     # The partition exists, so we check if it is synced.
     partition_ref: str = join_path(view_ref.partition_properties.dir,
                                    partition)
-    array: zarr.Array = _load_checksum_array(partition_view, fs)
+    array: zarr.Array | None = _load_checksum_array(partition_view, fs)
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
-    if axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
+    if array is None or axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
         # If the checksums are different, the partition is not synced. we load
         # the axis of partition's view to check if the partition is a subset of
         # the reference partition.
-        axis_view: NDArray = array[:]
-        if axis_ref.array.size > axis_view.size and numpy.all(
-                axis_view == axis_ref.array[:axis_view.size]):
+        axis_view: NDArray | None
+        try:
+            axis_view = None if array is None else array[:]
+        except (RuntimeError, ValueError):
+            # The writing of the axis was interrupted.
+            axis_view = None
+        if (axis_view is not None and axis_ref.array.size > axis_view.size
+                and numpy.all(axis_view == axis_ref.array[:axis_view.size])):
             # The view partition is a subset of the reference partition.
             # So we extend the view partition to the reference partition.
             # fs_invalid_cache is done by _extend_partition
-- 
2.43.0


From 2763f213002151774625655b404d2a6730be58c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 51/52] fix: a view keeps in memory a variable whose addition
 failed

The partitions are listed before the variable is declared.
---
 zcollection/view/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 042d82a..e3be1cc 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -258,12 +258,12 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
-        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
             for path in self.partitions()
         }
+        self.metadata.add_variable(variable)
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
-- 
2.43.0


From d8f32f7faa9098807c8d130480aefbc2dc51e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:42 +0000
Subject: [PATCH 52/52] fix: the extension of a view fails, and loses its
 values, on what remains of a variable

---
 zcollection/view/detail.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index ffd6cc9..1fd5213 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -573,6 +573,7 @@ def _sync_partition(
 
 
 def _extend_partition(
+    metadata: meta.Dataset,
     partition: str,
     fs: fsspec.AbstractFileSystem,
     axis_ref: AxisReference,
@@ -580,6 +581,7 @@ def _extend_partition(
     """Sync a partition: create the partition and the underlying variables.
 
     Args:
+        metadata: The dataset to sync.
         partition: The partition to sync.
         fs: The file system used to access the variables in the view.
         axis_ref: The axis reference of the partition.
@@ -587,9 +589,11 @@ def _extend_partition(
     axis_name: str = axis_ref.dimension
     new_size: int = axis_ref.array.shape[0]
     try:
-        for variable in fs.listdir(partition):
-            array: zarr.Array = zarr.open_array(fs.get_mapper(
-                variable['name']))
+        # The directory may contain what remains of a variable whose addition
+        # or deletion was interrupted.
+        for variable in (*metadata.variables, CHECKSUM_FILE):
+            array: zarr.Array = zarr.open_array(
+                fs.get_mapper(join_path(partition, variable)))
             dimensions: Sequence[str] = array.attrs[DIMENSIONS]
             if axis_name in dimensions:
                 axis: int = dimensions.index(axis_name)
@@ -659,7 +663,7 @@ def _sync(
             # So we extend the view partition to the reference partition.
             # fs_invalid_cache is done by _extend_partition
             if not dry_run:
-                _extend_partition(partition_view, fs, axis_ref)
+                _extend_partition(metadata, partition_view, fs, axis_ref)
             return partition
         # The partition is not synced, so we remove it.
         if not dry_run:
-- 
2.43.0


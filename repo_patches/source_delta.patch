From d07d1bebd6900da22d8df6d3c7e488a9dc7243ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 01/63] fix: race between the server executor's end condition
 and the jobs not yet sent

---
 src/fluidimage/executors/exec_async_servers.py |  2 ++
 src/fluidimage/executors/servers.py            | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..4d5e8d9 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -197,6 +197,8 @@ class ExecutorAsyncServers(ExecutorAsync):
             worker.is_available = True
             return
 
+        worker.reserve()
+
         def run_process():
             # create a communication channel
             parent_conn, child_conn = worker.new_pipe()
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..a5f58ad 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -86,6 +86,17 @@ class Worker:
         self.is_available = True
         self.is_unoccupied = True
 
+    def reserve(self):
+        """Count a new item to be processed
+
+        Has to be called in the main thread as soon as the item is removed from
+        the input queue, otherwise the item is neither in a queue nor associated
+        with an occupied worker.
+
+        """
+        self.is_unoccupied = False
+        self.nb_items_to_process += 1
+
     def well_done_thanks(self):
         self.nb_items_to_process -= 1
         if self.nb_items_to_process == 0:
@@ -97,8 +108,6 @@ class Worker:
 
 class WorkerMultiprocessing(Worker):
     def send_job(self, obj):
-        self.is_unoccupied = False
-        self.nb_items_to_process += 1
         self.send(obj)
 
     def send(self, obj):
-- 
2.43.0


From 7729b41fba2a56a0cb9d415d1d987b5d94eb31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 02/63] fix: log the exceptions raised in the servers in the
 exception files

---
 src/fluidimage/executors/exec_async_servers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 4d5e8d9..9e14d12 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -212,6 +212,10 @@ class ExecutorAsyncServers(ExecutorAsync):
             return result
 
         ret = await trio.to_thread.run_sync(run_process)
+
+        if isinstance(ret, Exception):
+            self.log_exception(ret, work.name_no_space, key)
+
         if work.output_queue is not None:
             work.output_queue[key] = ret
         worker.well_done_thanks()
-- 
2.43.0


From 6134b267d1144c9a315c575c8b3b3279433d6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 03/63] fix: restore the standard streams when a multi executor
 has nothing to compute

---
 src/fluidimage/executors/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..d0c3f7d 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -486,6 +486,7 @@ class MultiExecutorBase(ExecutorBase):
 
         if self.num_expected_results == 0:
             print("Nothing to be computed")
+            self._reset_std_as_default()
             return
 
         self.log_paths = []
-- 
2.43.0


From 1b4e8af8708682ef1b23096d8b16cd9141d020cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 04/63] fix: sequential executors fail when there is nothing to
 compute and results are listed

---
 src/fluidimage/executors/exec_sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..65b6fe6 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -21,7 +21,7 @@ class ExecutorSequential(ExecutorBase):
         self.exec_one_shot_works()
         self._run_works()
         self._finalize_compute()
-        if hasattr(self.topology, "results"):
+        if hasattr(self.topology, "results") and self.num_expected_results != 0:
             self._save_results_names()
 
     def _run_works(self):
-- 
2.43.0


From c7e0a91098ad1c299fba6bf9f14201a13ccfaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 05/63] fix: asynchronous executors keep on launching works
 after a request to stop

---
 src/fluidimage/executors/exec_async.py         | 4 ++--
 src/fluidimage/executors/exec_async_servers.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index 2de8281..ebe505e 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -167,7 +167,7 @@ class ExecutorAsync(ExecutorBase):
         """Define an asynchronous function launching a io work."""
 
         async def func(work=work):
-            while True:
+            while not self._has_to_stop:
                 while (
                     not work.input_queue
                     or self.nb_working_workers_io >= self.nb_max_workers
@@ -188,7 +188,7 @@ class ExecutorAsync(ExecutorBase):
         """Define an asynchronous function launching a cpu work."""
 
         async def func(work=work):
-            while True:
+            while not self._has_to_stop:
                 while (
                     not work.input_queue
                     or self.nb_working_workers_cpu >= self.nb_max_workers
diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index 9e14d12..f82794a 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -222,7 +222,7 @@ class ExecutorAsyncServers(ExecutorAsync):
 
     def def_async_func_work_cpu(self, work):
         async def func(work=work):
-            while True:
+            while not self._has_to_stop:
                 while not work.input_queue or (
                     work.output_queue is not None
                     and len(work.output_queue) >= self.nb_items_queue_max
-- 
2.43.0


From 4b0ed04ac4f952c0fd2ee377e68e36fc522409e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 06/63] fix: the sequential executor ignores the requests to
 stop

---
 src/fluidimage/executors/exec_sequential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index 65b6fe6..8f990ca 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -25,7 +25,9 @@ class ExecutorSequential(ExecutorBase):
             self._save_results_names()
 
     def _run_works(self):
-        while not all([len(queue) == 0 for queue in self.topology.queues]):
+        while not self._has_to_stop and not all(
+            [len(queue) == 0 for queue in self.topology.queues]
+        ):
             for work in self.works:
                 # global functions
                 if work.kind is not None and "global" in work.kind:
-- 
2.43.0


From 67d6ccf4ce53001c5d2ffd0f5012eca1fb9a285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 07/63] fix: the waiting loops of the servers ignore the
 request to stop

---
 src/fluidimage/executors/servers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index a5f58ad..53694d8 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -250,6 +250,8 @@ class WorkerServerMultiprocessing(WorkerServer):
     async def launch_works(self):
         while self._has_to_continue:
             while not self.to_be_processed:
+                if not self._has_to_continue:
+                    return
                 await trio.sleep(self.sleep_time)
 
             work_name, key, obj, child_conn = self.to_be_processed.pop(0)
@@ -287,6 +289,8 @@ class WorkerServerMultiprocessing(WorkerServer):
     async def send(self):
         while self._has_to_continue:
             while not self.to_be_resent:
+                if not self._has_to_continue:
+                    return
                 await trio.sleep(self.sleep_time)
             work_name, key, result, child_conn = self.to_be_resent.pop(0)
 
-- 
2.43.0


From 74b34f3654b7251ce63a3bfd159d53b4669e3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 08/63] fix: a global work can be run once more after a request
 to stop

---
 src/fluidimage/executors/exec_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_async.py b/src/fluidimage/executors/exec_async.py
index ebe505e..bb7dc13 100644
--- a/src/fluidimage/executors/exec_async.py
+++ b/src/fluidimage/executors/exec_async.py
@@ -125,7 +125,7 @@ class ExecutorAsync(ExecutorBase):
                     pass
 
                 async def func(work=work):
-                    while True:
+                    while not self._has_to_stop:
                         while (
                             isinstance(work.input_queue, tuple)
                             and all(not q for q in work.input_queue)
-- 
2.43.0


From 5659f12889d4b3b100f974fc5a34006f46c5593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 09/63] fix: name of a result lost when appended while the
 names are saved

---
 src/fluidimage/executors/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index d0c3f7d..3480b3a 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -392,8 +392,10 @@ class ExecutorBase(ABC):
 
     def _save_results_names(self):
 
-        new_results = self.topology.results[self._len_saved_results :]
-        self._len_saved_results = len(self.topology.results)
+        # results can be appended (in other threads) during this function
+        num_results = len(self.topology.results)
+        new_results = self.topology.results[self._len_saved_results : num_results]
+        self._len_saved_results = num_results
 
         with open(self._path_num_results, "w", encoding="utf-8") as file:
             file.write(f"{self._len_saved_results}\n")
-- 
2.43.0


From 01c89add289ffeae01fee44e2f74870faf345995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 10/63] fix: collision of job directories created during the
 same second

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 3480b3a..9d506b2 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -93,7 +93,7 @@ class ExecutorBase(ABC):
             while path_job_data.exists():
                 index += 1
                 unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
         self._unique_postfix = unique_postfix
         self.path_job_data = path_job_data
-- 
2.43.0


From 0774b40f73b8676a74e8ff7643f9828865bcbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 11/63] fix: monitor ignored the sub-processes started after it

---
 src/fluidimage/gui/monitor.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/gui/monitor.py b/src/fluidimage/gui/monitor.py
index 301eaf9..e8457a4 100644
--- a/src/fluidimage/gui/monitor.py
+++ b/src/fluidimage/gui/monitor.py
@@ -152,18 +152,14 @@ class MonitorApp(App):
         params_default = class_topology.create_default_params()
         copy_doc(self.params, params_default)
 
-        self.paths_len_results = sorted(
-            self.path_job_info.glob("len_results*.txt")
-        )
-        assert self.paths_len_results
-
         self.num_results = 0
         self.detect_results()
 
     def detect_results(self):
         """Detect how many results have been computed"""
         num_results_vs_idx_process = []
-        for path_len_results in self.paths_len_results:
+        # sub-processes can create their file after the start of the monitor
+        for path_len_results in self.path_job_info.glob("len_results*.txt"):
             with open(path_len_results, encoding="utf-8") as file:
                 content = file.read()
                 len_results = int(content) if content else 0
-- 
2.43.0


From 011c9bb4427aa2687d79a85a3dab19ec9886f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 12/63] fix: BOS topology with an image-to-image function

---
 src/fluidimage/topologies/bos.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/topologies/bos.py b/src/fluidimage/topologies/bos.py
index 6caacba..ef2fd4b 100644
--- a/src/fluidimage/topologies/bos.py
+++ b/src/fluidimage/topologies/bos.py
@@ -32,11 +32,6 @@ class SplitterBos(SplitterFromImages):
         self.params.reference = topology.path_reference
 
 
-def _imread(path):
-    image = imread(path)
-    return image, Path(path).name
-
-
 class TopologyBOS(TopologyBaseFromImages):
     """Topology for BOS computation.
 
@@ -120,7 +115,7 @@ class TopologyBOS(TopologyBaseFromImages):
 
         self.add_work(
             "read array",
-            func_or_cls=_imread,
+            func_or_cls=imread,
             input_queue=queue_paths,
             output_queue=queue_arrays,
             kind="io",
@@ -143,8 +138,9 @@ class TopologyBOS(TopologyBaseFromImages):
             "compute bos",
             func_or_cls=self.calcul,
             params_cls=params,
-            input_queue=queue_arrays,
+            input_queue=queue_arrays1,
             output_queue=queue_bos,
+            kind="eat key value",
         )
 
         self.add_work(
@@ -160,9 +156,10 @@ class TopologyBOS(TopologyBaseFromImages):
         ret = obj.save(self.path_dir_result, kind="bos")
         self.results.append(ret)
 
-    def calcul(self, tuple_image_path):
+    def calcul(self, tuple_name_image):
         """Compute a BOS field"""
-        return self.main_work.calcul(tuple_image_path)
+        name, image = tuple_name_image
+        return self.main_work.calcul((image, name))
 
     def _get_name_result_from_name(self, name):
         return get_name_bos(name, self.serie)
-- 
2.43.0


From 9c3d90738c9c9f6128eed4b01ad094b991811205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 13/63] fix: preproc topology: forward the error of an image of
 a subset

---
 src/fluidimage/topologies/preproc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 4aabad2..2161b20 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -302,12 +302,17 @@ Parameters describing image saving after preprocessing.
             # if correspondant arrays have been loaded from images,
             # make an array subset
             if all([name in queue_arrays for name in names]):
-                arrays = (queue_arrays[name] for name in names)
-                serie = copy.copy(self.series.get_serie_from_index(key))
+                arrays = [queue_arrays[name] for name in names]
+                errors = [arr for arr in arrays if isinstance(arr, Exception)]
+
+                if errors:
+                    array_subset = errors[0]
+                else:
+                    serie = copy.copy(self.series.get_serie_from_index(key))
+                    array_subset = ArraySubset(
+                        names=names, arrays=arrays, serie=serie
+                    )
 
-                array_subset = ArraySubset(
-                    names=names, arrays=arrays, serie=serie
-                )
                 output_queue[key] = array_subset
                 del queue_subsets_of_names[key]
                 # remove the image_array if it not will be used anymore
-- 
2.43.0


From 2c981be1dcbec1694340bc5bfce70b890f68b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 14/63] fix: imread raises for a file that cannot be decoded
 (None was returned)

---
 src/fluidimage/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index a2cc515..15a4d59 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -56,6 +56,10 @@ def imread(path):
     except Exception as error:
         raise type(error)(path).with_traceback(error.__traceback__)
 
+    if array is None:
+        # returned by opencv for a file that cannot be decoded
+        raise OSError(f"Unable to read the image {path}")
+
     return array
 
 
-- 
2.43.0


From 21d52e6ed0cc31518fff17446a56453fe5c0b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 15/63] fix: mean topology: an image that cannot be read does
 not stop the computation

---
 src/fluidimage/topologies/mean.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index 9cdbba0..b5d0671 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -19,7 +19,7 @@ from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
 from fluidimage import ParamContainer
 from fluidimage.topologies.base import TopologyBaseFromImages
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import imread, logger
 from fluidimage.works import BaseWorkFromImage
 
 # from transonic import boost, Array
@@ -129,6 +129,13 @@ class TopologyMeanImage(TopologyBaseFromImages):
 
         while queue_arrays:
             name, arr = queue_arrays.pop_first_item()
+            if isinstance(arr, Exception):
+                logger.error(
+                    "image %s not taken into account because of a previously "
+                    "raised exception.",
+                    name,
+                )
+                continue
             queue_tmp_arrays.append((arr.astype(np.uint32), 1))
 
         self.reduce_queue_tmp_arrays4(queue_tmp_arrays)
-- 
2.43.0


From a737a7eddbf1f59f9428784ad4937a3e728e2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 16/63] fix: surface tracking topology: forward the error of an
 image of a couple

---
 src/fluidimage/topologies/surface_tracking.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index ac85126..0301185 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -238,7 +238,10 @@ Parameters indicating the input image set.
                     array1 = queue_angles[couple[0]]
                     array2 = queue_angles[couple[0]]
 
-                    queue_couple[couple[0]] = (array1, array2)
+                    if isinstance(array1, Exception):
+                        queue_couple[couple[0]] = array1
+                    else:
+                        queue_couple[couple[0]] = (array1, array2)
                     del queue_angles[couple[0]]
                     del queue_couples_of_names[key]
             elif (
@@ -248,7 +251,12 @@ Parameters indicating the input image set.
                 array1 = queue_mod0_angles[couple[0]]
                 array2 = queue_angles[couple[1]]
 
-                queue_couple[couple[1]] = (array1, array2)
+                if isinstance(array1, Exception):
+                    queue_couple[couple[1]] = array1
+                elif isinstance(array2, Exception):
+                    queue_couple[couple[1]] = array2
+                else:
+                    queue_couple[couple[1]] = (array1, array2)
                 del queue_angles[couple[1]]
                 del queue_couples_of_names[key]
                 output_queues[0][couple[0]] = queue_mod0_angles[couple[0]]
-- 
2.43.0


From a0ce35221e62e2efc935cb3d31b8c042a570ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 17/63] fix: answers in upper case ignored by
 prepare_path_dir_result

---
 src/fluidimage/topologies/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..169b30b 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -74,13 +74,13 @@ def prepare_path_dir_result(
                 f"The directory {path_dir_result} "
                 + "already exists. What do you want to do?\n"
                 "New dir, Complete, Recompute or Stop?\n"
-            )
+            ).lower()
 
-            while answer.lower() not in ["n", "c", "r", "s"]:
+            while answer not in ["n", "c", "r", "s"]:
                 answer = query(
                     "The answer should be in ['n', 'c', 'r', 's']\n"
                     "Please type your answer again...\n"
-                )
+                ).lower()
 
             if answer == "s":
                 print("Stopped by the user.")
-- 
2.43.0


From 1e5622da6bdbc945ab1d12ddcbbf6b8d3288e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 18/63] fix: mode 'new_dir' with a Path

---
 src/fluidimage/topologies/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 169b30b..e55f62f 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -60,7 +60,7 @@ def prepare_path_dir_result(
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = path_saving
+        path_dir_result = str(path_saving)
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
-- 
2.43.0


From b45220eea0af772af056eb74317306f85ff2c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 19/63] fix: mode 'new_dir': other directories created by the
 sub-processes and servers

---
 src/fluidimage/executors/servers.py | 2 +-
 src/fluidimage/topologies/base.py   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 53694d8..f1d3d1e 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -192,7 +192,7 @@ class WorkerServerMultiprocessing(WorkerServer):
         except AttributeError:
             pass
         else:
-            if params.saving.how == "ask":
+            if params.saving.how in ("ask", "new_dir"):
                 params.saving.how = "complete"
 
         self.topology = topology_cls(params)
diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index e55f62f..0f252c5 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -99,6 +99,10 @@ def prepare_path_dir_result(
                 i += 1
             path_dir_result += str(i)
 
+    if how == "new_dir":
+        # the processes of the computation have to use this new directory
+        how = "recompute"
+
     path_dir_result = Path(path_dir_result)
     path_dir_result.mkdir(exist_ok=True)
     return path_dir_result, how
-- 
2.43.0


From 3c2f1b9f69020dda45600d7aa9cd3c595b1201fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 20/63] fix: directory of the results not given to the
 sub-processes

---
 src/fluidimage/executors/multi_exec_subproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/multi_exec_subproc.py b/src/fluidimage/executors/multi_exec_subproc.py
index 75ad013..c871fc1 100644
--- a/src/fluidimage/executors/multi_exec_subproc.py
+++ b/src/fluidimage/executors/multi_exec_subproc.py
@@ -63,7 +63,7 @@ class MultiExecutorSubproc(MultiExecutorBase):
         if hasattr(self.topology, "how_saving"):
             params.saving.how = self.topology.how_saving
 
-        if hasattr(self.topology, ""):
+        if hasattr(self.topology, "path_dir_result"):
             params.saving.path = self.topology.path_dir_result
 
         self.splitter = splitter_cls(
-- 
2.43.0


From 0b6c39e36a0750a59b375eb46d3c3fa641aeb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 21/63] fix: displacement_max given to the correlation classes
 pythran and pycuda

---
 src/fluidimage/calcul/correl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a006ba0..09f423a 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -386,7 +386,8 @@ class CorrelPythran(CorrelBase):
     _tag = "pythran"
 
     def _finalize_init(self):
-        if self.displacement_max is None:
+        displacement_max = self.displacement_max
+        if displacement_max is None:
             if self.im0_shape == self.im1_shape:
                 displacement_max = min(self.im0_shape) // 2 - 1
             else:
@@ -421,7 +422,8 @@ class CorrelPyCuda(CorrelBase):
     _tag = "pycuda"
 
     def _finalize_init(self):
-        if self.displacement_max is None:
+        displacement_max = self.displacement_max
+        if displacement_max is None:
             if self.im0_shape == self.im1_shape:
                 displacement_max = min(self.im0_shape) // 2
             else:
-- 
2.43.0


From eed37643a48590fe3890277ec0ccb2059a122f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 22/63] fix: calib_tsai: test_refraction undefined without
 refraction

---
 src/fluidimage/calibration/calib_tsai.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index b0a9f5e..bd141be 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -69,6 +69,7 @@ class Calibration:
             # horizontal plane z=cte
             Z0 = params.slices.zslice_coord[index_level][2]
         Z0virt = Z0
+        test_refraction = 0
         if hasattr(params, "interface_coord") and hasattr(
             params, "refraction_index"
         ):
-- 
2.43.0


From f457e3ab243e1fa4e425319f6d807bc1cf4600eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 23/63] fix: display_piv: undefined variables without results
 or correls_max

---
 src/fluidimage/data_objects/display_piv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/data_objects/display_piv.py b/src/fluidimage/data_objects/display_piv.py
index d559671..1989184 100644
--- a/src/fluidimage/data_objects/display_piv.py
+++ b/src/fluidimage/data_objects/display_piv.py
@@ -214,7 +214,7 @@ class DisplayPIV:
                     scale=scale,
                 )
 
-        if hist:
+        if hist and piv_results is not None:
             fig2, axes = plt.subplots(ncols=2)
             ax3, ax4 = axes.ravel()
             ind = (
@@ -343,7 +343,9 @@ class DisplayPIV:
             ax2.cla()
             alphac = result.correls[ind_all]
             alphac_max = alphac.max()
-            correl = correl_max / alphac_max * alphac
+            correl = alphac
+            if result.correls_max is not None:
+                correl = correl_max / alphac_max * alphac
 
             ax2.imshow(correl, origin="lower", interpolation="none", vmin=0)
 
-- 
2.43.0


From 8af9fbfdeafa115e001a30724fb69e7c4b5ba750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 24/63] fix: loading piv results with params but without couple

---
 src/fluidimage/data_objects/piv.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..4dac8ac 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -462,10 +462,11 @@ class HeavyPIVResults(DataObject):
 
         if not hasattr(self, "params"):
             self.params = ParamContainer(hdf5_object=file["params"])
-            try:
-                params_mask = self.params.mask
-            except AttributeError:
-                params_mask = None
+
+        try:
+            params_mask = self.params.mask
+        except AttributeError:
+            params_mask = None
 
         if not hasattr(self, "couple"):
             self.couple = ArrayCouple(hdf5_parent=file, params_mask=params_mask)
@@ -887,10 +888,11 @@ class LightPIVResults(DataObject):
 
         if not hasattr(self, "params"):
             self.params = ParamContainer(hdf5_object=file["params"])
-            try:
-                params_mask = self.params.mask
-            except AttributeError:
-                params_mask = None
+
+        try:
+            params_mask = self.params.mask
+        except AttributeError:
+            params_mask = None
 
         if not hasattr(self, "couple"):
             self.couple = ArrayCouple(hdf5_parent=file, params_mask=params_mask)
-- 
2.43.0


From 692c48acc40b771b3366a4ee1c52224c0a3401d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 25/63] fix: tomo load_dataset: NameError instead of KeyError
 for unknown tag

---
 src/fluidimage/data_objects/tomo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/data_objects/tomo.py b/src/fluidimage/data_objects/tomo.py
index 92274a2..1c27113 100644
--- a/src/fluidimage/data_objects/tomo.py
+++ b/src/fluidimage/data_objects/tomo.py
@@ -150,6 +150,7 @@ class ArrayTomoBase:
                 h5file_path = self.h5file_path
 
         file = h5py.File(h5file_path, "r")
+        grp = []
         try:
             grp = file[tag]
             dset = grp[key]
-- 
2.43.0


From 7a2846d62564a190f63dbf6a199f6756bbbf5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 26/63] fix: init_im2im_function: clear error for wrong im2im

---
 src/fluidimage/works/image2image.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/works/image2image.py b/src/fluidimage/works/image2image.py
index d585cd9..8b5e39a 100644
--- a/src/fluidimage/works/image2image.py
+++ b/src/fluidimage/works/image2image.py
@@ -55,6 +55,10 @@ def init_im2im_function(im2im=None, args_init=()):
         print("in init_im2im", args_init)
         obj = im2im(*args_init)
         im2im_func = obj.calcul
+    else:
+        raise TypeError(
+            f"im2im has to be a function, a class or its full name, not {im2im!r}"
+        )
 
     return obj, im2im_func
 
-- 
2.43.0


From 41a937dbdfc9d2f146e828ebe213a95b5f5877ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 27/63] fix: DataLogFile: incomplete log files

---
 src/fluidimage/topologies/log.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index e32b754..f853232 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -38,6 +38,8 @@ class DataLogFile:
         self.topology_name = None
         self._title = str(path_file)
 
+        time_start = None
+
         print(f"Parsing log file: {path_file}")
         with open(path_file, "r", encoding="utf-8") as logfile:
             for iline, line in enumerate(logfile):
@@ -77,7 +79,8 @@ class DataLogFile:
                     try:
                         mem = float(words[-2])
                     except ValueError:
-                        pass
+                        # line not complete
+                        continue
 
                     if ". Launch work " in line:
                         name = words[4]
@@ -97,14 +100,15 @@ class DataLogFile:
                             time.strptime(date[:-3], "%Y-%m-%d_%H-%M-%S")
                         ) + float(date[-3:])
 
-                    if ": starting execution. mem usage" in line:
-                        self.date_start = date
-                        self.mem_start = mem
-                        time_start = t
-                    elif ": end of `compute`. mem usage" in line:
-                        self.date_end = date
-                        self.duration = t - time_start
-                        self.mem_end = mem
+                        if ": starting execution. mem usage" in line:
+                            self.date_start = date
+                            self.mem_start = mem
+                            time_start = t
+                        elif ": end of `compute`. mem usage" in line:
+                            self.date_end = date
+                            if time_start is not None:
+                                self.duration = t - time_start
+                            self.mem_end = mem
 
                 if line.startswith("work ") and " done in " in line:
                     words = line.split()
-- 
2.43.0


From 645614cb3e29c3cf63cd593129179fe5fc9fc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 28/63] fix: DataLogFile: keys containing spaces

---
 src/fluidimage/topologies/log.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/topologies/log.py b/src/fluidimage/topologies/log.py
index f853232..78936f4 100644
--- a/src/fluidimage/topologies/log.py
+++ b/src/fluidimage/topologies/log.py
@@ -83,8 +83,11 @@ class DataLogFile:
                         continue
 
                     if ". Launch work " in line:
-                        name = words[4]
-                        key = words[5][1:-2]
+                        # the key can contain spaces
+                        name, _, key = line.split(". Launch work ", 1)[
+                            1
+                        ].partition(" (")
+                        key = key.rpartition("). mem usage")[0]
                         t = float(words[0])
                         works.append(
                             {
@@ -112,8 +115,8 @@ class DataLogFile:
 
                 if line.startswith("work ") and " done in " in line:
                     words = line.split()
-                    name = words[1]
-                    key = words[2][1:-1]
+                    name, _, key = line[len("work ") :].partition(" (")
+                    key = key.rpartition(") done in ")[0]
                     try:
                         duration = float(words[-2])
                     except ValueError:
-- 
2.43.0


From 94389642230876a91e7a78ac9eb5ca04aa0c6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 29/63] fix: wrong vectors not saved without
 threshold_diff_neighbour

---
 src/fluidimage/works/piv/fix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 8867d64..959d7c7 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -129,8 +129,8 @@ Parameters indicating how are detected and processed false vectors.
                     ivec
                 ] += f" (diff = {sqrt(differences2[ivec]):.2f})"
 
-            piv_results.deltaxs_wrong = deltaxs_wrong
-            piv_results.deltays_wrong = deltays_wrong
+        piv_results.deltaxs_wrong = deltaxs_wrong
+        piv_results.deltays_wrong = deltays_wrong
 
         if self.piv_work.params.piv0.nb_peaks_to_search < 2:
             return piv_results
-- 
2.43.0


From f209b8ce3e563cd51086f554a3144bb757bd3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 30/63] fix: several peaks without threshold_diff_neighbour

---
 src/fluidimage/works/piv/fix.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 959d7c7..4f5846d 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -102,22 +102,24 @@ Parameters indicating how are detected and processed false vectors.
                 inds = (delta2s > displacement_max2).nonzero()[0]
             put_to_nan(inds, "delta2 < displacement_max2")
 
-        if self.params_fix.threshold_diff_neighbour is not None:
-            threshold = self.params_fix.threshold_diff_neighbour
-            ixvecs = self.piv_work.ixvecs
-            iyvecs = self.piv_work.iyvecs
+        ixvecs = self.piv_work.ixvecs
+        iyvecs = self.piv_work.iyvecs
 
-            ixvecs, iyvecs = self.piv_work._xyoriginalimage_from_xymasked(
-                ixvecs, iyvecs
-            )
+        ixvecs, iyvecs = self.piv_work._xyoriginalimage_from_xymasked(
+            ixvecs, iyvecs
+        )
 
-            dxs_neighbors, dys_neighbors = mean_neighbors_xy(
-                deltaxs, deltays, iyvecs, ixvecs
-            )
+        # also used to choose between the peaks
+        dxs_neighbors, dys_neighbors = mean_neighbors_xy(
+            deltaxs, deltays, iyvecs, ixvecs
+        )
+
+        diff_x = dxs_neighbors - deltaxs
+        diff_y = dys_neighbors - deltays
+        differences2 = diff_x**2 + diff_y**2
 
-            diff_x = dxs_neighbors - deltaxs
-            diff_y = dys_neighbors - deltays
-            differences2 = diff_x**2 + diff_y**2
+        if self.params_fix.threshold_diff_neighbour is not None:
+            threshold = self.params_fix.threshold_diff_neighbour
 
             with np.errstate(invalid="ignore"):
                 inds = (differences2 > threshold**2).nonzero()[0]
-- 
2.43.0


From c7b23ce861bf268accaf38d764064340e9954255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 31/63] fix: secondary peaks: displacement_max compared to a
 squared displacement

---
 src/fluidimage/works/piv/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 4f5846d..2365ae0 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -191,7 +191,7 @@ Parameters indicating how are detected and processed false vectors.
 
                 if (
                     self.params_fix.displacement_max
-                    and dx**2 + dy**2 > self.params_fix.displacement_max
+                    and dx**2 + dy**2 > self.params_fix.displacement_max**2
                 ):
                     continue
 
-- 
2.43.0


From a5c57ad5745b8d4a8e2410507e202d8c3dcecb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 32/63] fix: calib_direct: undefined variable ax in the figures
 of checks

---
 src/fluidimage/calibration/calib_direct.py | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fluidimage/calibration/calib_direct.py b/src/fluidimage/calibration/calib_direct.py
index ffdf6c1..11a4d30 100644
--- a/src/fluidimage/calibration/calib_direct.py
+++ b/src/fluidimage/calibration/calib_direct.py
@@ -469,25 +469,25 @@ class DirectStereoReconstruction:
             plt.figure()
             plt.quiver(indx0, indy0, dx0, dy0)
             plt.axis("equal")
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.title("Cam 0 in pixel")
             plt.figure()
             plt.quiver(X0[:, 0], X0[:, 1], dX0[:, 0], dX0[:, 1])
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 0 in m")
             plt.figure()
             plt.quiver(indx1, indy1, dx1, dy1)
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 1 in pixel")
             plt.figure()
             plt.quiver(X1[:, 0], X1[:, 1], dX1[:, 0], dX1[:, 1])
-            ax.set_xlabel("x (pix)")
-            ax.set_ylabel("y (pix)")
+            plt.xlabel("x (pix)")
+            plt.ylabel("y (pix)")
             plt.axis("equal")
             plt.title("Cam 1 in m")
             plt.show()
@@ -661,20 +661,20 @@ class DirectStereoReconstruction:
         if check:
             plt.figure()
             plt.quiver(self.grid_x, self.grid_y, d0xcam, d0ycam)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Cam 0 plane projection")
             plt.figure()
             plt.quiver(self.grid_x, self.grid_y, d1xcam, d1ycam)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Cam 1 plane projection")
             plt.figure()
             plt.quiver(self.grid_x, self.grid_y, dX, dY)
-            ax.set_xlabel("X")
-            ax.set_ylabel("Y")
+            plt.xlabel("X")
+            plt.ylabel("Y")
             plt.axis("equal")
             plt.title("Reconstruction on laser plane")
             plt.show()
-- 
2.43.0


From 8dda15f698dac42d1d75af216ac6345b627d492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 33/63] fix: import_executor_class: logging not imported

---
 src/fluidimage/executors/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/executors/__init__.py b/src/fluidimage/executors/__init__.py
index be61320..b11223f 100644
--- a/src/fluidimage/executors/__init__.py
+++ b/src/fluidimage/executors/__init__.py
@@ -37,6 +37,7 @@ an executor compared to another.
 """
 
 import importlib
+import logging
 import os
 import sys
 
-- 
2.43.0


From 2f4cef229e0c40182a5fa4733db5851bc03ddcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 34/63] fix: HeavyPIVResults.save(out_format='uvmat')

---
 src/fluidimage/data_objects/piv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 4dac8ac..90d8736 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -369,8 +369,10 @@ class HeavyPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
+            results = MultipassPIVResults()
+            results.append(self)
             with h5netcdf.File(path_file, "w") as file:
-                self._save_as_uvmat(file)
+                results._save_as_uvmat(file)
         else:
             with h5py.File(path_file, "w") as file:
                 file.attrs["class_name"] = "HeavyPIVResults"
-- 
2.43.0


From 29d62dd2beaaacaf0a471884707e71b529f3a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 35/63] fix: nb_cpu_cores: NameError without Cpus_allowed

---
 src/fluidimage/topologies/nb_cpu_cores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/nb_cpu_cores.py b/src/fluidimage/topologies/nb_cpu_cores.py
index 1c40662..4eebf2b 100644
--- a/src/fluidimage/topologies/nb_cpu_cores.py
+++ b/src/fluidimage/topologies/nb_cpu_cores.py
@@ -31,8 +31,8 @@ try:  # should work on UNIX
     if m:
         nb_cpus_allowed = bin(int(m.group(1).replace(",", ""), 16)).count("1")
 
-    if nb_cpus_allowed > 0:
-        nb_cores = nb_cpus_allowed
+        if nb_cpus_allowed > 0:
+            nb_cores = nb_cpus_allowed
 
     with open("/proc/cpuinfo", encoding="utf-8") as file:
         cpuinfo = file.read()
-- 
2.43.0


From e3903a87c55eae06935588906ad247eddb091299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 36/63] fix: np.float does not exist anymore in numpy

---
 src/fluidimage/calcul/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 6261676..9024c17 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -149,7 +149,7 @@ class CUFFT2DReal2Complex(OperatorFFTBase):
         dev = api.get_platforms()[0].get_devices()
         self.thr = api.Thread.create(dev)
         fft = FFT(self.arrayK, axes=(0, 1))
-        scale = mul_param(self.arrayK, np.float)
+        scale = mul_param(self.arrayK, float)
         fft.parameter.input.connect(
             scale, scale.output, input_prime=scale.input, param=scale.param
         )
-- 
2.43.0


From 53edc12e7335ba67c537d3e6bbce07ebe50fcdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 37/63] fix: error codes for all the reasons saved in the PIV
 files

---
 src/fluidimage/data_objects/piv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 90d8736..9b59b17 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -440,6 +440,12 @@ class HeavyPIVResults(DataObject):
                             code = 3
                         elif error.startswith(b"diff neighbour too large"):
                             code = 4
+                        elif error.startswith(b"close boundary"):
+                            code = 5
+                        elif error.startswith(b"wrong subpix"):
+                            code = 6
+                        elif error.startswith(b"Bad im_crop shape"):
+                            code = 7
                         else:
                             code = code_unknow
                         error_codes[idx] = code
-- 
2.43.0


From ac8f5785a0e6a60d134a9c68cfd222cb6e260384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 38/63] fix: make_light_result: y positions for the
 intermediate passes

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 9b59b17..7fa2a8d 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -734,7 +734,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From 30649640dd07b1e145519c8d4a46ca1c8713bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 39/63] fix: decode the keys of the dictionaries read in PIV
 files

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 7fa2a8d..e38a9f8 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -492,7 +492,7 @@ class HeavyPIVResults(DataObject):
                 dictionary = {}
                 for key, value in zip(keys, values):
                     try:
-                        key = k.decode()
+                        key = key.decode()
                     except AttributeError:
                         pass
                     try:
-- 
2.43.0


From ebced5c64469d0194280a2eb268d8aacdedad927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 40/63] fix: order of the TPS subdomains when a PIV result is
 loaded

---
 src/fluidimage/data_objects/piv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index e38a9f8..80fb5b4 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -508,12 +508,12 @@ class HeavyPIVResults(DataObject):
         if "deltaxs_tps" in g_piv.keys():
             g = g_piv["deltaxs_tps"]
             self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltaxs_tps.append(g[f"subdom{i}"][...])
             g = g_piv["deltays_tps"]
             self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltays_tps.append(g[f"subdom{i}"][...])
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From 20e86b51cae9da6b907d99e799c2b83f11e91405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 41/63] fix: preproc topology: mode 'complete' tests all the
 files saved for a subset

---
 src/fluidimage/data_objects/preproc.py | 22 +++++-----------------
 src/fluidimage/topologies/preproc.py   | 16 +++++++---------
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..4d5b93b 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -60,25 +60,12 @@ def get_ind_middle(serie):
     return ind_middle_start, ind_middle_end
 
 
-def get_name_preproc(serie, name_files, ind_serie, nb_series, out_format):
-    ind_middle_start, ind_middle_end = get_ind_middle(serie)
-
-    if ind_serie == 0 and nb_series == 1:
-        s = -1
-    elif ind_serie == 0:
-        s = ind_middle_start
-    elif ind_serie == nb_series - 1:
-        s = -1
-    else:
-        s = ind_middle_start
-
+def get_name_preproc(name_file, out_format):
+    """Name of the file in which a preprocessed image is saved"""
     if out_format == "img":
-        return name_files[s]
+        return name_file
 
-    else:
-        fname, ext = os.path.splitext(name_files[s])
-        fname += "." + out_format
-        return fname
+    return os.path.splitext(name_file)[0] + "." + out_format
 
 
 class ArraySerie(ArrayCouple):
@@ -165,6 +152,7 @@ class PreprocResults(LightPIVResults):
                 imsave_h5(path_file, v, self.params, attrs, as_int=True)
             else:
                 # Try to save in formats supported by PIL.Image
+                path_file = os.path.join(path, get_name_preproc(k, out_format))
                 imsave(path_file, v, format=out_format, as_int=True)
 
         self.clear_data()
diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 2161b20..e14c59b 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -268,15 +268,13 @@ Parameters describing image saving after preprocessing.
         """Compute the indices corresponding to the series to be computed"""
         index_subsets = []
         for ind_subset, subset in self.series.items():
-            names_serie = subset.get_name_arrays()
-            name_preproc = get_name_preproc(
-                subset,
-                names_serie,
-                ind_subset,
-                self.series.nb_series,
-                self.params.saving.format,
-            )
-            if not (self.path_dir_result / name_preproc).exists():
+            # all the images of a subset are saved
+            paths = [
+                self.path_dir_result
+                / get_name_preproc(name, self.params.saving.format)
+                for name in subset.get_name_arrays()
+            ]
+            if not all(path.exists() for path in paths):
                 index_subsets.append(ind_subset)
         return index_subsets
 
-- 
2.43.0


From ee7d5e84a066e7c6acc438c80b8d61406d4102d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 42/63] fix: surface tracking: parameter k_x is used when there
 is no reference image

---
 src/fluidimage/works/surface_tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index 51a8620..eb39962 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -257,8 +257,9 @@ class WorkSurfaceTracking(BaseWork):
             average wave vector from the reference frame
         """
         if len(serie) == 0:
-            logger.warning("0 ref image. Use of default k_x = 40.625.")
-            return 40.625
+            k_x = self.params.surface_tracking.k_x
+            logger.warning("0 ref image. Use of default k_x = %s.", k_x)
+            return k_x
         names = serie.get_path_arrays()
         ref = np.zeros((self.ymax - self.ymin, self.xmax - self.xmin))
         ii = 0
-- 
2.43.0


From ceb83f3e35bd7911a5a483758ce93f9a578eee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 43/63] fix: name of the parameter ind_stop in the
 documentation

---
 src/fluidimage/works/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/__init__.py b/src/fluidimage/works/__init__.py
index 181f588..6c7019c 100644
--- a/src/fluidimage/works/__init__.py
+++ b/src/fluidimage/works/__init__.py
@@ -139,7 +139,7 @@ Parameters indicating the input series of images.
 
 - ind_step : int, {1}
 
-- int_stop : None
+- ind_stop : None
 
 """,
         )
-- 
2.43.0


From fad357680dc2afaeb51d5d992bc493515b27cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 44/63] fix: TopologyBase.compute with an executor object

---
 src/fluidimage/topologies/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 0f252c5..e6306e3 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -399,6 +399,8 @@ class TopologyBase:
                 stop_if_error=stop_if_error,
                 **kwargs_executor,
             )
+        else:
+            self.executor = executor
 
         self.executor.compute()
 
-- 
2.43.0


From 11032e9ca477a91eed679640404caa5af0b260b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 45/63] fix: uvmat format: fields of the spline interpolation
 (vectors without value, several subdomains)

---
 src/fluidimage/data_objects/piv.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 80fb5b4..0068f69 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -671,37 +671,41 @@ class MultipassPIVResults(DataObject):
             if ir.params.multipass.use_tps:
                 str_nb_subdom = f"nb_subdomain_{iuvmat}"
                 try:
-                    file.dimensions[str_nb_subdom] = np.shape(ir.deltaxs_tps)[0]
-                    file.dimensions[f"nb_tps{iuvmat}"] = np.shape(ir.deltaxs_tps)[
-                        1
-                    ]
-                    tmp[inds] = ir.deltaxs_smooth
+                    # the subdomains can have different numbers of centres
+                    nb_centres = [len(arr) for arr in ir.deltaxs_tps]
+                    shape_tps = (len(nb_centres), max(nb_centres))
+                    deltaxs_tps = np.zeros(shape_tps, dtype=np.float32)
+                    deltays_tps = np.zeros(shape_tps, dtype=np.float32)
+                    for j, nb in enumerate(nb_centres):
+                        deltaxs_tps[j, :nb] = ir.deltaxs_tps[j]
+                        deltays_tps[j, :nb] = ir.deltays_tps[j]
+
+                    file.dimensions[str_nb_subdom] = shape_tps[0]
+                    file.dimensions[f"nb_vec_tps_{iuvmat}"] = shape_tps[1]
+                    tmp[inds] = ir.deltaxs_smooth[inds]
                     file.create_variable(
                         f"Civ{iuvmat}_U_smooth", (str_nb_vec,), data=tmp
                     )
-                    tmp[inds] = ir.deltays_smooth
+                    tmp[inds] = ir.deltays_smooth[inds]
                     file.create_variable(
                         f"Civ{iuvmat}_V_smooth", (str_nb_vec,), data=tmp
                     )
                     file.create_variable(
                         f"Civ{iuvmat}_U_tps",
                         (str_nb_subdom, f"nb_vec_tps_{iuvmat}"),
-                        data=ir.deltaxs_tps,
+                        data=deltaxs_tps,
                     )
                     file.create_variable(
                         f"Civ{iuvmat}_V_tps",
                         (str_nb_subdom, f"nb_vec_tps_{iuvmat}"),
-                        data=ir.deltays_tps,
+                        data=deltays_tps,
                     )
-                    tmp = [None] * file.dimensions[str_nb_subdom]
-                    for j in range(file.dimensions[str_nb_subdom]):
-                        tmp[j] = np.shape(ir.deltaxs_tps[j])[0]
                     file.create_variable(
                         f"Civ{iuvmat}_NbCentres",
                         (f"nb_subdomain_{iuvmat}",),
-                        data=tmp,
+                        data=nb_centres,
                     )
-                except:
+                except AttributeError:
                     print(f"no tps field at passe n {iuvmat}")
 
             file.create_variable(
-- 
2.43.0


From 6f84510c24f871bd66b5198f06bc2f3c6641698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 46/63] fix: last pass of a PIV file with more than 10 passes
 (light results, viewer)

---
 src/fluidimage/data_objects/piv.py | 4 +++-
 src/fluidimage/gui/piv_viewer.py   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 0068f69..4f51f40 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -893,7 +893,9 @@ class LightPIVResults(DataObject):
 
         with h5py.File(path, "r") as file:
             keys = [(key) for key in file.keys() if "piv" in key]
-            self._load_from_hdf5_object(file[max(keys)])
+            # for a multipass file, last pass ("piv10" after "piv9")
+            key_last = max(keys, key=lambda key: (len(key), key))
+            self._load_from_hdf5_object(file[key_last])
 
     def _load_from_hdf5_object(self, g_piv):
         file = g_piv.parent
diff --git a/src/fluidimage/gui/piv_viewer.py b/src/fluidimage/gui/piv_viewer.py
index 5ba0ef0..c2ecdd7 100644
--- a/src/fluidimage/gui/piv_viewer.py
+++ b/src/fluidimage/gui/piv_viewer.py
@@ -47,8 +47,8 @@ def get_piv_data_from_path(path):
     ):
         if class_name == "MultipassPIVResults":
             with h5py.File(path, "r") as file:
-                keys = sorted(key for key in file.keys() if key.startswith("piv"))
-            key_piv = keys[-1]
+                nb_passes = file.attrs["nb_passes"]
+            key_piv = f"piv{nb_passes - 1}"
         else:
             key_piv = "piv"
 
-- 
2.43.0


From a2fa0975a7a1d1c350fe7074b43db53055af55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 47/63] fix: FFTW operator used by several threads at the same
 time

---
 src/fluidimage/calcul/fft.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/calcul/fft.py b/src/fluidimage/calcul/fft.py
index 9024c17..b47a279 100644
--- a/src/fluidimage/calcul/fft.py
+++ b/src/fluidimage/calcul/fft.py
@@ -27,6 +27,7 @@ that.
 """
 
 from abc import ABC, abstractmethod
+from threading import Lock
 
 import numpy as np
 import numpy.fft as np_fft
@@ -215,6 +216,9 @@ class FFTW2DReal2Complex(OperatorFFTBase):
     def __init__(self, nx, ny):
         super().__init__(nx, ny)
 
+        # the arrays of the plans are shared by the threads using this object
+        self._lock = Lock()
+
         self.arrayX = pyfftw.empty_aligned(self.shapeX, self.type_real)
         self.arrayK = pyfftw.empty_aligned(self.shapeK, self.type_complex)
 
@@ -234,14 +238,16 @@ class FFTW2DReal2Complex(OperatorFFTBase):
         )
 
     def fft(self, field):
-        self.arrayX[:] = field
-        self.fftplan()
-        return self.arrayK.copy()
+        with self._lock:
+            self.arrayX[:] = field
+            self.fftplan()
+            return self.arrayK.copy()
 
     def ifft(self, field_fft):
-        self.arrayK[:] = field_fft
-        self.ifftplan(normalise_idft=False)
-        return self.arrayX.copy()
+        with self._lock:
+            self.arrayK[:] = field_fft
+            self.ifftplan(normalise_idft=False)
+            return self.arrayX.copy()
 
 
 class FFTW2DReal2ComplexFloat64(FFTW2DReal2Complex):
-- 
2.43.0


From b31a2e0e913c78e93f836404ac5cf849e8904a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 48/63] fix: preparation of the PIV works while several threads
 use them

---
 src/fluidimage/works/piv/singlepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/singlepass.py b/src/fluidimage/works/piv/singlepass.py
index 359a360..a4435ca 100644
--- a/src/fluidimage/works/piv/singlepass.py
+++ b/src/fluidimage/works/piv/singlepass.py
@@ -137,8 +137,9 @@ class BaseWorkPIV(BaseWorkWithMask):
 
         ixvecs, iyvecs = np.meshgrid(ixvecs, iyvecs)
 
-        self.ixvecs_grid = ixvecs.flatten()
         self.iyvecs_grid = iyvecs.flatten()
+        # last, since its presence means that the object is prepared (threads)
+        self.ixvecs_grid = ixvecs.flatten()
 
     def calcul(self, couple):
         """Calcul the PIV (one pass) from a couple of images."""
-- 
2.43.0


From cd6761c935a042a45a8984f18d02f926e41b27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 49/63] fix: VectorFieldOnGrid.extract_square: bounds of the
 first direction

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3ada5a3..ba483c0 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -530,7 +530,7 @@ class VectorFieldOnGrid:
             start1 = cut
             stop1 = cut + n
             start0 = (n0 - n) // 2
-            stop0 = start1 + n
+            stop0 = start0 + n
 
         return self.extract(start0, stop0, start1, stop1)
 
-- 
2.43.0


From ec48082a9362831aba7276e24ef2f3ac5b6510d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 50/63] fix: VectorFieldOnGrid.gaussian_filter: third component
 was not filtered

---
 src/fluidimage/postproc/vector_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index ba483c0..3f4d0d8 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -450,8 +450,10 @@ class VectorFieldOnGrid:
         ret.vy = _gaussianf(self.vy)
 
         if hasattr(self, "vz"):
-            # ret.vz = _gaussianf(self.vz)
-            pass
+            if isinstance(self.vz, Number):
+                ret.vz = self.vz
+            else:
+                ret.vz = _gaussianf(self.vz)
 
         if valid:
             mf = int(np.floor((2 * int(truncate * max(sigma) + 0.5) + 1) / 2))
-- 
2.43.0


From a9ec6140002e91b607ffa73c415d3833e7e50b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 51/63] fix: save and load VectorFieldOnGrid without z or
 without third component

---
 src/fluidimage/postproc/vector_field.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3f4d0d8..6fae856 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -108,6 +108,9 @@ class VectorFieldOnGrid:
         if isinstance(z, np.ndarray) and z.ndim == 0:
             z = z.item()
 
+        if isinstance(vz, np.ndarray) and vz.ndim == 0:
+            vz = vz.item()
+
         self.x = x
         self.y = y
         self.z = z
@@ -185,7 +188,11 @@ class VectorFieldOnGrid:
             file.attrs["module_name"] = cls.__module__
 
             for attr_name in self._attr_saved_as_dataset:
-                file.create_dataset(attr_name, data=getattr(self, attr_name))
+                value = getattr(self, attr_name)
+                if value is None:
+                    # no dataset for an undefined z
+                    continue
+                file.create_dataset(attr_name, data=value)
 
             for attr_name in self._attr_saved_as_attr:
                 file.attrs[attr_name] = getattr(self, attr_name)
@@ -251,7 +258,10 @@ class VectorFieldOnGrid:
             kwargs = {}
             with h5py.File(path, "r") as file:
                 for attr_name in cls._attr_saved_as_dataset:
-                    kwargs[attr_name] = file[attr_name][...]
+                    if attr_name in file:
+                        kwargs[attr_name] = file[attr_name][...]
+                    else:
+                        kwargs[attr_name] = None
                 for attr_name in cls._attr_saved_as_attr:
                     attr = file.attrs[attr_name]
                     if isinstance(attr, np.ndarray):
-- 
2.43.0


From 0731f515447d0d812dfbefc0cc95e5442f87cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 52/63] fix: names, units, history and parameters lost by the
 operations on VectorFieldOnGrid

---
 src/fluidimage/postproc/vector_field.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 6fae856..e5bb4e0 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -12,7 +12,7 @@
 """
 
 import itertools
-from copy import deepcopy
+from copy import copy, deepcopy
 from numbers import Number
 from typing import Optional
 
@@ -277,6 +277,15 @@ class VectorFieldOnGrid:
             raise NotImplementedError
         return cls(**kwargs)
 
+    def _new_with_velocity(self, vx, vy, vz):
+        """Return a new field with the grid and the metadata of `self`"""
+        result = copy(self)
+        result.vx = vx
+        result.vy = vy
+        result.vz = vz
+        result.history = list(self.history)
+        return result
+
     def __add__(self, other):
         if isinstance(other, Number):
             vx = self.vx + other
@@ -287,14 +296,10 @@ class VectorFieldOnGrid:
             vy = self.vy + other.vy
             vz = self.vz + other.vz
 
-        return type(self)(self.x, self.y, self.z, vx, vy, vz)
+        return self._new_with_velocity(vx, vy, vz)
 
     def __radd__(self, other):
-        if other == 0:
-            return self
-
-        else:
-            return self.__add__(other)
+        return self.__add__(other)
 
     def __sub__(self, other):
         if isinstance(other, Number):
@@ -306,7 +311,7 @@ class VectorFieldOnGrid:
             vy = self.vy - other.vy
             vz = self.vz - other.vz
 
-        return type(self)(self.x, self.y, self.z, vx, vy, vz)
+        return self._new_with_velocity(vx, vy, vz)
 
     def __mul__(self, other):
         if isinstance(other, Number):
@@ -317,7 +322,7 @@ class VectorFieldOnGrid:
             vx = other.vx * self.vx
             vy = other.vy * self.vy
             vz = other.vz * self.vz
-        return type(self)(self.x, self.y, self.z, vx, vy, vz)
+        return self._new_with_velocity(vx, vy, vz)
 
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -331,7 +336,7 @@ class VectorFieldOnGrid:
             vx = self.vx / other.vx
             vy = self.vy / other.vy
             vz = self.vz / other.vz
-        return type(self)(self.x, self.y, self.z, vx, vy, vz)
+        return self._new_with_velocity(vx, vy, vz)
 
     def __truediv__(self, other):
         return self.__div__(other)
-- 
2.43.0


From 7a51886b882789e0de1ccfb0ec6773457d31ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 53/63] fix: times lost by the operations on
 ArrayOfVectorFieldsOnGrid

---
 src/fluidimage/postproc/vector_field.py | 33 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index e5bb4e0..421c796 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -640,6 +640,14 @@ class ArrayOfVectorFieldsOnGrid:
         nb_files = len(self)
         self.times = np.linspace(0, timestep * (nb_files - 1), nb_files)
 
+    def _new_with_same_times(self):
+        """Return a new empty array with the times of `self`"""
+        result = type(self)()
+        result.timestep = self.timestep
+        result.times = self.times
+        result.unit_time = self.unit_time
+        return result
+
     def compute_time_average(self):
         """Compute the time average"""
         result = deepcopy(self._list[0])
@@ -656,37 +664,34 @@ class ArrayOfVectorFieldsOnGrid:
         self._list.extend(l)
 
     def __add__(self, other):
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self._list:
             result.append(v + other)
         return result
 
     def __radd__(self, other):
-        if other == 0:
-            return self
-        else:
-            return self.__add__(other)
+        return self.__add__(other)
 
     def __sub__(self, other):
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self._list:
             result.append(v - other)
         return result
 
     def __mul__(self, other):
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self._list:
             result.append(v * other)
         return result
 
     def __rmul__(self, other):
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self._list:
             result.append(other * v)
         return result
 
     def __truediv__(self, other):
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self._list:
             result.append(v / other)
         return result
@@ -717,14 +722,14 @@ class ArrayOfVectorFieldsOnGrid:
 
     def median_filter(self, size, niter=1, valid=True):
         """Return a new array filtered with a median filter"""
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self:
             result.append(v.median_filter(size, niter=niter, valid=valid))
         return result
 
     def gaussian_filter(self, sigma, niter=1, truncate=3, valid=True):
         """Return a new array filtered with a gaussian filter"""
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self:
             result.append(
                 v.gaussian_filter(
@@ -735,21 +740,21 @@ class ArrayOfVectorFieldsOnGrid:
 
     def extract(self, start0, stop0, start1, stop1, phys=False):
         """Extract new fields from the fields"""
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self:
             result.append(v.extract(start0, stop0, start1, stop1, phys=phys))
         return result
 
     def truncate(self, cut=1, phys=False):
         """Truncate the fields"""
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self:
             result.append(v.truncate(cut=cut, phys=phys))
         return result
 
     def extract_square(self, cut=0):
         """Extract square fields"""
-        result = type(self)()
+        result = self._new_with_same_times()
         for v in self:
             result.append(v.extract_square(cut=cut))
         return result
-- 
2.43.0


From e813208fda869d52ee458fb39e5decd653a71e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 54/63] fix: display of vector fields with argument skip

---
 src/fluidimage/postproc/vector_field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 421c796..a1f940a 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -379,8 +379,8 @@ class VectorFieldOnGrid:
 
         # minus because the y axis is inverted
         q = ax.quiver(
-            self.x[skip[0]],
-            self.y[skip[1]],
+            self.x[skip[1]],
+            self.y[skip[0]],
             self.vx[skip],
             self.vy[skip],
             scale_units="xy",
@@ -807,7 +807,7 @@ class ArrayOfVectorFieldsOnGrid:
         ax=None,
         skip=(slice(None), slice(None)),
     ):
-        ax = self._list[ind].display(scale, background, ax, skip)
+        ax = self._list[ind].display(scale, background, ax, skip=skip)
         fig = ax.figure
         self.currentind = ind
 
-- 
2.43.0


From 6ec080581bda493fe4fc5e77aa0e27664920305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 55/63] fix: get_grid_pixel with masked images

---
 src/fluidimage/postproc/piv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/postproc/piv.py b/src/fluidimage/postproc/piv.py
index 9d351f2..f903412 100644
--- a/src/fluidimage/postproc/piv.py
+++ b/src/fluidimage/postproc/piv.py
@@ -18,6 +18,7 @@
 import h5py
 
 from fluiddyn.util.paramcontainer import ParamContainer
+from fluidimage.data_objects.piv import get_slices_from_strcrop
 from fluidimage.works.piv.multipass import WorkPIV
 
 from .vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid
@@ -99,14 +100,19 @@ def get_grid_pixel(params, shape_images, index_pass=-1):
     params_default = WorkPIV.create_default_params()
     params_default._modif_from_other_params(params)
 
+    strcrop = params_default.mask.strcrop
+    if strcrop is not None:
+        # the vectors are computed from the masked images
+        shape_images = tuple(
+            len(range(*slice_.indices(int(size))))
+            for slice_, size in zip(get_slices_from_strcrop(strcrop), shape_images)
+        )
+
     work_multi = WorkPIV(params_default)
     work_multi._prepare_with_image(imshape=shape_images)
 
     work = work_multi.works_piv[index_pass]
-    xs1d = work.ixvecs
-    ys1d = work.iyvecs
-
-    return xs1d, ys1d
+    return work._xyoriginalimage_from_xymasked(work.ixvecs, work.iyvecs)
 
 
 class ArrayPIV(ArrayOfVectorFieldsOnGrid):
-- 
2.43.0


From 99ebb3435e9194ce85de4b300f5ad52b746964fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 56/63] fix: peaks close to the first rows and columns are
 hidden to search other peaks

The start of the slices was negative so that nothing was hidden. The correlation
given as argument (saved and used for the subpix) is not modified anymore.
---
 src/fluidimage/calcul/correl.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 09f423a..a71aba4 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -231,9 +231,10 @@ class CorrelBase(ABC):
         except PIVError as piv_error:
             ix, iy, correl_max = piv_error.results
             # second chance to find a better peak...
+            correl = correl.copy()
             correl[
-                iy - self.particle_radius : iy + self.particle_radius + 1,
-                ix - self.particle_radius : ix + self.particle_radius + 1,
+                max(0, iy - self.particle_radius) : iy + self.particle_radius + 1,
+                max(0, ix - self.particle_radius) : ix + self.particle_radius + 1,
             ] = np.nan
             try:
                 ix2, iy2, correl_max2 = self._compute_indices_max(correl, norm)
@@ -254,8 +255,12 @@ class CorrelBase(ABC):
             other_peaks = []
             for _ in range(0, self.nb_peaks_to_search - 1):
                 correl[
-                    iy - self.particle_radius : iy + self.particle_radius + 1,
-                    ix - self.particle_radius : ix + self.particle_radius + 1,
+                    max(0, iy - self.particle_radius) : iy
+                    + self.particle_radius
+                    + 1,
+                    max(0, ix - self.particle_radius) : ix
+                    + self.particle_radius
+                    + 1,
                 ] = np.nan
                 try:
                     ix, iy, correl_max_other = self._compute_indices_max(
-- 
2.43.0


From 635bb48329aa12353771d77724b4f7de589b981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 57/63] fix: correlation with only nan: error for this vector
 (no AssertionError)

---
 src/fluidimage/calcul/correl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a71aba4..d38c295 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -105,8 +105,6 @@ def nan_indices_max(
             correl_max = value
             break
 
-    assert not np.isnan(correl_max)
-
     i0_max = 0
     i1_max = 0
 
-- 
2.43.0


From 6393a4186bee6486e446a2d792a152f6b7c1c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 58/63] fix: bad mode for CorrelScipySignal: ValueError (was
 TypeError)

---
 src/fluidimage/calcul/correl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index d38c295..d23bcf8 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -467,7 +467,7 @@ class CorrelScipySignal(CorrelBase):
 
         modes = ["valid", "same"]
         if self.mode not in modes:
-            raise ValueError("mode should be in " + modes)
+            raise ValueError(f"mode should be in {modes}")
 
         if self.mode == "same":
             ny, nx = self.im0_shape
-- 
2.43.0


From ab97c7a1a151ddc854d81a63a0be7d84477114d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 59/63] fix: nan obtained by a subpix method is an error (not
 returned silently)

---
 src/fluidimage/calcul/subpix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/subpix.py b/src/fluidimage/calcul/subpix.py
index 8276c32..c8ad619 100644
--- a/src/fluidimage/calcul/subpix.py
+++ b/src/fluidimage/calcul/subpix.py
@@ -200,7 +200,8 @@ class SubPix:
         elif method == "no_subpix":
             deplx = deply = 0.0
 
-        if deplx**2 + deply**2 > 2 * (0.5 + nsubpix) ** 2:
+        # also True if the displacement is nan
+        if not deplx**2 + deply**2 <= 2 * (0.5 + nsubpix) ** 2:
             self.count_too_large_depl += 1
             if method == "2d_gaussian2":
                 return self.compute_subpix(
-- 
2.43.0


From d9cee3bdbdebf415e58661c77f3ecd22ddde886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 60/63] fix: surface tracking: do not modify the image nor the
 reference when processing a frame

---
 src/fluidimage/works/surface_tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/surface_tracking.py b/src/fluidimage/works/surface_tracking.py
index eb39962..88a0e28 100644
--- a/src/fluidimage/works/surface_tracking.py
+++ b/src/fluidimage/works/surface_tracking.py
@@ -357,7 +357,7 @@ class WorkSurfaceTracking(BaseWork):
         if x_min <= self.xmin:
             x_min = self.xmin
             print("INFO:x_min adjusted")
-        calc_frame = self.ref
+        calc_frame = self.ref.copy()
         calc_frame[:, x_min - self.xmin : -(self.xmax - x_max)] = frame[
             self.ymin : self.ymax, x_min:x_max
         ]
@@ -443,7 +443,8 @@ class WorkSurfaceTracking(BaseWork):
         """
         if self.crop_edge is False:
             frame = frame[ymin:ymax, xmin:xmax]
-        frame1 = self.frame_normalize(frame).astype(float)
+        # astype copies: frame_normalize works in place
+        frame1 = self.frame_normalize(frame.astype(float))
         frame_filtered = self.rectify_frame(frame1, gain, filt)
         inversed_filt = np.fft.ifft2(frame_filtered)
         inversed_filt = inversed_filt[::red_factor, ::red_factor]
-- 
2.43.0


From 5715842fc4ec2fa4f8b57915a094f6ecf2b84205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 61/63] fix: rescale_intensity_tanh returns a new array for a
 threshold equal to 0

---
 src/fluidimage/works/preproc/_toolbox_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 9cf3132..d606c96 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -348,7 +348,7 @@ def rescale_intensity_tanh(img=None, threshold=None):
         threshold = 2 * np.sqrt(np.mean(img**2))
 
     if threshold == 0:
-        return img
+        return img.copy()
 
     img_out = np.tanh(img / threshold)
     img_out = np.floor(np.max(img) / np.max(img_out) * img_out)
-- 
2.43.0


From 5d2c97e05f929c92a5b75ef3f6d8572b83623272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 62/63] fix: get_ind_middle with two indices and an even number
 of first indices

---
 src/fluidimage/data_objects/preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index 4d5b93b..5717bae 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -55,7 +55,7 @@ def get_ind_middle(serie):
     ind_middle_start = int(math.floor(Ni / 2.0)) * Nj
     ind_middle_end = int(math.ceil(Ni / 2.0)) * Nj
     if Ni % 2 == 0:
-        ind_middle_start -= 1
+        ind_middle_start -= Nj
 
     return ind_middle_start, ind_middle_end
 
-- 
2.43.0


From 2a271f4596cd4efbebf11be6f38cf8de93cf23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 63/63] fix: results appear under their final name only when
 they are complete

An interruption during the writing of a result left an incomplete file, which
was not recomputed in mode 'complete'.
---
 src/fluidimage/data_objects/piv.py            | 27 +++++++++++----
 src/fluidimage/topologies/image2image.py      |  3 +-
 src/fluidimage/topologies/mean.py             |  5 +--
 src/fluidimage/topologies/surface_tracking.py |  3 +-
 src/fluidimage/util/__init__.py               |  5 +--
 src/fluidimage/util/util.py                   | 33 ++++++++++++++++++-
 6 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 4f51f40..164b76f 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -29,7 +29,7 @@ from fluidimage import ParamContainer
 from fluidimage import __version__ as fluidimage_version
 from fluidimage import imread
 from fluidimage._version import hg_rev
-from fluidimage.util import safe_eval
+from fluidimage.util import renamed_when_complete, safe_eval
 
 from .display_piv import DisplayPIV
 
@@ -371,10 +371,16 @@ class HeavyPIVResults(DataObject):
         if out_format == "uvmat":
             results = MultipassPIVResults()
             results.append(self)
-            with h5netcdf.File(path_file, "w") as file:
+            with (
+                renamed_when_complete(path_file) as path_tmp,
+                h5netcdf.File(path_tmp, "w") as file,
+            ):
                 results._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with (
+                renamed_when_complete(path_file) as path_tmp,
+                h5py.File(path_tmp, "w") as file,
+            ):
                 file.attrs["class_name"] = "HeavyPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 self._save_in_hdf5_object(file)
@@ -605,10 +611,16 @@ class MultipassPIVResults(DataObject):
             path_file = name
 
         if out_format == "uvmat":
-            with h5netcdf.File(path_file, "w") as file:
+            with (
+                renamed_when_complete(path_file) as path_tmp,
+                h5netcdf.File(path_tmp, "w") as file,
+            ):
                 self._save_as_uvmat(file)
         else:
-            with h5py.File(path_file, "w") as file:
+            with (
+                renamed_when_complete(path_file) as path_tmp,
+                h5py.File(path_tmp, "w") as file,
+            ):
                 file.attrs["class_name"] = "MultipassPIVResults"
                 file.attrs["module_name"] = "fluidimage.data_objects.piv"
                 file.attrs["Conventions"] = (
@@ -854,7 +866,10 @@ class LightPIVResults(DataObject):
         else:
             path_file = name
 
-        with h5py.File(path_file, "w") as file:
+        with (
+            renamed_when_complete(path_file) as path_tmp,
+            h5py.File(path_tmp, "w") as file,
+        ):
             file.attrs["class_name"] = "LightPIVResults"
             file.attrs["module_name"] = "fluidimage.data_objects.piv"
             file.attrs["Conventions"] = (
diff --git a/src/fluidimage/topologies/image2image.py b/src/fluidimage/topologies/image2image.py
index 9837ffe..317d0c6 100644
--- a/src/fluidimage/topologies/image2image.py
+++ b/src/fluidimage/topologies/image2image.py
@@ -10,10 +10,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave
 from fluidimage import ParamContainer
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread
+from fluidimage.util import imread, imsave
 from fluidimage.works.image2image import WorkImage2Image
 
 from .base import TopologyBaseFromImages
diff --git a/src/fluidimage/topologies/mean.py b/src/fluidimage/topologies/mean.py
index b5d0671..072fef4 100644
--- a/src/fluidimage/topologies/mean.py
+++ b/src/fluidimage/topologies/mean.py
@@ -19,7 +19,7 @@ from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
 from fluidimage import ParamContainer
 from fluidimage.topologies.base import TopologyBaseFromImages
 from fluidimage.topologies.splitters import SplitterFromImages
-from fluidimage.util import imread, logger
+from fluidimage.util import imread, logger, renamed_when_complete
 from fluidimage.works import BaseWorkFromImage
 
 # from transonic import boost, Array
@@ -189,7 +189,8 @@ class TopologyMeanImage(TopologyBaseFromImages):
         )
 
         im = Image.fromarray(self.result)
-        im.save(self.path_result, "PNG")
+        with renamed_when_complete(self.path_result) as path_tmp:
+            im.save(path_tmp, "PNG")
         im.close()
 
         for path_tmp_file in path_tmp_files:
diff --git a/src/fluidimage/topologies/surface_tracking.py b/src/fluidimage/topologies/surface_tracking.py
index 0301185..e503829 100644
--- a/src/fluidimage/topologies/surface_tracking.py
+++ b/src/fluidimage/topologies/surface_tracking.py
@@ -18,10 +18,9 @@
 import sys
 from pathlib import Path
 
-from fluiddyn.io.image import imsave_h5
 from fluidimage import ParamContainer, SerieOfArraysFromFiles, SeriesOfArrays
 from fluidimage.topologies import TopologyBase
-from fluidimage.util import imread, logger
+from fluidimage.util import imread, imsave_h5, logger
 from fluidimage.works import image2image
 from fluidimage.works.surface_tracking import WorkSurfaceTracking
 
diff --git a/src/fluidimage/util/__init__.py b/src/fluidimage/util/__init__.py
index 3bf07a1..ee2a471 100644
--- a/src/fluidimage/util/__init__.py
+++ b/src/fluidimage/util/__init__.py
@@ -9,8 +9,6 @@
 
 """
 
-from fluiddyn.io.image import imsave_h5
-
 from .log import (
     DEBUG,
     config_logging,
@@ -26,7 +24,9 @@ from .util import (
     get_txt_memory_usage,
     imread,
     imsave,
+    imsave_h5,
     print_memory_usage,
+    renamed_when_complete,
     safe_eval,
     str_short,
 )
@@ -35,6 +35,7 @@ __all__ = [
     "imread",
     "imsave",
     "imsave_h5",
+    "renamed_when_complete",
     "print_memory_usage",
     "get_txt_memory_usage",
     "logger",
diff --git a/src/fluidimage/util/util.py b/src/fluidimage/util/util.py
index 15a4d59..8132c2f 100644
--- a/src/fluidimage/util/util.py
+++ b/src/fluidimage/util/util.py
@@ -22,7 +22,10 @@ Provides:
 
 """
 
+import os
+from contextlib import contextmanager
 from pathlib import Path
+from tempfile import TemporaryDirectory
 
 import psutil
 from IPython.lib.pretty import pretty
@@ -30,6 +33,7 @@ from simpleeval import EvalWithCompoundTypes
 
 from fluiddyn.io.image import imread as _imread
 from fluiddyn.io.image import imsave as _imsave
+from fluiddyn.io.image import imsave_h5 as _imsave_h5
 from fluiddyn.util import get_memory_usage
 from fluiddyn.util import terminal_colors as term
 
@@ -63,14 +67,41 @@ def imread(path):
     return array
 
 
+@contextmanager
+def renamed_when_complete(path):
+    """Give the path of a temporary file, which becomes ``path`` at the end
+
+    The temporary file has the same name but it is in a temporary directory (in
+    the same directory as ``path``), so that an interruption during the writing
+    cannot leave an incomplete file which would be taken for a result.
+
+    """
+    path = Path(path)
+    with TemporaryDirectory(dir=path.parent, prefix=".tmp_") as path_tmp_dir:
+        yield os.path.join(path_tmp_dir, path.name)
+        # the suffix can be modified when the file is written
+        for path_tmp in Path(path_tmp_dir).iterdir():
+            path_tmp.replace(path.parent / path_tmp.name)
+
+
 def imsave(path, array, **kwargs):
     "tmp docstring"
-    _imsave(path, array, **kwargs)
+    with renamed_when_complete(path) as path_tmp:
+        _imsave(path_tmp, array, **kwargs)
 
 
 imsave.__doc__ = _imsave.__doc__
 
 
+def imsave_h5(path, array, *args, **kwargs):
+    "tmp docstring"
+    with renamed_when_complete(path) as path_tmp:
+        _imsave_h5(path_tmp, array, *args, **kwargs)
+
+
+imsave_h5.__doc__ = _imsave_h5.__doc__
+
+
 def get_txt_memory_usage(string="Memory usage", color="OKGREEN"):
     mem = get_memory_usage()
     cstr = cstring((string + ": ").ljust(30) + f"{mem:.3f} Mb", color=color)
-- 
2.43.0


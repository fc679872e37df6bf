From a144282b76c1dc9dc3a3189b64a24dbc3d64fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 01/31] fix: do not consume the cached out-of-band buffers when
 deserializing

Reading a `put` object on the root process emptied the list of raw buffers
kept in the serialization cache, so that pushing the same object to a worker
afterwards failed with "not enough out-of-band buffers".
---
 unidist/core/backends/mpi/core/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..2643c3f 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,9 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # Make a copy because deserialization consumes the buffers
+        # while the caller may still need its own list.
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 99121a65bea127b5532d93ca4731e97061b6593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 02/31] fix: do not hang in `get` when the same object ref is
 given several times

---
 unidist/core/backends/mpi/core/controller/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..a8a8d45 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,9 +415,13 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
-    remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
-    ]
+    # Every remote data ID has to be requested only once
+    # since the owner sends the data to the requester only once.
+    remote_data_ids = list(
+        dict.fromkeys(
+            data_id for data_id in data_ids if not object_store.contains(data_id)
+        )
+    )
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
         request_worker_data(remote_data_ids)
-- 
2.43.0


From 103eb01a6a13e13d7688fe133c2b4a620fd0a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 03/31] fix: raise the task exception on every `get`, not only
 on the first one

---
 unidist/core/backends/mpi/core/controller/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index a8a8d45..dfd3645 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -429,6 +429,11 @@ def get(data_ids):
     logger.debug("GET {} ids".format(common.unwrapped_data_ids_list(data_ids)))
 
     values = [object_store.get(data_id) for data_id in data_ids]
+    # A failed task has to raise every time its result is retrieved,
+    # not only when the data gets transferred from a worker.
+    for value in values:
+        if isinstance(value, Exception):
+            raise value
 
     # Initiate reference count based cleaup
     # if all the tasks were completed
-- 
2.43.0


From ba6981da43ff0cac26116ddeadb2e09308b97fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/31] fix: do not lose get requests for the output of a
 running async actor method

---
 unidist/core/backends/mpi/core/worker/request_store.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..04953a2 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -146,18 +146,18 @@ class RequestStore:
         def check_request(data_id):
             # Check non-blocking data requests for one of the workers
             if data_id in self._nonblocking_get_requests:
-                ranks_with_get_request = self._nonblocking_get_requests[data_id]
+                # Take the requests out before processing because
+                # they are put back if the data is not available yet.
+                ranks_with_get_request = self._nonblocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
                     # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=False)
-                del self._nonblocking_get_requests[data_id]
             # Check blocking data requests for other of the workers
             if data_id in self._blocking_get_requests:
-                ranks_with_get_request = self._blocking_get_requests[data_id]
+                ranks_with_get_request = self._blocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
                     # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=True)
-                del self._blocking_get_requests[data_id]
 
         if isinstance(data_ids, (list, tuple)):
             for data_id in data_ids:
-- 
2.43.0


From b1d959e06939ad979a973f4396cd989b24c50865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/31] fix: re-check pending tasks once an async actor method
 completes

---
 unidist/core/backends/mpi/core/worker/task_store.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..9194128 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -314,6 +314,9 @@ class TaskStore:
                     completed_data_ids,
                     root_monitor,
                 )
+                # The output may be an argument of the tasks pending on this worker.
+                self.check_pending_tasks()
+                self.check_pending_actor_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
-- 
2.43.0


From b68935857e1666885d4a0927f9a939eff4cb2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/31] fix: wait for the shutdown signal from the root's
 monitor

---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index dfd3645..eb5aaf6 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -328,7 +328,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From b0d3c8e95ecbb871c8da78e9dbb9200bfe3664a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:06 +0000
Subject: [PATCH 07/31] fix: report completion of failed tasks and of tasks
 without outputs

A failed task did not report its output IDs to the monitor so `wait` on them
hung, the worker crashed on a failed task with `num_returns=0`, and async actor
methods that failed or returned nothing did not report completion at all.
---
 unidist/core/backends/mpi/core/worker/task_store.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 9194128..be02a0b 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -233,6 +233,7 @@ class TaskStore:
         if inspect.iscoroutinefunction(task):
 
             async def execute():
+                completed_data_ids = []
                 try:
                     w_logger.debug("- Start task execution -")
 
@@ -257,14 +258,17 @@ class TaskStore:
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
+                    # Failed tasks are complete as well so report their outputs too.
                     if (
                         isinstance(output_data_ids, (list, tuple))
                         and len(output_data_ids) > 1
                     ):
                         for output_id in output_data_ids:
                             local_store.put(output_id, e)
-                    else:
+                        completed_data_ids = list(output_data_ids)
+                    elif output_data_ids is not None:
                         local_store.put(output_data_ids, e)
+                        completed_data_ids = [output_data_ids]
                 else:
                     if output_data_ids is not None:
                         if (
@@ -349,14 +353,17 @@ class TaskStore:
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
+                # Failed tasks are complete as well so report their outputs too.
                 if (
                     isinstance(output_data_ids, (list, tuple))
                     and len(output_data_ids) > 1
                 ):
                     for output_id in output_data_ids:
                         local_store.put(output_id, e)
-                else:
+                    completed_data_ids = list(output_data_ids)
+                elif output_data_ids is not None:
                     local_store.put(output_data_ids, e)
+                    completed_data_ids = [output_data_ids]
             else:
                 if output_data_ids is not None:
                     if (
-- 
2.43.0


From 4a93ebafc32f7425d45e9a84c56b6aa86c7825eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:51 +0000
Subject: [PATCH 08/31] fix: turn missing or unserializable task outputs into
 task failures

A task that returned fewer objects than `num_returns` left the remaining refs
unresolved forever, and an output that cannot be serialized crashed the worker.
---
 .../backends/mpi/core/worker/task_store.py    | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index be02a0b..52e7815 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -249,6 +249,19 @@ class TaskStore:
                     # Execute user task
                     f_to_execute = functools.partial(task, *args, **kwargs)
                     output_values = await f_to_execute()
+                    if isinstance(output_data_ids, (list, tuple)):
+                        output_values = list(output_values)
+                        if len(output_values) < len(output_data_ids):
+                            raise ValueError(
+                                f"Task returned {len(output_values)} objects "
+                                f"but num_returns={len(output_data_ids)}."
+                            )
+                        serialized_outputs = [
+                            serialize_complex_data(value)
+                            for _, value in zip(output_data_ids, output_values)
+                        ]
+                    elif output_data_ids is not None:
+                        serialized_outputs = [serialize_complex_data(output_values)]
 
                     w_logger.info(
                         "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -279,7 +292,7 @@ class TaskStore:
                             for idx, (output_id, value) in enumerate(
                                 zip(output_data_ids, output_values)
                             ):
-                                serialized_data = serialize_complex_data(value)
+                                serialized_data = serialized_outputs[idx]
                                 local_store.put(output_id, value)
                                 if (
                                     shared_store.is_allocated()
@@ -292,7 +305,7 @@ class TaskStore:
                                     )
                                 completed_data_ids[idx] = output_id
                         else:
-                            serialized_data = serialize_complex_data(output_values)
+                            serialized_data = serialized_outputs[0]
                             local_store.put(output_data_ids, output_values)
                             if (
                                 shared_store.is_allocated()
@@ -344,6 +357,19 @@ class TaskStore:
 
                 # Execute user task
                 output_values = task(*args, **kwargs)
+                if isinstance(output_data_ids, (list, tuple)):
+                    output_values = list(output_values)
+                    if len(output_values) < len(output_data_ids):
+                        raise ValueError(
+                            f"Task returned {len(output_values)} objects "
+                            f"but num_returns={len(output_data_ids)}."
+                        )
+                    serialized_outputs = [
+                        serialize_complex_data(value)
+                        for _, value in zip(output_data_ids, output_values)
+                    ]
+                elif output_data_ids is not None:
+                    serialized_outputs = [serialize_complex_data(output_values)]
 
                 w_logger.info(
                     "Task evaluation time: {}".format(time.perf_counter() - start)
@@ -374,7 +400,7 @@ class TaskStore:
                         for idx, (output_id, value) in enumerate(
                             zip(output_data_ids, output_values)
                         ):
-                            serialized_data = serialize_complex_data(value)
+                            serialized_data = serialized_outputs[idx]
                             local_store.put(output_id, value)
                             if (
                                 shared_store.is_allocated()
@@ -387,7 +413,7 @@ class TaskStore:
                                 )
                             completed_data_ids[idx] = output_id
                     else:
-                        serialized_data = serialize_complex_data(output_values)
+                        serialized_data = serialized_outputs[0]
                         local_store.put(output_data_ids, output_values)
                         if (
                             shared_store.is_allocated()
-- 
2.43.0


From 8c1d59ebf4649282a6b8c0a63fbd812c11e96b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:50 +0000
Subject: [PATCH 09/31] fix: re-check pending tasks depending on just executed
 pending actor tasks and vice versa

---
 unidist/core/backends/mpi/core/worker/task_store.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 52e7815..17c2a2d 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -94,7 +94,11 @@ class TaskStore:
                 pending_request = self.process_task_request(request)
                 if pending_request:
                     updated_list.append(pending_request)
+            is_progress = len(updated_list) < len(self._pending_tasks_list)
             self._pending_tasks_list = updated_list
+            if is_progress:
+                # Pending actor tasks may depend on the tasks executed above.
+                self.check_pending_actor_tasks()
 
     def clear_pending_tasks(self):
         """
@@ -118,7 +122,11 @@ class TaskStore:
                 pending_request = self.process_task_request(request)
                 if pending_request:
                     updated_list.append(pending_request)
+            is_progress = len(updated_list) < len(self._pending_actor_tasks_list)
             self._pending_actor_tasks_list = updated_list
+            if is_progress:
+                # Pending tasks may depend on the actor tasks executed above.
+                self.check_pending_tasks()
 
     def clear_pending_actor_tasks(self):
         """
-- 
2.43.0


From 173306b96185a5a35573b61fb54ca7d28eb10622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:06 +0000
Subject: [PATCH 10/31] fix: do not crash the worker on a task exception that
 cannot be transferred

---
 .../backends/mpi/core/worker/task_store.py    | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 17c2a2d..4739c40 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -14,7 +14,10 @@ from unidist.core.backends.mpi.core.async_operations import AsyncOperations
 from unidist.core.backends.mpi.core.object_store import ObjectStore
 from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
-from unidist.core.backends.mpi.core.serialization import serialize_complex_data
+from unidist.core.backends.mpi.core.serialization import (
+    deserialize_complex_data,
+    serialize_complex_data,
+)
 from unidist.core.backends.mpi.core.worker.request_store import RequestStore
 
 mpi_state = communication.MPIState.get_instance()
@@ -26,6 +29,33 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 
 
+def get_transferable_exception(exception):
+    """
+    Get an exception that can be sent to another process.
+
+    Parameters
+    ----------
+    exception : Exception
+        The exception raised by a task.
+
+    Returns
+    -------
+    Exception
+        The exception itself or ``RuntimeError`` describing it
+        if the exception cannot be serialized and deserialized.
+    """
+    try:
+        serialized_data = serialize_complex_data(exception)
+        deserialize_complex_data(
+            serialized_data["s_data"],
+            serialized_data["raw_buffers"],
+            serialized_data["buffer_count"],
+        )
+    except Exception:
+        return RuntimeError(f"{type(exception).__name__}: {exception}")
+    return exception
+
+
 class TaskStore:
     """Class that stores tasks/actor-tasks that couldn't be executed due to data dependencies."""
 
@@ -278,6 +308,7 @@ class TaskStore:
 
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
+                    e = get_transferable_exception(e)
 
                     # Failed tasks are complete as well so report their outputs too.
                     if (
@@ -386,6 +417,7 @@ class TaskStore:
 
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
+                e = get_transferable_exception(e)
 
                 # Failed tasks are complete as well so report their outputs too.
                 if (
-- 
2.43.0


From 77da6638f172bbb82c375f7cb1094ef89e14477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:36 +0000
Subject: [PATCH 11/31] fix: report failures of pyseq task arguments and
 outputs on get instead of on submit

---
 unidist/core/backends/pyseq/core/api.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..0420dd9 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -100,16 +100,22 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        # Retrieving an argument raises if the task that produces it failed.
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
         result = func(*materialized_args, **materialized_kwargs)
+        if num_returns > 1:
+            result = list(result)
+            if len(result) < num_returns:
+                raise ValueError(
+                    f"Task returned {len(result)} objects but num_returns={num_returns}."
+                )
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
 
-- 
2.43.0


From a8052fc331ba7e9db6a9ee81796dbef31999c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:36 +0000
Subject: [PATCH 12/31] fix: wait for any ready objects in pymp and do not
 misreport them

---
 .../core/backends/pymp/core/object_store.py   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..04d97ef 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -129,19 +129,15 @@ class ObjectStore:
             data_ids = [data_ids]
 
         ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
         not_ready = data_ids
 
-        while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+        while len(ready) != num_returns and not_ready:
+            for data_id in not_ready[:]:
+                if not isinstance(self.store_delayed[data_id], Delayed):
+                    ready.append(data_id)
+                    not_ready.remove(data_id)
+
+                if len(ready) == num_returns:
+                    break
 
         return ready, not_ready
-- 
2.43.0


From 08360f2a42276117e33b11bef84c09e9f82ecd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:36 +0000
Subject: [PATCH 13/31] fix: do not unpickle user's bytes stored in pymp object
 store

---
 .../core/backends/pymp/core/object_store.py   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 04d97ef..365e8b5 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -16,6 +16,20 @@ class Delayed:
     pass
 
 
+class Pickled:
+    """
+    Class-type that wraps a serialized callable so that it differs from user's ``bytes``.
+
+    Parameters
+    ----------
+    data : bytes
+        Serialized callable.
+    """
+
+    def __init__(self, data):
+        self.data = data
+
+
 class ObjectStore:
     """
     Class that stores objects and provides access to these from different processes.
@@ -66,7 +80,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            Pickled(pkl.dumps(data)) if callable(data) else data
+        )
         return data_id
 
     def get(self, data_ids):
@@ -101,7 +117,9 @@ class ObjectStore:
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = (
+                pkl.loads(value.data) if isinstance(value, Pickled) else value
+            )
 
         return values if is_list else values[0]
 
-- 
2.43.0


From ad84497617af73af14e53e388d7cb81a339285a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 14/31] fix: do not hang on pymp task outputs that are missing
 or cannot be transferred

---
 .../backends/pymp/core/process_manager.py     | 44 ++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..14bb88b 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -41,23 +41,47 @@ class Worker(Process):
             data_ids = task.data_ids
             try:
                 value = task()
+                if isinstance(data_ids, list) and len(data_ids) > 1:
+                    value = list(value)
+                    if len(value) < len(data_ids):
+                        raise ValueError(
+                            f"Task returned {len(value)} objects but num_returns={len(data_ids)}."
+                        )
+                self._put_outputs(data_ids, value)
             except Exception as e:
                 if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
+                    values = [e] * len(data_ids)
                 else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
+                    values = e
+                try:
+                    self._put_outputs(data_ids, values)
+                except Exception:
+                    # The exception cannot be transferred
+                    e = RuntimeError(f"{type(e).__name__}: {e}")
+                    values = [e] * len(data_ids) if isinstance(data_ids, list) else e
+                    self._put_outputs(data_ids, values)
             finally:
                 self.task_queue.task_done()
         return
 
+    def _put_outputs(self, data_ids, value):
+        """
+        Put task's output to the object store.
+
+        Parameters
+        ----------
+        data_ids : unidist.core.backends.common.data_id.DataID, list of DataID or None
+            ``DataID``-(s) of the task's output.
+        value : object
+            Task's output.
+        """
+        if data_ids is not None:
+            if isinstance(data_ids, list) and len(data_ids) > 1:
+                for data_id, val in zip(data_ids, value):
+                    self._obj_store.put(val, data_id)
+            else:
+                self._obj_store.put(value, data_ids)
+
     def add_task(self, task):
         """
         Add `task` to `self.task_queue`.
-- 
2.43.0


From 09fa4f1945cd1224452a63fe1b15875e32fe7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 15/31] fix: do not run out of bounds when copying less than an
 aligned block

---
 unidist/core/backends/mpi/core/memory/memory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..831916c 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -29,6 +29,11 @@ namespace unidist {
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right <= left) {
+      // There is no even a single aligned block to be divided between threads.
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From 3eeff8c124a2cc3d7f0498f930130d2e18dc9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 16/31] fix: always reply to a blocking request for the data

---
 unidist/core/backends/mpi/core/controller/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..4b1e522 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -252,8 +252,9 @@ def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
     """
     local_store = LocalObjectStore.get_instance()
 
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # A blocking request always has to be replied because the requester waits for the data.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         logger.debug("PUT LOCAL {} id to {} rank".format(data_id._id, dest_rank))
 
         mpi_state = communication.MPIState.get_instance()
@@ -310,8 +311,9 @@ def _push_shared_data(dest_rank, data_id, is_blocking_op):
         even for a worker since it can get into controller mode.
     """
     local_store = LocalObjectStore.get_instance()
-    # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    # Check if data was already pushed.
+    # A blocking request always has to be replied because the requester waits for the data.
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         mpi_state = communication.MPIState.get_instance()
         shared_store = SharedObjectStore.get_instance()
         mpi_state = communication.MPIState.get_instance()
-- 
2.43.0


From 54fececb5cc158f752abd7436710ca1c140d683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 17/31] fix: take actor tasks into account when comparing
 submitted and executed tasks

---
 unidist/core/backends/mpi/core/controller/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
-- 
2.43.0


From 30c0ffdf39fff235b3276c3d4a9011ff3922ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 18/31] fix: recognize strings when a boolean parameter is put

---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..30389f5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value.strip().lower() in {"true", "yes", "1"}
+            if isinstance(value, str)
+            else bool(value)
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From 2ea7af91823a0d6338b39625da98d07d392b6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 19/31] fix: quote values passed to the spawned processes

---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index eb5aaf6..c53b7db 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -157,7 +157,7 @@ def init():
         if MpiSpawn.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.MpiSpawn.put({MpiSpawn.get()})"]
         if MpiHosts.get_value_source() != ValueSource.DEFAULT:
-            py_str += [f"cfg.MpiHosts.put('{MpiHosts.get()}')"]
+            py_str += [f"cfg.MpiHosts.put({MpiHosts.get()!r})"]
         if CpuCount.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.CpuCount.put({CpuCount.get()})"]
         if MpiPickleThreshold.get_value_source() != ValueSource.DEFAULT:
@@ -187,7 +187,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 46d11c53ae3a3c3d4398e94aac92b7cfc7ad78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:27 +0000
Subject: [PATCH 20/31] fix: do not leak reservations when shared memory cannot
 be reserved

---
 .../core/backends/mpi/core/monitor/shared_memory_manager.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..b873ff4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -174,10 +174,11 @@ class SharedMemoryManager:
                 "`SharedMemoryManager` cannot be used if the shared object storage is not enabled."
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
-        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if first_index is None:
             raise MemoryError("Overflow memory")
+        service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
         if service_index is None:
+            self.free_memory.release(first_index, last_index)
             raise MemoryError("Overflow service memory")
 
         reservation_info = ImmutableDict(
-- 
2.43.0


From 6af88e1bd93ee741e2ae3c0129c96935c0fb4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:04 +0000
Subject: [PATCH 21/31] fix: do not request shared data from a monitor that may
 be already shut down

---
 unidist/core/backends/mpi/core/worker/loop.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..9bdc57e 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -157,15 +157,20 @@ async def worker_loop():
                 )
 
         elif operation_type == common.Operation.PUT_SHARED_DATA:
-            result = pull_data(mpi_state.global_comm, source_rank)
+            if not ready_to_shutdown_posted:
+                result = pull_data(mpi_state.global_comm, source_rank)
 
-            # Clear cached request to another worker, if data_id became available
-            request_store.discard_data_request(result["id"])
+                # Clear cached request to another worker, if data_id became available
+                request_store.discard_data_request(result["id"])
 
-            # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+                # Check pending requests. Maybe some data became available.
+                task_store.check_pending_tasks()
+                # Check pending actor requests also.
+                task_store.check_pending_actor_tasks()
+            else:
+                # Just take the message out because the monitor of the host owning the data,
+                # which would have to be asked for the data, may have already been shut down.
+                communication.mpi_recv_object(mpi_state.global_comm, source_rank)
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
-- 
2.43.0


From f2a6e77d9dbf7c4163ba1f097ddb549688e3796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 22/31] fix: cancel unfinished coroutines of a worker that is
 getting to shutdown

---
 unidist/core/backends/mpi/core/worker/loop.py       |  1 +
 unidist/core/backends/mpi/core/worker/task_store.py | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 9bdc57e..864d488 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -215,6 +215,7 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            task_store.cancel_background_tasks()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
             async_operations.finish()
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 4739c40..f7ce721 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -166,6 +166,18 @@ class TaskStore:
 
         self._pending_actor_tasks_list.clear()
 
+    def cancel_background_tasks(self):
+        """
+        Cancel started async tasks.
+
+        Otherwise, a task completing later would communicate with
+        the monitor, which may have already been shut down.
+        """
+        w_logger.debug("Cancel background tasks")
+
+        for background_task in self.background_tasks:
+            background_task.cancel()
+
     def request_worker_data(self, dest_rank, data_id):
         """
         Send GET operation with data request to destination worker.
-- 
2.43.0


From 6fc2ad7d33ed31910390fafd3f9013eb23c5b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:36 +0000
Subject: [PATCH 23/31] fix: keep shared memory of an object while its
 deserialized buffers are in use

---
 .../backends/mpi/core/shared_object_store.py  | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 4aff7c4..8da9816 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import ctypes
 import os
 import sys
 import time
@@ -279,7 +280,7 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
-    def _increment_ref_number(self, data_id, service_index):
+    def _increment_ref_number(self, data_id, service_index, user=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
 
@@ -288,10 +289,12 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         service_index : int
             The service buffer index.
+        user : object, optional
+            The object using the data. If ``None``, it is `data_id`.
 
         Notes
         -----
-        This function create `weakref.finalizer' with decrement function which will be called after data_id collecting.
+        This function create `weakref.finalizer' with decrement function which will be called after `user` collecting.
         """
         if MPI.Is_finalized():
             return
@@ -311,7 +314,10 @@ class SharedObjectStore:
             )
         self.finalizers.append(
             weakref.finalize(
-                data_id, self._decrement_ref_number, str(data_id), service_index
+                data_id if user is None else user,
+                self._decrement_ref_number,
+                str(data_id),
+                service_index,
             )
         )
 
@@ -444,24 +450,27 @@ class SharedObjectStore:
 
         first_index = self.service_shared_buffer[service_index + self.FIRST_DATA_INDEX]
 
-        s_data_last_index = first_index + s_data_len
-        s_data = (
-            self.shared_buffer[first_index:s_data_last_index].cast("b").toreadonly()
+        # The deserialized data refers to shared memory without a copy and may outlive its data ID,
+        # so it uses shared memory until the last of its buffers is collected.
+        data_len = s_data_len + sum(buffer_lens)
+        shared_data = (ctypes.c_char * data_len).from_buffer(
+            self.shared_buffer, first_index
         )
-        prev_last_index = s_data_last_index
+        if buffer_lens:
+            self._increment_ref_number(data_id, service_index, user=shared_data)
+        shared_view = memoryview(shared_data).cast("b").toreadonly()
+
+        s_data = shared_view[:s_data_len]
+        prev_last_index = s_data_len
         raw_buffers = []
         for raw_buffer_len in buffer_lens:
             raw_last_index = prev_last_index + raw_buffer_len
-            raw_buffers.append(
-                self.shared_buffer[prev_last_index:raw_last_index]
-                .cast("b")
-                .toreadonly()
-            )
+            raw_buffers.append(shared_view[prev_last_index:raw_last_index])
             prev_last_index = raw_last_index
 
         data = deserialize_complex_data(s_data, raw_buffers, buffer_count)
         self.logger.debug(
-            f"Rank {communication.MPIState.get_instance().global_rank}: Get {data_id} from {first_index} to {prev_last_index}. Service index: {service_index}"
+            f"Rank {communication.MPIState.get_instance().global_rank}: Get {data_id} from {first_index} to {first_index + data_len}. Service index: {service_index}"
         )
         return data
 
-- 
2.43.0


From e9da01a06b6fca30f87ed500bb241fd7eb72ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:52 +0000
Subject: [PATCH 24/31] fix: copy out-of-band buffers of task arguments sent in
 a non-blocking way

The buffers are the memory of user objects, so a program that changed an
argument after submitting a task could make the task see the changed data.
---
 unidist/core/backends/mpi/core/communication.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..abc5b98 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -799,7 +799,11 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     else:
         serialized_data = serialize_complex_data(data)
         s_data = serialized_data["s_data"]
-        raw_buffers = serialized_data["raw_buffers"]
+        # The out-of-band buffers are the memory of user objects, which the user is free to change
+        # as soon as the non-blocking call returns, so the data to be sent has to be copied.
+        raw_buffers = [
+            memoryview(buf.tobytes()) for buf in serialized_data["raw_buffers"]
+        ]
         buffer_count = serialized_data["buffer_count"]
         info_package = common.MetadataPackage.get_task_info(
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-- 
2.43.0


From ce08ff5dea41d9293b0dcaf9f15f75962995a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 25/31] fix: serialize builtin containers and data frames with
 cloudpickle

Functions and instances of classes of the main program nested in a tuple, a set
or an object column were transferred by name, which failed in the main program
or terminated the worker receiving them.
---
 unidist/core/backends/mpi/core/serialization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index 2643c3f..62f0b45 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -157,7 +157,9 @@ class ComplexDataSerializer:
         dict
             Dictionary with array of serialized bytes.
         """
-        s_frame = pkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
+        # Object columns may hold functions and instances of classes of the main program,
+        # which ``pickle`` would transfer by name.
+        s_frame = cpkl.dumps(frame, protocol=5, buffer_callback=self._buffer_callback)
         self.buffer_count.append(self._callback_counter)
         self._callback_counter = 0
         return {"__pickle5_custom__": True, "as_bytes": s_frame}
@@ -192,7 +194,9 @@ class ComplexDataSerializer:
         dict
             Dictionary with array of serialized bytes.
         """
-        return {"__pickle_custom__": True, "as_bytes": pkl.dumps(obj)}
+        # Builtin containers (e.g., tuple or set) may hold functions and instances
+        # of classes of the main program, which ``pickle`` would transfer by name.
+        return {"__pickle_custom__": True, "as_bytes": cpkl.dumps(obj)}
 
     def _encode_custom(self, obj):
         """
-- 
2.43.0


From 7e75cd4228e867805eada166d599ca7d1b19b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 26/31] fix: refuse or enlarge shared memory areas too small
 for a single object

With MpiSharedObjectStoreMemory below the object-size threshold (or a tiny
MpiSharedServiceMemory) the service area had no room for any entry, and
the monitor died with IndexError while initializing it.
---
 .../backends/mpi/core/shared_object_store.py   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 8da9816..956b1c4 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -171,8 +171,13 @@ class SharedObjectStore:
                     self.service_memory_size = min(
                         # allowed memory size for service buffer
                         allowed_memory_size - self.shared_memory_size,
-                        # maximum amount of memory required for the service buffer
-                        (self.shared_memory_size // MpiSharedObjectStoreThreshold.get())
+                        # maximum amount of memory required for the service buffer,
+                        # which has to hold information about at least one object
+                        max(
+                            self.shared_memory_size
+                            // MpiSharedObjectStoreThreshold.get(),
+                            1,
+                        )
                         * (self.INFO_SIZE * MPI.LONG.size),
                     )
                 else:
@@ -227,6 +232,15 @@ class SharedObjectStore:
                 + "than the available amount of memory."
             )
 
+        if (
+            self.shared_memory_size < 1
+            or self.service_memory_size < self.INFO_SIZE * MPI.LONG.size
+        ):
+            raise ValueError(
+                "The available amount of memory or the `MpiSharedObjectStoreMemory` and `MpiSharedServiceMemory` values "
+                + "are not enough to store at least one object in shared memory."
+            )
+
         # Shared memory is allocated only once by the monitor process.
         info = MPI.Info.Create()
         info.Set("alloc_shared_noncontig", "true")
-- 
2.43.0


From 9d26a5bf4c32e57d591628a909178b036da7727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 27/31] fix: store objects of the multiprocessing backend
 serialized with cloudpickle

---
 unidist/core/backends/pymp/core/object_store.py    | 14 +++++++-------
 unidist/core/backends/pymp/core/process_manager.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 365e8b5..f912fe0 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -18,12 +18,12 @@ class Delayed:
 
 class Pickled:
     """
-    Class-type that wraps a serialized callable so that it differs from user's ``bytes``.
+    Class-type that wraps a serialized object so that it differs from user's ``bytes``.
 
     Parameters
     ----------
     data : bytes
-        Serialized callable.
+        Serialized object.
     """
 
     def __init__(self, data):
@@ -80,8 +80,10 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
+        # The shared dictionary transfers values with `pickle`, to which classes and
+        # functions defined in the program itself are unknown in another process.
         self.store_delayed[data_id] = (
-            Pickled(pkl.dumps(data)) if callable(data) else data
+            data if isinstance(data, Delayed) else Pickled(pkl.dumps(data))
         )
         return data_id
 
@@ -113,13 +115,11 @@ class ObjectStore:
             while isinstance(self.store_delayed[data_id], Delayed):
                 pass
 
-            value = self.store_delayed[data_id]
+            value = pkl.loads(self.store_delayed[data_id].data)
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = (
-                pkl.loads(value.data) if isinstance(value, Pickled) else value
-            )
+            values[idx] = value
 
         return values if is_list else values[0]
 
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 14bb88b..560f1a5 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -54,12 +54,12 @@ class Worker(Process):
                 else:
                     values = e
                 try:
-                    self._put_outputs(data_ids, values)
+                    pkl.loads(pkl.dumps(e))
                 except Exception:
                     # The exception cannot be transferred
                     e = RuntimeError(f"{type(e).__name__}: {e}")
                     values = [e] * len(data_ids) if isinstance(data_ids, list) else e
-                    self._put_outputs(data_ids, values)
+                self._put_outputs(data_ids, values)
             finally:
                 self.task_queue.task_done()
         return
-- 
2.43.0


From c835ddd171284ffa23668ecd32d67dbbce44bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 28/31] fix: report a task of the multiprocessing backend that
 cannot be deserialized

---
 unidist/core/backends/pymp/core/actor.py           | 3 +--
 unidist/core/backends/pymp/core/api.py             | 4 +---
 unidist/core/backends/pymp/core/process_manager.py | 9 +++------
 3 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 8a5b75e..30b05ff 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -4,7 +4,6 @@
 
 """Actor specific functionality implemented using Python Multiprocessing."""
 
-import cloudpickle as pkl
 from multiprocessing.managers import BaseManager
 
 from unidist.core.backends.pymp.core.object_store import ObjectStore, Delayed
@@ -136,7 +135,7 @@ class Actor:
         task : unidist.core.backends.pymp.core.process_manager.Task
             Task object holding callable function.
         """
-        self._worker.add_task(pkl.dumps(task))
+        self._worker.add_task(task)
 
     def __del__(self):
         """
diff --git a/unidist/core/backends/pymp/core/api.py b/unidist/core/backends/pymp/core/api.py
index 9cc6f21..7c958f9 100644
--- a/unidist/core/backends/pymp/core/api.py
+++ b/unidist/core/backends/pymp/core/api.py
@@ -4,8 +4,6 @@
 
 """High-level API of Python Multiprocessing backend."""
 
-import cloudpickle as pkl
-
 from unidist.config import CpuCount
 from unidist.core.backends.pymp.core.object_store import ObjectStore, Delayed
 from unidist.core.backends.pymp.core.process_manager import (
@@ -144,6 +142,6 @@ def submit(func, *args, num_returns=1, **kwargs):
 
     task = Task(func, data_ids, obj_store, *args, **kwargs)
 
-    ProcessManager.get_instance().submit(pkl.dumps(task))
+    ProcessManager.get_instance().submit(task)
 
     return data_ids
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 560f1a5..d157166 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -35,12 +35,9 @@ class Worker(Process):
     def run(self):
         """Run main infinite loop of process to execute tasks from `self.task_queue`."""
         while 1:
-            task = self.task_queue.get()
-            task = pkl.loads(task)
-
-            data_ids = task.data_ids
+            task, data_ids = self.task_queue.get()
             try:
-                value = task()
+                value = pkl.loads(task)()
                 if isinstance(data_ids, list) and len(data_ids) > 1:
                     value = list(value)
                     if len(value) < len(data_ids):
@@ -91,7 +88,7 @@ class Worker(Process):
         task : unidist.core.backends.pymp.core.process_manager.Task
             Task to be added in the queue.
         """
-        self.task_queue.put(task)
+        self.task_queue.put((pkl.dumps(task), task.data_ids))
 
 
 class ProcessManager:
-- 
2.43.0


From 4a589985bb37e71c695d2314d369ae8f4593908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:57 +0000
Subject: [PATCH 29/31] fix: keep a released actor of the multiprocessing
 backend until its methods have been executed

---
 unidist/core/backends/pymp/core/actor.py           |  4 +++-
 unidist/core/backends/pymp/core/process_manager.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 30b05ff..c5e727c 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -144,4 +144,6 @@ class Actor:
         Free worker, grabbed from the workers pool.
         """
         if self._worker_id is not None:
-            ProcessManager.get_instance().free_worker(self._worker_id)
+            ProcessManager.get_instance().free_worker(
+                self._worker_id, self._cls_obj
+            )
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index d157166..efd5f13 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -114,6 +114,7 @@ class ProcessManager:
                 num_workers = CpuCount.get()
             self.workers = [None] * num_workers
             self.grabbed_workers = [None] * num_workers
+            self.released_objs = [None] * num_workers
             self.__class__._worker_id = 0
 
             obj_store = ObjectStore.get_instance()
@@ -166,10 +167,13 @@ class ProcessManager:
         for idx, is_grabbed in enumerate(self.grabbed_workers):
             if not is_grabbed:
                 self.grabbed_workers[idx] = True
+                if self.released_objs[idx] is not None:
+                    self.workers[idx].task_queue.join()
+                    self.released_objs[idx] = None
                 return self.workers[idx], idx
         raise RuntimeError("Actor can`t be run, no available workers.")
 
-    def free_worker(self, idx):
+    def free_worker(self, idx, cls_obj):
         """
         Free worker by index `idx`.
 
@@ -177,8 +181,13 @@ class ProcessManager:
         ----------
         idx : int
             Index of worker to be freed.
+        cls_obj : multiprocessing.managers.BaseManager
+            Shared manager-class of the actor that grabbed the worker. It is kept
+            until another actor grabs the worker since the methods
+            submitted by the actor may not have been executed yet.
         """
         self.grabbed_workers[idx] = False
+        self.released_objs[idx] = cls_obj
 
     def submit(self, task):
         """
-- 
2.43.0


From e440356395b9434e966db5c9ab0f924a0cf8ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:52 +0000
Subject: [PATCH 30/31] fix: put a collection as one object with the Dask
 backend

---
 unidist/core/backends/dask/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..707a28b 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,8 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # The elements of a collection would become separate futures
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From b0c641c937fc7b63f6bc1cdc6fd485d75592efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:10 +0000
Subject: [PATCH 31/31] fix: pass refs nested in arguments of an actor method
 with the MPI backend

---
 unidist/core/backends/mpi/actor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/actor.py b/unidist/core/backends/mpi/actor.py
index 90f725b..9af95fc 100644
--- a/unidist/core/backends/mpi/actor.py
+++ b/unidist/core/backends/mpi/actor.py
@@ -5,6 +5,7 @@
 """Actor specific functionality using MPI backend."""
 
 import unidist.core.backends.mpi.core as mpi
+from unidist.core.backends.common.utils import unwrap_object_refs
 from unidist.core.base.actor import Actor, ActorMethod
 from unidist.core.base.object_ref import ObjectRef
 
@@ -53,7 +54,11 @@ class MPIActorMethod(ActorMethod):
             num_returns = self._num_returns
 
         class_method = getattr(self._cls, self._method_name)
-        data_ids = class_method(*args, num_returns=num_returns, **kwargs)
+        unwrapped_args = [unwrap_object_refs(arg) for arg in args]
+        unwrapped_kwargs = {k: unwrap_object_refs(v) for k, v in kwargs.items()}
+        data_ids = class_method(
+            *unwrapped_args, num_returns=num_returns, **unwrapped_kwargs
+        )
 
         if num_returns == 1:
             return ObjectRef(data_ids)
-- 
2.43.0


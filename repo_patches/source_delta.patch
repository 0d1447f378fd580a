From 333a6741001a8cd493d6c8edcc61d90043bce899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 01/41] fix: keep the full name of constant layers when
 combining results

str.lstrip("const__") strips single characters, e.g. "const__static" was
stored as "atic".
---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..edd87f6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From a1e6f05790a0dd2ac042c441de3e9aad05ef76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 02/41] fix: find_missing() starts at 0 for an empty list (as
 documented)

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..664a30e 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -384,7 +384,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else -1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From e358e215ed2aee92e68bb9fa6c5c2522dd58d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 03/41] fix: recognize already stored IDs that contain dots or
 path-separators

The default getter cut the ID at the first "." (and at path-separators), so
such items were never found in the container and were processed and stored
again on each run (or mistaken for another item).
---
 rt1/_rtprocess_writer.py | 10 +++++++---
 rt1/processing_config.py |  6 ++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index edd87f6..6c8a56d 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -305,8 +305,8 @@ class RT1_processor(object):
             IDs list.
             The default is None in which case the following function is used:
 
-                >>> # extract filename from given path
-                >>> lambda i: i.split(os.sep)[-1].split(".")[0]
+                >>> # use the "ID" (or the filename if it is the path to a dump-file)
+                >>> lambda i: Path(i["ID"]).stem if i["ID"].endswith(".dump") else i["ID"]
 
         Returns
         -------
@@ -321,7 +321,11 @@ class RT1_processor(object):
             if get_ID is None:
 
                 def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
+                    ID = str(i["ID"])
+                    if ID.endswith(".dump"):
+                        # the path to a dump-file
+                        ID = Path(ID).stem
+
                     if not isidentifier(str(ID)):
                         return f"RT1_{ID}"
                     else:
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..b3f6b23 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -274,9 +274,8 @@ class rt1_processing_config(object):
             IDs list.
             The default is None in which case the following function is used:
 
-                >>> # extract filename from given path
                 >>> def get_ID(i):
-                >>>     ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
+                >>>     ID = str(i["ID"])
                 >>>     if not isidentifier(str(ID)):
                 >>>         return f"RT1_{ID}"
                 >>>     else:
@@ -289,7 +288,6 @@ class rt1_processing_config(object):
             already present in the output HDF container.
 
         """
-        import os
         from .general_functions import isidentifier, find_missing
         from .rtresults import HDFaccessor
         import pandas as pd
@@ -301,7 +299,7 @@ class rt1_processing_config(object):
             if get_ID is None:
 
                 def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
+                    ID = str(i["ID"])
                     if not isidentifier(str(ID)):
                         return f"RT1_{ID}"
                     else:
-- 
2.43.0


From 0ab67a128e91d785ac0252435ecc06cc076085db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 04/41] fix: continue with an existing container in which
 nothing is listed yet

A container without "reader_arg" (e.g. all items failed, or the first write
failed) made every further run crash.
---
 rt1/_rtprocess_writer.py | 8 ++++++--
 rt1/processing_config.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 6c8a56d..f96d5a3 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -337,8 +337,12 @@ class RT1_processor(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    # nothing has been stored so far
+                    found_ID_nums, found_IDs = [], []
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index b3f6b23..4d5e187 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -311,8 +311,12 @@ class rt1_processing_config(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    # nothing has been stored so far
+                    found_ID_nums, found_IDs = [], []
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
-- 
2.43.0


From 2fb1263e7af298dddd43b158fba963dffe0543ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 05/41] fix: count items for which the reader returns None

They were missing in the progress-counts, so the progress never completed.
---
 rt1/_rtprocess_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f96d5a3..3702025 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -476,6 +476,8 @@ class RT1_processor(object):
                 res = self.process_func(data, *args[1:])
                 self.queue.put(res)
             else:
+                # put None in the queue to indicate a missing result
+                self.queue.put(None)
                 log.warning(f"loading {args} resulted in None... skipping")
         except Exception:
             # put None in the queue to indicate an erroneous fit
-- 
2.43.0


From 1f496f050d5aaf5f2cd43a5c159568f8ee3a964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 06/41] fix: report a consistent set of counters in the
 progress message

The counters have been read again without the lock, so the number of failed
fits could be off by one, and the print-thread could die with a
ZeroDivisionError if the first result was counted in between.
---
 rt1/_rtprocess_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 3702025..53fb99d 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -165,7 +165,7 @@ class RT1_processor(object):
         p_meancnt = self.p_meancnt.value + qsize
         self.lock.release()
 
-        if self.p_meancnt.value == 0:
+        if p_meancnt == 0:
             title = f"{'estimating time ...':<28}"
             p_max = self.p_max.value if self.p_max.value else p_totcnt + 1
             meantime = 0
@@ -191,7 +191,7 @@ class RT1_processor(object):
             title=title,
             finalmsg=(
                 "finished! "
-                + f"({p_max} [{self.p_totcnt.value - self.p_meancnt.value}] fits)"
+                + f"({p_max} [{p_totcnt - p_meancnt}] fits)"
             ),
             progress2=p_totcnt - p_meancnt,
         )
-- 
2.43.0


From b996405e15ae62c948f77783adec058322659edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 07/41] fix: treat results that are no dicts as failed items

The combiner dropped all results of the chunk it was working on if one of the
results could not be processed.
---
 rt1/_rtprocess_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 53fb99d..8092d66 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -474,6 +474,10 @@ class RT1_processor(object):
 
             if data is not None:
                 res = self.process_func(data, *args[1:])
+                if res is not None and not isinstance(res, dict):
+                    raise TypeError(
+                        f"the result must be a dict (or None), not {type(res)}"
+                    )
                 self.queue.put(res)
             else:
                 # put None in the queue to indicate a missing result
-- 
2.43.0


From 610e56e7664154e39801a2fef43d37aca03ef4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 08/41] fix: don't block the workers forever after a
 write-error

The writer cleared the event all workers are waiting for before it stopped.
---
 rt1/_rtprocess_writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 8092d66..83565f5 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -459,11 +459,16 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
                 self.write_lock.release()
 
+        # make sure that no worker waits for a writer that is no longer running
+        self.should_wait.set()
+
     def _worker_process(self, *args):
         self.should_wait.wait()
+        # don't start processing if the run has been stopped
+        if self._stop.is_set():
+            return
 
         try:
             if self.reader_func is not None:
-- 
2.43.0


From 1d70a5f7dac67d685dd15c158d1e0918ce539ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 09/41] fix: clean up properly if the setup of the writer-pool
 is interrupted

An error (or signal) during the setup was hidden by an UnboundLocalError, and
the processes that have already been started were never stopped.
---
 rt1/_rtprocess_writer.py | 57 ++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 83565f5..d24e032 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -495,9 +495,9 @@ class RT1_processor(object):
             print()
             log.error(f"problem while processing \n{args}", exc_info=True)
 
-    def _start_writer_process(self, init_func=None, init_args=None):
+    def _start_writer_process(self, init_func=None, init_args=None, procs=None):
         # define a process that writes the results to disc
-        procs = []
+        procs = [] if procs is None else procs
         for i in range(self.n_writer):
             ctx = mp.get_context("spawn")
             writer = ctx.Process(
@@ -510,8 +510,8 @@ class RT1_processor(object):
             writer.start()
         return procs
 
-    def _start_combiner_process(self, init_func=None, init_args=None):
-        procs = []
+    def _start_combiner_process(self, init_func=None, init_args=None, procs=None):
+        procs = [] if procs is None else procs
         for i in range(self.n_combiner):
             # start thread to combine the results
             ctx = mp.get_context("spawn")
@@ -529,35 +529,41 @@ class RT1_processor(object):
     def _setup_manager(self):
         ctx = mp.get_context("spawn")
         manager = ctx.Manager()
+        try:
+            self.queue = manager.Queue()
+            self.out_queue = manager.Queue()
 
-        self.queue = manager.Queue()
-        self.out_queue = manager.Queue()
-
-        self.should_wait = manager.Event()
-        self.should_stop = manager.Event()
-        self._stop = manager.Event()
+            self.should_wait = manager.Event()
+            self.should_stop = manager.Event()
+            self._stop = manager.Event()
 
-        self.lock = manager.Lock()
-        self.write_lock = manager.Lock()
+            self.lock = manager.Lock()
+            self.write_lock = manager.Lock()
 
-        self.p_totcnt = manager.Value(ctypes.c_ulonglong, 0)
-        self.p_meancnt = manager.Value(ctypes.c_ulonglong, 0)
+            self.p_totcnt = manager.Value(ctypes.c_ulonglong, 0)
+            self.p_meancnt = manager.Value(ctypes.c_ulonglong, 0)
 
-        self.combiner_ready = manager.Event()
+            self.combiner_ready = manager.Event()
 
-        self.p_max = manager.Value(ctypes.c_ulonglong, None)
+            self.p_max = manager.Value(ctypes.c_ulonglong, None)
+        except BaseException:
+            manager.shutdown()
+            raise
 
         return manager
 
     @classmethod
     @contextmanager
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
+        w = cls(*args, **kwargs)
+        writer, combiner, manager = [], [], None
         try:
-            w = cls(*args, **kwargs)
             manager = w._setup_manager()
-            writer = w._start_writer_process(init_func=init_func, init_args=init_args)
-            combiner = w._start_combiner_process(
-                init_func=init_func, init_args=init_args
+            w._start_writer_process(
+                init_func=init_func, init_args=init_args, procs=writer
+            )
+            w._start_combiner_process(
+                init_func=init_func, init_args=init_args, procs=combiner
             )
 
             yield w
@@ -660,18 +666,25 @@ class RT1_processor(object):
         return res
 
     def stop(self, writer, combiner, manager):
+        # the setup failed before the manager was started
+        if manager is None:
+            return
+
         # initialize shutdown
         self.should_stop.set()
         print()  # newline
 
         # wait for cached results to be combined
         for c in combiner:
-            c.join()
+            # (processes that have not been started can not be joined)
+            if c.pid is not None:
+                c.join()
         self.combiner_ready.set()
 
         # wait for output-cache to be written to disc
         for w in writer:
-            w.join()
+            if w.pid is not None:
+                w.join()
 
         # tell all processes to stop
         self._stop.set()
-- 
2.43.0


From 31027c1d07525b50c90ecf61414ce553bbb83b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 10/41] fix: shut down reliably on SIGTERM and SIGINT and
 restore the signal-handlers

- the signal-handlers of the calling program are restored after the run
  (they remained connected to a manager that no longer exists)
- a signal during the shutdown no longer interrupts the shutdown, which left
  processes behind that waited forever
- the pool is terminated if the run is aborted (joining a pool whose workers
  wait for the writer, or have been interrupted as well, never returned)
---
 rt1/_rtprocess_writer.py | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index d24e032..b1be258 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -116,9 +116,6 @@ class RT1_processor(object):
         else:
             self.min_itemsize = min_itemsize
 
-        signal.signal(signal.SIGINT, self.manual_shutdown)
-        signal.signal(signal.SIGTERM, self.manual_shutdown)
-
         self.n_worker = n_worker
         self.n_combiner = n_combiner
         self.n_writer = n_writer
@@ -132,14 +129,20 @@ class RT1_processor(object):
         self.write_chunk_size = write_chunk_size
         self.out_cache_size = out_cache_size
 
-    def manual_shutdown(self, *args, **kwargs):
-        log.error("shutting down due to SIGTERM event")
+        # indicators if a termination-signal has been received, and if the
+        # processor is already shutting down
+        self._terminated = False
+        self._stopping = False
 
+    def manual_shutdown(self, *args, **kwargs):
         signal.signal(signal.SIGINT, signal.SIG_IGN)
         signal.signal(signal.SIGTERM, signal.SIG_IGN)
-        self.should_stop.set()
-        self._stop.set()
-        raise (SystemExit)
+        log.error("shutting down due to SIGTERM event")
+
+        self._terminated = True
+        # don't interrupt the shutdown (SystemExit is raised as soon as it's finished)
+        if not self._stopping:
+            raise (SystemExit)
 
     def _increase_cnt(self, err=False):
         self.lock.acquire()
@@ -557,7 +560,12 @@ class RT1_processor(object):
     def writer_pool(cls, init_func=None, init_args=None, *args, **kwargs):
         w = cls(*args, **kwargs)
         writer, combiner, manager = [], [], None
+        # remember the signal-handlers of the calling program
+        handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)}
         try:
+            for s in handlers:
+                signal.signal(s, w.manual_shutdown)
+
             manager = w._setup_manager()
             w._start_writer_process(
                 init_func=init_func, init_args=init_args, procs=writer
@@ -568,7 +576,15 @@ class RT1_processor(object):
 
             yield w
         finally:
-            w.stop(writer, combiner, manager)
+            try:
+                w.stop(writer, combiner, manager)
+            finally:
+                for s, handler in handlers.items():
+                    if handler is not None:
+                        signal.signal(s, handler)
+
+                if w._terminated:
+                    raise SystemExit
 
     def start_print_thread(self):
         # start the timer for estimating the processing-time
@@ -659,18 +675,25 @@ class RT1_processor(object):
                 + f"{len(self.args_to_process)} [{self.p_totcnt.value}] IDs!"
                 + f" ... it took {d} {h:02}:{m:02}:{s:02}"
             )
-        finally:
             pool.close()
             pool.join()
+        except BaseException:
+            # don't wait for workers that might never finish
+            pool.terminate()
+            pool.join()
+            raise
 
         return res
 
     def stop(self, writer, combiner, manager):
+        self._stopping = True
         # the setup failed before the manager was started
         if manager is None:
             return
 
         # initialize shutdown
+        if self._terminated:
+            self._stop.set()
         self.should_stop.set()
         print()  # newline
 
-- 
2.43.0


From 3c8585ff236a1a76cab15313f70372eb2980155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 11/41] fix: create new containers in a single step

If a run was killed before the first results have been flushed to disk, a
truncated file remained that could not be opened by any further run.
---
 rt1/_rtprocess_writer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index b1be258..ec54775 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -294,6 +294,19 @@ class RT1_processor(object):
                 log.progress(f"joining remaining thread... {t.name}")
                 t.join()
 
+    def _create_container(self):
+        """
+        create an empty HDF-container in case it does not yet exist
+        (in a single step, since a file whose creation is interrupted can not be
+        opened anymore)
+        """
+        path = Path(self.dst_path)
+        if not path.exists():
+            tmp = path.with_name(path.name + ".tmp")
+            with pd.HDFStore(tmp, "w", **self.HDF_kwargs):
+                pass
+            os.replace(tmp, path)
+
     def _check_IDs(self, key="reader_arg", get_ID=None):
         """
         return a list of IDs that are not yet present in the hdf-container
@@ -417,6 +430,7 @@ class RT1_processor(object):
 
             try:
                 self.write_lock.acquire()
+                self._create_container()
                 with pd.HDFStore(self.dst_path, "a", **self.HDF_kwargs) as store:
                     for key, val in out.items():
                         # make sure the ID column is indexed for the reader_args
-- 
2.43.0


From 50aeceef96d1c577491c260d041aef5d1906ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 12/41] fix: write each chunk completely or not at all

A chunk consists of several tables. If writing was interrupted in between, IDs
were listed whose tables are incomplete (they were never processed again), or
rows remained that showed up under another ID whose number was assigned next.
---
 rt1/_rtprocess_writer.py | 65 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index ec54775..e940809 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -307,6 +307,59 @@ class RT1_processor(object):
                 pass
             os.replace(tmp, path)
 
+    @staticmethod
+    def _rollback(store):
+        """
+        remove the remains of a chunk that has not been written completely
+        """
+        # the number of rows in each table before the chunk was written
+        nrows = getattr(store.root._v_attrs, "RT1_nrows", None)
+        if nrows is None:
+            return
+
+        log.warning("removing the remains of an incompletely written chunk")
+        for key in store.keys():
+            if key not in nrows:
+                store.remove(key)
+            elif store.get_storer(key).nrows > nrows[key]:
+                store.remove(key, start=nrows[key])
+
+        del store.root._v_attrs.RT1_nrows
+        store.flush()
+
+    @classmethod
+    @contextmanager
+    def _transaction(cls, store):
+        """
+        a contextmanager to make sure that chunks are written completely or not at all
+
+        (the number of rows is stored in the container while a chunk is written, so
+        that a chunk whose writer has been killed can be removed by the next run)
+        """
+        cls._rollback(store)
+        store.root._v_attrs.RT1_nrows = {
+            key: store.get_storer(key).nrows for key in store.keys()
+        }
+        store.flush()
+        try:
+            yield
+        except BaseException:
+            cls._rollback(store)
+            raise
+        del store.root._v_attrs.RT1_nrows
+        store.flush()
+
+    def _recover(self):
+        """
+        remove the remains of a chunk whose writer has been killed (if there are any)
+        """
+        with pd.HDFStore(self.dst_path, "r") as store:
+            if "RT1_nrows" not in store.root._v_attrs:
+                return
+
+        with pd.HDFStore(self.dst_path, "a", **self.HDF_kwargs) as store:
+            self._rollback(store)
+
     def _check_IDs(self, key="reader_arg", get_ID=None):
         """
         return a list of IDs that are not yet present in the hdf-container
@@ -334,6 +387,8 @@ class RT1_processor(object):
 
         if Path(self.dst_path).exists():
             log.progress("evaluating list of IDs to process...")
+            self._recover()
+
             if get_ID is None:
 
                 def get_ID(i):
@@ -431,8 +486,14 @@ class RT1_processor(object):
             try:
                 self.write_lock.acquire()
                 self._create_container()
-                with pd.HDFStore(self.dst_path, "a", **self.HDF_kwargs) as store:
-                    for key, val in out.items():
+                with pd.HDFStore(
+                    self.dst_path, "a", **self.HDF_kwargs
+                ) as store, self._transaction(store):
+                    # write the reader_arg last to make sure that the tables
+                    # of all listed IDs are complete at any time
+                    for key, val in sorted(
+                        out.items(), key=lambda i: i[0] == "reader_arg"
+                    ):
                         # make sure the ID column is indexed for the reader_args
                         if key == "reader_arg":
                             data_columns = ["ID"]
-- 
2.43.0


From f2ec251eca8b2bbe2da5f219de6802e26ce30592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 13/41] fix: keep chunks that are already listed when
 recovering from a killed writer

---
 rt1/_rtprocess_writer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index e940809..629da40 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -308,15 +308,25 @@ class RT1_processor(object):
             os.replace(tmp, path)
 
     @staticmethod
-    def _rollback(store):
+    def _rollback(store, keep_listed=True):
         """
         remove the remains of a chunk that has not been written completely
+
+        if keep_listed is True, a chunk that is already listed in the "reader_arg"
+        table is maintained
         """
         # the number of rows in each table before the chunk was written
         nrows = getattr(store.root._v_attrs, "RT1_nrows", None)
         if nrows is None:
             return
 
+        if keep_listed and "reader_arg" in store:
+            # the reader_arg is written last -> nothing is missing
+            if store.get_storer("reader_arg").nrows > nrows.get("/reader_arg", 0):
+                del store.root._v_attrs.RT1_nrows
+                store.flush()
+                return
+
         log.warning("removing the remains of an incompletely written chunk")
         for key in store.keys():
             if key not in nrows:
@@ -344,7 +354,7 @@ class RT1_processor(object):
         try:
             yield
         except BaseException:
-            cls._rollback(store)
+            cls._rollback(store, keep_listed=False)
             raise
         del store.root._v_attrs.RT1_nrows
         store.flush()
-- 
2.43.0


From 1b09978a4318e0a66dcd20ce6633b458024714f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 14/41] fix: roll back tables with categorical columns

---
 rt1/_rtprocess_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 629da40..2aaac9b 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -329,6 +329,9 @@ class RT1_processor(object):
 
         log.warning("removing the remains of an incompletely written chunk")
         for key in store.keys():
+            if "/meta/" in key[1:]:
+                # the definition of categories is removed together with its table
+                continue
             if key not in nrows:
                 store.remove(key)
             elif store.get_storer(key).nrows > nrows[key]:
-- 
2.43.0


From 222201b9eba5d4a0d654341508ccd56a02e65a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 15/41] fix: restore the logging-setup after a run and allow
 logfile_level=None

exceptions during setup are no longer hidden by a NameError in the cleanup,
autocontinue is reset if the setup fails
---
 rt1/rtprocess.py | 76 +++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..1ec9968 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -201,6 +201,33 @@ class RTprocess(object):
         warnings_logger
         warnings_logger.addHandler(h)
 
+    @staticmethod
+    def _stop_logging(queue, listener, loglevel):
+        """
+        stop the listener-process and restore the logging-setup of the MainProcess
+        (queue is None if logging to a file was not started)
+        """
+        if queue is None:
+            return
+
+        # tell the queue to stop
+        queue.put_nowait(None)
+
+        # stop the listener process
+        if listener is not None and listener.pid is not None:
+            listener.join()
+
+        # remove any remaining queue-handlers after the processing is done
+        for logger in (log, logging.getLogger("py.warnings")):
+            handlers = groupby_unsorted(logger.handlers, key=lambda x: x.name)
+            for h in handlers.get("rtprocessing_queuehandler", []):
+                # close the handler (removing it does not close it!)
+                h.close()
+                # remove the handler from the logger
+                logger.removeHandler(h)
+
+        log.setLevel(loglevel)
+
     def override_config(self, override=True, **kwargs):
         """
         set the init_kwargs to change parts of the specifications provided in the
@@ -853,6 +880,8 @@ class RTprocess(object):
             if hasattr(self.proc_cls, "finalizer"):
                 self.proc_cls.finalizer()
 
+        queue, proc_counter, listener = None, None, None
+        loglevel = log.level
         try:
             # initialize all necessary properties if setup was not yet called
             self.setup()
@@ -876,8 +905,6 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -937,7 +964,7 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -954,21 +981,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
-                # tell the queue to stop
-                queue.put_nowait(None)
-
-                # stop the listener process
-                listener.join()
-
-                # remove any remaining file-handler and queue-handlers after
-                # the processing is done
-                handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
-                for h in handlers.get("rtprocessing_queuehandler", []):
-                    # close the handler (removing it does not close it!)
-                    h.close()
-                    # remove the file-handler from the log
-                    log.handlers.remove(h)
+            self._stop_logging(queue, listener, loglevel)
 
     def run_finaloutput(
         self,
@@ -1055,6 +1068,8 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        queue, proc_counter, listener = None, None, None
+        loglevel = log.level
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
@@ -1067,8 +1082,10 @@ class RTprocess(object):
             # initialize all necessary properties with autocontinue=True
             initial_autocontinue = self.autocontinue
             self.autocontinue = True
-            self.setup()
-            self.autocontinue = initial_autocontinue
+            try:
+                self.setup()
+            finally:
+                self.autocontinue = initial_autocontinue
 
             # if "save-path" is not provided explicitly, use the path from the config
             if save_path is None:
@@ -1095,8 +1112,6 @@ class RTprocess(object):
                 # initialization of the  folder-structure!
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
-            else:
-                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -1117,7 +1132,7 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
@@ -1132,20 +1147,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
-            if logfile_level is not None:
-                # tell the queue to stop
-                queue.put_nowait(None)
-
-                # stop the listener process
-                listener.join()
-
-                # remove any remaining file-and queue-handlers after processing is done
-                handlers = groupby_unsorted(log.handlers, key=lambda x: x.name)
-                for h in handlers.get("rtprocessing_queuehandler", []):
-                    # close the handler (removing it does not close it!)
-                    h.close()
-                    # remove the file-handler from the log
-                    log.handlers.remove(h)
+            self._stop_logging(queue, listener, loglevel)
 
     def _run_finalout(
         self,
-- 
2.43.0


From 7a3d39946062014da1109722bee1d7c0a6536a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 16/41] fix: load fits without auxdata if other fits have
 auxdata

---
 rt1/rtresults.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..e0edfad 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -600,12 +600,18 @@ class HDFaccessor(object):
 
             try:
                 dataset = self.datasets.dataset.get_id(ID)
+                if len(dataset) == 0:
+                    # nothing stored for this ID
+                    dataset = None
             except Exception:
                 dataset = None
                 pass
 
             try:
                 aux_data = self.datasets.aux_data.get_id(ID)
+                if len(aux_data) == 0:
+                    # nothing stored for this ID
+                    aux_data = None
             except Exception:
                 aux_data = None
                 pass
@@ -621,6 +627,9 @@ class HDFaccessor(object):
 
             try:
                 res_dict = self.datasets.res_dict.get_id(ID)
+                if len(res_dict) == 0:
+                    # nothing stored for this ID
+                    res_dict = None
             except Exception:
                 res_dict = None
                 pass
-- 
2.43.0


From 9c4f3c8fd899f73d28d0f0beb5cc25348b8d52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 17/41] fix: close the results after a finaloutput has been
 created

(and use the current state of the results each time)
---
 rt1/rtprocess.py | 26 ++++++++++++++++++++------
 rt1/rtresults.py | 19 ++++++++++++++++---
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 1ec9968..f009531 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1147,6 +1147,7 @@ class RTprocess(object):
             # turn off capturing warnings
             logging.captureWarnings(False)
 
+            self._release_results()
             self._stop_logging(queue, listener, loglevel)
 
     def _run_finalout(
@@ -1323,6 +1324,15 @@ class RTprocess(object):
             else:
                 raise ex
 
+    def _release_results(self):
+        """
+        close the files that have been used to load the fits
+        (otherwise it would not be possible to add new fits)
+        """
+        useres = self.__dict__.pop("_useres", None)
+        if useres is not None:
+            useres._close_fit_db()
+
     def _get_files(self, use_N_files=None, use_dumps=False):
         if not hasattr(self, "_useres"):
             self._useres = getattr(
@@ -1517,13 +1527,16 @@ class RTprocess(object):
                 log.progress(f"exporting parameters from '{dumpfolder}' dumpfolder")
 
         # ----- get list of paths to fit-objects
-        self._useres = getattr(res, dumpfolder)
+        useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
-            fit0_ID = self._useres.fit_db.IDs.values.flat[0]
-        else:
-            fit0_ID = 0
-        fit0 = self._useres.load_fit(fit0_ID)
+        try:
+            if hasattr(useres, "fit_db"):
+                fit0_ID = useres.fit_db.IDs.values.flat[0]
+            else:
+                fit0_ID = 0
+            fit0 = useres.load_fit(fit0_ID)
+        finally:
+            useres._close_fit_db()
 
         fn_evals = None
         if pre_evaluate_fn_coefs:
@@ -1548,6 +1561,7 @@ class RTprocess(object):
         )
 
         # ----- run finalout generation
+        self._useres = useres
         out = self.run_finaloutput(
             ncpu=ncpu,
             use_N_files=use_nfiles,
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index e0edfad..492292c 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -189,21 +189,34 @@ class RTresults(object):
             self._hdf_paths = self._get_results(".h5")
             self._reset_fit_db_cache()
 
+        def __getstate__(self):
+            # never pickle the handler of an opened file
+            return {key: val for key, val in self.__dict__.items() if key != "_fit_db"}
+
         @property
-        @lru_cache()
         def fit_db(self):
             assert (
                 "fit_db" in self._hdf_paths
             ), '"fit_db.h5" not found in results-folder'
 
-            return self.load_hdf("fit_db")
+            if getattr(self, "_fit_db", None) is None:
+                self._fit_db = self.load_hdf("fit_db")
+            return self._fit_db
+
+        def _close_fit_db(self):
+            """
+            close the "fit_db" file (if it has been opened)
+            """
+            fit_db, self._fit_db = getattr(self, "_fit_db", None), None
+            if fit_db is not None:
+                fit_db.close()
 
         def _reset_fit_db_cache(self):
             """
             clear the cached handler for "fit_db"
             """
             print("clearing cached fit_db handler")
-            self.__class__.fit_db.fget.cache_clear()
+            self._fit_db = None
 
         @staticmethod
         def _check_dump_filename(p):
-- 
2.43.0


From 800336577d0dfcfc28dfa8bffc24c48c3d3921e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 18/41] fix: copy modules and config-files completely or not at
 all

---
 rt1/rtprocess.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index f009531..3079f88 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -7,6 +7,7 @@ from textwrap import dedent
 
 from functools import partial
 from pathlib import Path
+import os
 import shutil
 
 import pandas as pd
@@ -76,6 +77,14 @@ def _make_folderstructure(save_path, subfolders):
                 mkpath.mkdir(parents=True, exist_ok=True)
 
 
+def _create_file(path, write):
+    # create a file in a single step to make sure that it is always complete
+    # (even if the creation is interrupted)
+    tmp_path = path.with_name(f"{path.name}.tmp")
+    write(tmp_path)
+    os.replace(tmp_path, path)
+
+
 class RTprocess(object):
     def __init__(
         self,
@@ -419,7 +428,9 @@ class RTprocess(object):
                 if len(self.init_kwargs) == 0:
                     # if no init_kwargs have been provided, copy the
                     # original file
-                    shutil.copy(self.cfg.configpath, copypath.parent)
+                    _create_file(
+                        copypath, partial(shutil.copy, self.cfg.configpath)
+                    )
                     log.info(
                         f'"{self.cfg.configpath.name}" copied to\n'
                         + f'"{copypath.parent}"'
@@ -427,8 +438,11 @@ class RTprocess(object):
                 else:
                     # if init_kwargs have been provided, write the updated
                     # config to the folder
-                    with open(copypath, "w") as file:
-                        self.cfg.config.write(file)
+                    def write_config(path):
+                        with open(path, "w") as file:
+                            self.cfg.config.write(file)
+
+                    _create_file(copypath, write_config)
 
                     log.warning(
                         f'the config-file "{self.cfg.configpath}" has been'
@@ -462,7 +476,9 @@ class RTprocess(object):
                         )
 
                     else:
-                        shutil.copy(location, module_copypath)
+                        _create_file(
+                            module_copypath, partial(shutil.copy, location)
+                        )
                         log.info(f'"{location.name}" copied to \n"{module_copypath}"')
         # remove the config and re-read the config from the copied path
         del self.cfg
-- 
2.43.0


From b8d05e1fde3dc2e4458a9912bb8eabafbfc06620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 19/41] fix: recognize already processed IDs if get_names_ids()
 returns custom names

---
 rt1/rtprocess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 3079f88..e7db527 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -806,7 +806,11 @@ class RTprocess(object):
         return res
 
     def _extract_ID(self, reader_arg):
-        ID = self.proc_cls.get_names_ids(reader_arg)["feature_id"]
+        # use the ID that is stored in the HDF-container
+        if "ID" in reader_arg:
+            ID = reader_arg["ID"]
+        else:
+            ID = self.proc_cls.get_names_ids(reader_arg)["feature_id"]
 
         if not isidentifier(str(ID)):
             return f"RT1_{ID}"
-- 
2.43.0


From 9a7b185fe32081f15034e2c8e4da9ed482abdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 20/41] fix: support all export-options for MultiFits, and
 selecting parts of the dataset

---
 rt1/rtfits.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..a8d9eb5 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2974,7 +2974,7 @@ class Fits(Scatter):
                         for key, val in self.defdict.items()
                         if val[0] and val[2] == "manual"
                     )
-                df = getattr(self, "dataset", None)[dynkeys]
+                df = getattr(self, "dataset", None)[list(dynkeys)]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
@@ -3222,11 +3222,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From 67cbede97d6f178a6c059da68ad83cd9f509e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 21/41] fix: export of model-results, constant parameters and
 custom functions

- model-results could not be selected
- the value of constant parameters was not accessible
- only the first result of each worker contained the values of custom functions
- sig_to_dB and inc_to_degree have been ignored
---
 rt1/rtprocess.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index e7db527..15ef5df 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1577,6 +1577,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
@@ -1644,7 +1646,11 @@ class RTprocess(object):
 
         auxdata, staticlayers = dict(), dict()
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
+            model = fit.calc_model(return_components=True)
+            for key in model_keys:
+                auxdata[key] = model[key]
+                if fit.dB is False and sig_to_dB:
+                    auxdata[key] = 10.0 * np.log10(auxdata[key])
 
         if export_functions:
             for key, func in export_functions.items():
@@ -1652,13 +1658,12 @@ class RTprocess(object):
                     val = func(fit)
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
-                        parameters.remove(key)
                     else:
                         auxdata[key] = val
 
         ret = RTprocess._postprocess_getparams(
             fit=fit,
-            saveparams=set(parameters) ^ set(auxdata) ^ set(model_keys),
+            saveparams=set(parameters) - set(auxdata) - set(staticlayers),
             xindex=("ID", fit._RT1_ID_num),
             auxdata=pd.DataFrame(auxdata),
             sig_to_dB=sig_to_dB,
@@ -1762,7 +1767,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 2d7d29b3ca152483676a508aefcbbe00f447ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 22/41] fix: recognize IDs that contain dots in repeated
 finaloutputs

---
 rt1/rtprocess.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 15ef5df..d8bbd92 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1216,6 +1216,7 @@ class RTprocess(object):
                 reader_func=self._finalout_reader,
                 process_func=self._run_postprocess,
                 pool_kwargs=pool_kwargs,
+                ID_getter=self._extract_finalout_ID,
                 starmap_args=[
                     repeat(use_config),
                     repeat(postprocess),
@@ -1230,6 +1231,20 @@ class RTprocess(object):
 
         return res
 
+    @staticmethod
+    def _extract_finalout_ID(reader_arg):
+        ID = str(reader_arg["ID"])
+        if not ID.endswith(".dump"):
+            # the IDs of the HDF-container are already valid
+            return ID
+
+        # the path to a dump-file
+        ID = Path(ID).stem
+        if not isidentifier(ID):
+            return f"RT1_{ID}"
+        else:
+            return ID
+
     def _finalout_reader(self, reader_arg, use_config=None):
         ID = reader_arg["ID"]
         # load fitobjects based on IDs
-- 
2.43.0


From 46a3234be336a7ed7b6d483898601a3fec29a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/41] fix: don't store auxdata of other fits in multi-config
 processing

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index d8bbd92..a20bac6 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -528,9 +528,9 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (to None if there is no aux_data to make sure
+                # that the aux_data of a previous fit is removed)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From e1c1b6a6339ffe007da9d47fcfe6e2865d607ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 24/41] fix: use the numeric ID of the container for fits that
 are loaded from existing dumps

---
 rt1/processing_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 4d5e187..2e286ff 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,9 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                return fit._get_fit_to_hdf_dict(
+                    ID=reader_arg.get("_RT1_ID_num", None)
+                )
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From 3b1f149df566b8d019c27c27a6595f989e9e5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 25/41] fix: don't skip log-handlers of other messages if
 logging to a file is stopped in another thread

---
 rt1/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/__init__.py b/rt1/__init__.py
index a60877d..b76016f 100644
--- a/rt1/__init__.py
+++ b/rt1/__init__.py
@@ -118,8 +118,10 @@ def stop_log_to_file(name="rt1_filehandler"):
     # remove existing rt1_filehandler
     if name in handlers:
         for i, h in enumerate(handlers[name]):
+            # replace the list instead of changing it in-place, otherwise messages
+            # that are logged by other threads right now would skip a handler
+            log.handlers = [val for val in log.handlers if val is not h]
             h.close()
-            log.removeHandler(h)
             log.debug(
                 f'{i + 1} existing logfile-handler "{name}" at'
                 + f' "{h.baseFilename}" closed and removed!'
-- 
2.43.0


From 32fe2ddffc7fff20b14b6d4209330e05e2c6b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 26/41] fix: return complete and correctly labelled blocks when
 reading HDF containers block-wise

---
 rt1/rtresults.py | 118 ++++++++++++++++-------------------------------
 1 file changed, 39 insertions(+), 79 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 492292c..da019a3 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -708,28 +708,6 @@ class HDFaccessor(object):
         for i in range(0, len(lst), n):
             yield lst[i : i + n]
 
-    def _get_vals(self, key, chunksize, start=None, **kwargs):
-        # TODO
-        idxlevels = self.store.get_storer(key).levels
-        if idxlevels == 1:
-            idxname = "index"
-        else:
-            idxname = idxlevels[0]
-
-        assert self.IDs is not None, "no IDs found in HDF-store"
-        if start:
-            assert start < len(self.IDs), (
-                f"start={start} is bigger than the number"
-                + f" of IDs ({len(self.IDs)})"
-            )
-        use_ids = self._chunks(self.IDs.index[slice(start, None)], chunksize)
-        for i, ids in enumerate(use_ids):
-            indexes = self.store.select_as_coordinates(
-                key=key, where=f"{idxname} in ids"
-            )
-            data = self.store.get_storer(key).read(where=indexes, **kwargs)
-            yield data
-
     def _get_vals_with_IDs(self, key, use_ids, chunksize=1, **kwargs):
         # TODO
         idxlevels = self.store.get_storer(key).levels
@@ -846,72 +824,54 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
-
+        assert self.IDs is not None, "no IDs found in HDF-store"
         assert (
             key in self.store
         ), f"invalid key provided, use one of {self.store.keys()}"
 
-        if read_chunksize is None:
-            s = self.store.get_storer(key)
-
-            if isinstance(nids, int):
-                if s.is_multi_index:
-                    read_chunksize = min(10, nids)
-                else:
-                    read_chunksize = nids
-            elif isinstance(nids, str):
-                read_chunksize = 1
-            else:
-                read_chunksize = len(nids)
-
-        if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
+        # the numeric IDs that should be returned
+        if isinstance(nids, str):
+            use_ids = [self._ID_to_IDnum(nids)]
             nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
-            )
+        elif isinstance(nids, int):
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            use_ids = self.IDs.index[slice(start, None)]
         else:
-            use_ids = nids
+            use_ids = list(nids)
             nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
 
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
-
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
-
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
+        if read_chunksize is None:
+            if self.store.get_storer(key).is_multi_index:
+                read_chunksize = min(10, nids)
+            else:
+                read_chunksize = nids
+
+        nread = 0
+        for block_ids in self._chunks(use_ids, nids):
+            ret = []
+            for d in self._get_vals_with_IDs(
+                key=key, use_ids=block_ids, chunksize=read_chunksize, **kwargs
+            ):
+                ret.append(d)
+
+                nread += read_chunksize
+                if print_progress:
+                    print("reading", nread)
+
+            data = pd.concat(ret)
+            if self.set_ID is True:
+                if isinstance(data.index, pd.MultiIndex):
+                    data.index = data.index.set_levels(
+                        self.IDs.loc[data.index.levels[0]].ID, level=0
+                    )
                 else:
-                    ret = []
-
-            if print_progress:
-                print("reading", (i + 1) * read_chunksize)
-
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+                    data["ID"] = self.IDs.loc[data.index]
+                    data = data.set_index("ID")
+            yield data
 
 
 class _data_container(object):
-- 
2.43.0


From 81ffc83199c6f242689039f125b8ffb265b8b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 27/41] fix: make sure that dump-files are always complete

---
 rt1/rtfits.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a8d9eb5..48838fe 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -32,6 +32,7 @@ from .rtmetrics import _metric_keys
 from ._containers import _RT1_defdict
 
 import copy
+import os
 from itertools import repeat, count, chain, groupby
 from functools import lru_cache, partial, wraps, update_wrapper
 from operator import itemgetter, add, methodcaller
@@ -48,6 +49,23 @@ def _check_multi(fit):
     return fit.__class__.__name__ == "MultiFits"
 
 
+def _dump(obj, path):
+    # write the data to a temporary file first to make sure that "path" always
+    # contains a complete dump (even if dumping fails or is interrupted)
+    path = Path(path)
+    tmp_path = path.with_name(f"{path.name}.tmp")
+    try:
+        with open(tmp_path, "wb") as file:
+            cloudpickle.dump(obj, file)
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.remove(tmp_path)
+        except OSError:
+            pass
+        raise
+
+
 def load(path):
     """
     a convenience-function to load a Fits-object dumped with `fit.dump()`
@@ -2430,8 +2448,7 @@ class Fits(Scatter):
             except AttributeError:
                 pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        _dump(self, path)
 
     def calc(self, param, inc, return_components=True, fixed_param=None):
         """
@@ -3395,5 +3412,4 @@ class MultiFits:
                 except AttributeError:
                     pass
 
-        with open(path, "wb") as file:
-            cloudpickle.dump(self, file)
+        _dump(self, path)
-- 
2.43.0


From a9c9345aaf82c558c9effe177cc4eb86d5a7cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 28/41] fix: don't leave the mini-dump indicator on fits in
 case dumping failed

---
 rt1/rtfits.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 48838fe..ad173cc 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2448,7 +2448,11 @@ class Fits(Scatter):
             except AttributeError:
                 pass
 
-        _dump(self, path)
+        try:
+            _dump(self, path)
+        finally:
+            # don't affect any other pickles or copies in case dumping failed
+            self.__dict__.pop("_rt1_dump_mini", None)
 
     def calc(self, param, inc, return_components=True, fixed_param=None):
         """
@@ -3412,4 +3416,9 @@ class MultiFits:
                 except AttributeError:
                     pass
 
-        _dump(self, path)
+        try:
+            _dump(self, path)
+        finally:
+            # don't affect any other pickles or copies in case dumping failed
+            for fit in self.configs:
+                fit.__dict__.pop("_rt1_dump_mini", None)
-- 
2.43.0


From 3652049dc3153d1437d08844d4dae89b307e670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 29/41] fix: keep the fit-output if a fit that has been loaded
 from a mini-dump is dumped again

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ad173cc..8236320 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -414,7 +414,10 @@ class Fits(Scatter):
                     try:
                         fit_props[f"fit_{key}"] = getattr(self.fit_output, key)
                     except AttributeError:
-                        continue
+                        # the fit-output has already been reduced if the fit has
+                        # been loaded from a mini-dump
+                        if f"fit_{key}" in self.fit_output:
+                            fit_props[f"fit_{key}"] = self.fit_output[f"fit_{key}"]
             returndict["fit_output"] = fit_props
 
             return returndict
-- 
2.43.0


From 473bbdf2238e5c76e20ad24ceb8a41873344ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 30/41] fix: update cached properties if a new dataset is
 assigned to a MultiFits object

---
 rt1/rtfits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8236320..f844a47 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3311,9 +3311,8 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            # (this also makes sure that the cached properties are updated)
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From 32ca175ced4c26b9e236c1471831faf8c07f691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 31/41] fix: don't add configs twice if they are overwritten

---
 rt1/rtfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f844a47..cb2d7b8 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3394,12 +3394,12 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
-
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
         fit_object.config_name = name
         setattr(self.configs, name, fit_object)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
     def dump(self, path, mini=True):
         """
-- 
2.43.0


From 906f37f18aa5ec314b5b5a97e44524853de2d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 32/41] fix: update the interaction-term if set_V_SRF or
 defdict are changed

---
 rt1/rtfits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index cb2d7b8..621566d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -433,6 +433,11 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # the functions used to evaluate the interaction-term depend on V and SRF
+        # (don't reset them on initialization!)
+        if attr in ["defdict", "set_V_SRF"] and "_defdict" in self.__dict__:
+            self._fnevals_input = None
+
         super().__setattr__(attr, value)
 
     @property
-- 
2.43.0


From d61bc848f0562fe06d7633608e710df4e998a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 33/41] fix: don't assign numerical values to the cached V and
 SRF objects

---
 rt1/rtfits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 621566d..7f7250e 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1369,8 +1369,9 @@ class Fits(Scatter):
             self.inc,
             np.zeros_like(self.inc),
             np.full_like(self.inc, np.pi),
-            V=self.V,
-            SRF=self.SRF,
+            # use copies since numerical values are assigned to V and SRF
+            V=copy.copy(self.V),
+            SRF=copy.copy(self.SRF),
             fn_input=None,
             _fnevals_input=None,
             geometry="mono",
-- 
2.43.0


From 726901457bd61c47a7a60544d3eb3ecb959725a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 34/41] fix: respect share_fnevals and share_auxdata in
 reinit_object

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 7f7250e..de05e66 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2856,7 +2856,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From ce77f0fe83b75032918d14fe4090f339271f0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 35/41] fix: don't share attributes between copies of a Fits
 object

---
 rt1/rtfits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index de05e66..00c3964 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -387,6 +387,9 @@ class Fits(Scatter):
             self.res_dict = {key: val[0] for key, val in self.res_dict.items()}
 
     def __setstate__(self, d):
+        # don't share the attributes with the original object (e.g. `copy.copy(fit)`)
+        d = d.copy()
+
         # downward-compatibility for the dataset property
         if "_dataset" not in d:
             if "dataset" in d:
@@ -394,6 +397,7 @@ class Fits(Scatter):
 
         # this is done to support downward-compatibility with pickled results
         self.__dict__ = d
+        self.plot = rt1_plots(self)
         self.__update__()
 
     def __getstate__(self):
-- 
2.43.0


From 1fb143530e47d5832e8a79b2294ed7e21102f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 36/41] fix: update cached properties if int_Q is changed

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 00c3964..cd076f9 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -432,7 +432,7 @@ class Fits(Scatter):
         # TODO write proper setters that do the job
         # clear the cache in case it is not empty and a
         # defining variable is set
-        if attr in ["sig0", "dB", "dataset", "defdict", "set_V_SRF"]:
+        if attr in ["sig0", "dB", "dataset", "defdict", "set_V_SRF", "int_Q"]:
             if not all(i == 0 for i in self._cached_arg_number):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
-- 
2.43.0


From fada289e5f47478abe39bccfa292be7de860ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 37/41] fix: don't cache failures to evaluate the symbols of V
 and SRF

Any exception (e.g. a MemoryError while V and SRF are initialized) has been
interpreted as "there are no symbols" and this has been cached, so that all
subsequent evaluations of the object failed (or ignored the definition).
---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index cd076f9..5c84792 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1401,7 +1401,8 @@ class Fits(Scatter):
         """the symbols used to define tau, omega and NormBRDF of V and SRF"""
         try:
             symbs = list(map(str, getattr(getattr(self, V_SRF), prop).free_symbols))
-        except Exception:
+        except AttributeError:
+            # (numeric values have no symbols)
             symbs = list()
         return symbs
 
@@ -1416,7 +1417,8 @@ class Fits(Scatter):
                 getattr(getattr(self, V_SRF), prop),
                 modules=["numpy"],
             )
-        except Exception:
+        except AttributeError:
+            # (numeric values have no symbols)
             func = None
         return func
 
-- 
2.43.0


From 1c9b9c620a4c218c0354f3cbd93180db673329dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 38/41] fix: support return_ID for fits that are loaded from
 the HDF container

---
 rt1/rtresults.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index da019a3..0e5b65e 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -377,14 +377,18 @@ class RTresults(object):
                         filepath = self._dump_path / (ID)
 
                 fit = load(filepath)
+                ID = filepath.stem
             else:
                 assert (
                     isinstance(ID, (str, int)) or ID is None
                 ), "please provide either a string, int or 'None' as ID"
                 fit = self._load_fit_from_HDF(ID)
+                # the ID of the fit that has been loaded
+                if fit is not None:
+                    ID = fit.ID
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                return (fit, ID)
             else:
                 return fit
 
-- 
2.43.0


From a8de031371be04d655c557c3af0e37b64c28eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 39/41] fix: don't ignore errors encountered while reading
 stored fits

---
 rt1/rtresults.py | 56 +++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 0e5b65e..3243c0c 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -601,6 +601,14 @@ class HDFaccessor(object):
         else:
             return str(ID)
 
+    def _get_stored(self, key, ID):
+        # get the data for a given ID or None if there is nothing stored
+        # (problems encountered while reading the data are NOT ignored!)
+        if not hasattr(self.datasets, key):
+            return None
+        data = getattr(self.datasets, key).get_id(ID)
+        return data if len(data) > 0 else None
+
     def _load_fit(self, ID):
         with self._numeric_ID():
             if ID is None:
@@ -609,47 +617,23 @@ class HDFaccessor(object):
             if isinstance(ID, str):
                 ID = self._ID_to_IDnum(ID)
 
-            try:
-                init_dict = self.datasets.init_dict.get_id(ID)
-            except Exception:
+            if not hasattr(self.datasets, "init_dict") or ID not in self.IDs.index:
                 print("'init_dict' not present... fit can not be loaded")
                 return
+            init_dict = self.datasets.init_dict.get_id(ID)
 
-            try:
-                dataset = self.datasets.dataset.get_id(ID)
-                if len(dataset) == 0:
-                    # nothing stored for this ID
-                    dataset = None
-            except Exception:
-                dataset = None
-                pass
-
-            try:
-                aux_data = self.datasets.aux_data.get_id(ID)
-                if len(aux_data) == 0:
-                    # nothing stored for this ID
-                    aux_data = None
-            except Exception:
-                aux_data = None
-                pass
+            # (None if nothing is stored for this ID)
+            dataset = self._get_stored("dataset", ID)
+            aux_data = self._get_stored("aux_data", ID)
+            res_dict = self._get_stored("res_dict", ID)
 
-            try:
-                reader_arg = self.datasets.reader_arg.get_id(ID)
+            reader_arg = self._get_stored("reader_arg", ID)
+            if reader_arg is not None:
                 reader_arg = reader_arg.loc[ID].to_dict()
-                if "ID" not in reader_arg:
-                    reader_arg["ID"] = self.IDs.loc[ID].values[0]
-            except Exception:
-                reader_arg = dict(ID=self.IDs.loc[ID].values[0])
-                pass
-
-            try:
-                res_dict = self.datasets.res_dict.get_id(ID)
-                if len(res_dict) == 0:
-                    # nothing stored for this ID
-                    res_dict = None
-            except Exception:
-                res_dict = None
-                pass
+            else:
+                reader_arg = dict()
+            if "ID" not in reader_arg:
+                reader_arg["ID"] = self.IDs.loc[ID].values[0]
 
             if "cfg" in init_dict.index.names:
                 mf = MultiFits()
-- 
2.43.0


From 441caa9e4b83c8f2d3267f687e2ff090a50a7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 40/41] fix: recover the ID of stored fits without adding the
 RT1_ prefix twice

---
 rt1/rtresults.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 3243c0c..b8fe475 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -629,7 +629,8 @@ class HDFaccessor(object):
 
             reader_arg = self._get_stored("reader_arg", ID)
             if reader_arg is not None:
-                reader_arg = reader_arg.loc[ID].to_dict()
+                # (preserve the types of the individual columns)
+                reader_arg = reader_arg.loc[[ID]].to_dict("records")[0]
             else:
                 reader_arg = dict()
             if "ID" not in reader_arg:
@@ -664,7 +665,7 @@ class HDFaccessor(object):
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
 
-                mf.set_ID(self.IDs.loc[ID].values[0])
+                mf.set_ID(reader_arg["ID"])
                 return mf
 
             else:
@@ -672,7 +673,7 @@ class HDFaccessor(object):
                     key: literal_eval(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
-                fit.ID = self.IDs.loc[ID].values[0]
+                fit.ID = reader_arg["ID"]
 
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
-- 
2.43.0


From a893b952be901a3b111b8c331315a51f344f5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 41/41] fix: re-open the HDF container if it has been closed

---
 rt1/rtresults.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index b8fe475..6cbe02c 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -199,7 +199,7 @@ class RTresults(object):
                 "fit_db" in self._hdf_paths
             ), '"fit_db.h5" not found in results-folder'
 
-            if getattr(self, "_fit_db", None) is None:
+            if getattr(self, "_fit_db", None) is None or not self._fit_db.store.is_open:
                 self._fit_db = self.load_hdf("fit_db")
             return self._fit_db
 
@@ -313,8 +313,6 @@ class RTresults(object):
             return file
 
         def _load_fit_from_HDF(self, ID):
-            if not self.fit_db.store.is_open:
-                self._reset_fit_db_cache()
             fit = self.fit_db.load_fit(ID)
 
             return fit
-- 
2.43.0


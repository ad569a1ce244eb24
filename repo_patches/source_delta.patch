From 20ecef3ffd324050ad427a9652902bc1723e99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 01/42] fix: release lock protections when the protected block
 raises

---
 asyncz/file_locking.py | 6 ++++--
 asyncz/locks.py        | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 8b87a84172448a99cec76048a96f2d37963776ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 02/42] fix: look up the task of a manual run under the store
 lock

---
 asyncz/schedulers/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..98cd71a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -788,7 +788,8 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot run a decorator style Task."
             task_id = task_id.id
 
-        task, store_alias = self.lookup_task(task_id, store)
+        with self.store_lock:
+            task, store_alias = self.lookup_task(task_id, store)
         now = datetime.now(self.timezone)
         run_times = task.get_run_times(self.timezone, now)
         coalesced_run_count = 0
-- 
2.43.0


From dee0a6de708b858bf8941c5bebddb4218ae69e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 03/42] fix: do not strand tasks added while the scheduler is
 starting

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 98cd71a..ce6d998 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -224,8 +224,10 @@ class BaseScheduler(SchedulerType):
                 with contextlib.suppress(ConflictIdError):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
             del self.pending_tasks[:]
+            # leave the stopped state in the same critical section,
+            # otherwise a concurrently added task would stay pending forever
+            self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
 
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
         self.started_at = datetime.now(self.timezone)
         self.last_seen_at = self.started_at
         self.loggers[self.logger_name].info("Scheduler started.")
-- 
2.43.0


From 84609c8556869eb6180d4b4f3922c1441b7a6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/42] fix: keep the start counter non-negative on an
 unbalanced shutdown

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index ce6d998..5e7b781 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -183,7 +183,9 @@ class BaseScheduler(SchedulerType):
 
     def decr_refcount(self) -> bool:
         with self.ref_lock:
-            self.ref_counter -= 1
+            # an unbalanced shutdown must not make the counter negative
+            if self.ref_counter > 0:
+                self.ref_counter -= 1
             # first start with 0
             if self.ref_counter > 0:
                 return False
-- 
2.43.0


From 89a981cc840b87b26ce7e42abd30508ef03e3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/42] fix: a failed scheduler start can be retried

---
 asyncz/schedulers/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5e7b781..a014b9b 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -200,6 +200,16 @@ class BaseScheduler(SchedulerType):
         """
         if not self.inc_refcount():
             return False
+        try:
+            self._start(paused)
+        except BaseException:
+            # a failed start does not count, otherwise a retry would be ignored
+            self.state = SchedulerState.STATE_STOPPED
+            self.decr_refcount()
+            raise
+        return True
+
+    def _start(self, paused: bool) -> None:
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
@@ -237,7 +247,6 @@ class BaseScheduler(SchedulerType):
 
         if not paused:
             self.wakeup()
-        return True
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
-- 
2.43.0


From 6f1dddfc0cd98404c8c10f6ec33a46a2a4d7be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 06/42] fix: a wakeup arriving after shutdown must not run
 tasks

---
 asyncz/schedulers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index a014b9b..eb07da6 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1671,6 +1671,10 @@ class BaseScheduler(SchedulerType):
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
 
+        if self.state == SchedulerState.STATE_STOPPED:
+            self.loggers[self.logger_name].debug("Scheduler is stopped. Not processing tasks.")
+            return None
+
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
         now = datetime.now(self.timezone)
         next_wakeup_time: Optional[datetime] = None
-- 
2.43.0


From e2be4c26172ef248dd493afd16e78461eaa9cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 07/42] fix: an error while processing one store must not stop
 the scheduler

---
 asyncz/schedulers/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index eb07da6..8ca82ad 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1686,9 +1686,18 @@ class BaseScheduler(SchedulerType):
                 # threading lock
                 with self.store_lock:
                     for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
+                        try:
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                        except Exception:
+                            # one failing store or trigger must not stop the scheduler
+                            self.loggers[self.logger_name].exception(
+                                f'Error processing the tasks of the store "{store_alias}".'
+                            )
+                            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                            if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                                next_wakeup_time = retry_wakeup_time
             else:
                 retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
-- 
2.43.0


From 2ac8eb5c5191770645f2461dbbaef07403c9a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 08/42] fix: replace a broken pool using the worker count the
 pool really has

---
 asyncz/executors/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..78d732e 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -43,7 +43,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.pool.__class__(self.pool._max_workers)
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
-- 
2.43.0


From 274c612dd8727afb2fa926e00c1b417fa817f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 09/42] fix: release the instance slot of a task cancelled in a
 pool

---
 asyncz/executors/pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 78d732e..13ee79f 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -27,6 +27,10 @@ class BasePoolExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
+            if fn.cancelled():
+                # exception() and result() raise on cancelled futures
+                self.run_task_error(task_id)
+                return
             exc, _ = (
                 fn.exception_info()
                 if hasattr(fn, "exception_info")
-- 
2.43.0


From b3f9646d77b45e24513dbf4eaddb6bdcb6cc2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 10/42] fix: write task files completely before releasing their
 lock

---
 asyncz/stores/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..52dca72 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -145,6 +145,8 @@ class FileStore(BaseStore):
                         pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
                     )
                 )
+                # the content must be visible before the lock is released
+                write_ob.flush()
         except FileExistsError:
             raise ConflictIdError(task.id) from None
 
@@ -159,6 +161,8 @@ class FileStore(BaseStore):
                         pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
                     )
                 )
+                # the content must be visible before the lock is released
+                write_ob.flush()
         except FileNotFoundError:
             raise TaskLookupError(task.id) from None
 
-- 
2.43.0


From 1d810b5e60b4499693813d333c96beb2a03a762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 11/42] fix: update run records under the history lock

---
 asyncz/contrib/dashboard/history.py | 51 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..958038a 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -174,18 +174,19 @@ class MemoryRunHistoryStorage:
                 scheduler_identity=event.scheduler_identity,
                 now=now,
             )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            with self._lock:
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -222,17 +223,21 @@ class MemoryRunHistoryStorage:
             scheduler_identity=event.scheduler_identity,
             now=now,
         )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        status = _status_from_execution_code(event.code)
+        return_value = _safe_repr(event.return_value) if event.return_value is not None else None
+        exception_type = _exception_type(event.exception)
+        exception_message = _safe_str(event.exception)
+        exception = _safe_repr(event.exception) if event.exception is not None else None
+        with self._lock:
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = status
+            record.return_value = return_value
+            record.exception_type = exception_type
+            record.exception_message = exception_message
+            record.exception = exception
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
-- 
2.43.0


From 5b4685cd0275a70aea1ba16b43cc925aa7166ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 12/42] fix: serialize a task before touching its file

---
 asyncz/stores/file.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 52dca72..695e2a1 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -138,13 +138,13 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        # serialize first: a failure must not leave an empty or truncated file behind
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
         try:
             with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+                write_ob.write(state)
                 # the content must be visible before the lock is released
                 write_ob.flush()
         except FileExistsError:
@@ -153,14 +153,14 @@ class FileStore(BaseStore):
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        # serialize first: a failure must not leave an empty or truncated file behind
+        state = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
         try:
             with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
                 write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+                write_ob.write(state)
                 # the content must be visible before the lock is released
                 write_ob.flush()
         except FileNotFoundError:
-- 
2.43.0


From 8ceca9f9629349b08c6ac627ba7420fbd64f2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 13/42] fix: a task file that cannot be read must not be
 deleted

---
 asyncz/stores/file.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 695e2a1..4f06a5c 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -76,11 +76,15 @@ class FileStore(BaseStore):
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
             with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+                state = read_ob.read()
+        except FileNotFoundError:
+            return None
+        # only a task which cannot be restored is removed, not one which cannot be read
+        try:
+            return self.rebuild_task(state)
         except Exception:
             task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            return None
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -105,8 +109,13 @@ class FileStore(BaseStore):
                     continue
                 try:
                     with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
+                        state = read_ob.read()
+                    stat_result = entry.stat()
+                except FileNotFoundError:
+                    continue
+                # only a task which cannot be restored is removed, not one which cannot be read
+                try:
+                    tasks.append((self.rebuild_task(state), stat_result))
                 except Exception:
                     with suppress(FileNotFoundError):
                         os.unlink(entry.path)
-- 
2.43.0


From b7b04b163965c0ef20792a45d42795fb722ba17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 14/42] fix: an interrupt while restoring tasks must not delete
 them

---
 asyncz/stores/mongo.py | 2 +-
 asyncz/stores/redis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index 10327c0..a696a35 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -86,7 +86,7 @@ class MongoDBStore(BaseStore):
         ):
             try:
                 tasks.append(self.rebuild_task(document["state"]))
-            except BaseException:
+            except Exception:
                 doc_id = document["_id"]
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..ec2ae97 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -80,7 +80,7 @@ class RedisStore(BaseStore):
         for task_id, state in states:
             try:
                 tasks.append(self.rebuild_task(state))
-            except BaseException:
+            except Exception:
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-- 
2.43.0


From 31b417b966729419eadefc573ccd0bca6fc7051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 15/42] fix: compute the interval size where it is used, it is
 missing on a restored interval trigger

---
 asyncz/triggers/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..bf4a177 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -83,7 +83,9 @@ class IntervalTrigger(BaseTrigger):
             next_trigger_time = start_at
         else:
             time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
+            next_interval_number = int(
+                ceil(time_difference_seconds / timedelta_seconds(self.interval))
+            )
             next_trigger_time = start_at + self.interval * next_interval_number
 
         if self.jitter is not None:
-- 
2.43.0


From 48728071322e4d4cad9f65cc422cabc53c4fb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 16/42] fix: restore state objects without own __getstate__
 (e.g. the shutdown trigger)

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..cd84ca7 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # state of a class without own __getstate__, as produced by pydantic
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From e7e4d31b402af9ac50fa1a3d20c3ae587f061669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 17/42] fix: persist a fractional mistrigger_grace_time

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From 1a3dbf74b48caa2e1fb5836c0ac9e9ff1e0557cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 18/42] fix: report and audit a refused dashboard task creation
 instead of failing the request

---
 asyncz/contrib/dashboard/controllers/tasks.py | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..a7358a0 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -412,17 +412,26 @@ class TaskCreateController(DashboardMixin, Controller):
         # Parse args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
-        # Import callable and parse trigger
+        # Import callable, parse trigger and add the task to the scheduler
         try:
+            args: list[Any] = json.loads(raw_args) if raw_args else []
+            kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
             message = str(e)
             add_message(request, "error", f"{message}")
@@ -436,16 +445,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
-- 
2.43.0


From 3c8dc19a8f7f1095397f7c99af78e5a834b46dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 19/42] fix: report and audit a refused dashboard task update
 instead of failing the request

---
 asyncz/contrib/dashboard/controllers/tasks.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index a7358a0..88d340f 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -570,7 +570,22 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except TaskLookupError:
+            _audit_task_action("update", task_id, status="failed", message="Task was not found.")
+            return await self._render(request, task=None, status_code=404)
+        except Exception as exc:
+            _audit_task_action("update", task_id, status="failed", message=str(exc))
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[str(exc)],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
-- 
2.43.0


From 65b4567d922689cf0855d881d121e3acefdaaed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 20/42] fix: escape message text in the fallback dashboard
 message banner

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..7d717fb 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import json
 from collections.abc import Mapping
 from datetime import datetime
+from html import escape
 from typing import TYPE_CHECKING, Any
 from urllib.parse import urlencode
 
@@ -227,7 +228,7 @@ def _render_messages_oob(request: Request, context: dict[str, Any]) -> str:
             else:
                 color = "blue"
                 icon = "info"
-            text = str(m.get("text", ""))
+            text = escape(str(m.get("text", "")))
             parts.append(
                 f"""
                   <div id="flash-{i}" class="relative flex items-start gap-3 p-4 bg-{color}-50
-- 
2.43.0


From bb5c67cb92434f948a1fd3b99104398b8c65b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 21/42] fix: percent-encode task and run ids put into dashboard
 links

---
 .../dashboard/templates/history/detail.html      |  2 +-
 .../templates/history/partials/table.html        |  2 +-
 asyncz/contrib/dashboard/templates/index.html    |  2 +-
 .../dashboard/templates/tasks/_table.html        | 16 ++++++++--------
 .../dashboard/templates/tasks/detail.html        | 12 ++++++------
 .../contrib/dashboard/templates/tasks/edit.html  |  2 +-
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/asyncz/contrib/dashboard/templates/history/detail.html b/asyncz/contrib/dashboard/templates/history/detail.html
index 9713951..6cf0148 100644
--- a/asyncz/contrib/dashboard/templates/history/detail.html
+++ b/asyncz/contrib/dashboard/templates/history/detail.html
@@ -16,7 +16,7 @@
         </div>
         <div class="az-actions">
           <a href="{{ url_prefix }}/history" class="az-button">Back</a>
-          <a href="{{ url_prefix }}/logs?run_id={{ record.run_id }}" class="az-button az-button--primary">Open Logs</a>
+          <a href="{{ url_prefix }}/logs?run_id={{ record.run_id|urlencode }}" class="az-button az-button--primary">Open Logs</a>
         </div>
       </div>
 
diff --git a/asyncz/contrib/dashboard/templates/history/partials/table.html b/asyncz/contrib/dashboard/templates/history/partials/table.html
index 750153f..baeb8f7 100644
--- a/asyncz/contrib/dashboard/templates/history/partials/table.html
+++ b/asyncz/contrib/dashboard/templates/history/partials/table.html
@@ -66,7 +66,7 @@
             {% endif %}
           </td>
           <td style="text-align: right">
-            <a href="{{ url_prefix }}/history/{{ r.run_id }}" class="az-button">Inspect Logs</a>
+            <a href="{{ url_prefix }}/history/{{ r.run_id|urlencode }}" class="az-button">Inspect Logs</a>
           </td>
         </tr>
       {% endfor %}
diff --git a/asyncz/contrib/dashboard/templates/index.html b/asyncz/contrib/dashboard/templates/index.html
index 87e3760..951c379 100644
--- a/asyncz/contrib/dashboard/templates/index.html
+++ b/asyncz/contrib/dashboard/templates/index.html
@@ -101,7 +101,7 @@
                 <td>{{ t.next_run_time or '-' }}</td>
                 <td>
                   {% if t.last_run %}
-                    <a href="{{ url_prefix }}/history/{{ t.last_run.run_id }}" class="az-mono">{{ t.last_run.finished_at or t.last_run.submitted_at }}</a>
+                    <a href="{{ url_prefix }}/history/{{ t.last_run.run_id|urlencode }}" class="az-mono">{{ t.last_run.finished_at or t.last_run.submitted_at }}</a>
                     <div class="az-muted">{{ t.last_run.status_label }}</div>
                   {% else %}
                     <span class="az-muted">Never</span>
diff --git a/asyncz/contrib/dashboard/templates/tasks/_table.html b/asyncz/contrib/dashboard/templates/tasks/_table.html
index b414186..72f11dc 100644
--- a/asyncz/contrib/dashboard/templates/tasks/_table.html
+++ b/asyncz/contrib/dashboard/templates/tasks/_table.html
@@ -82,7 +82,7 @@
 
             <td>
               {% if t.last_run %}
-                <a href="{{ url_prefix }}/history/{{ t.last_run.run_id }}" class="az-mono">{{ t.last_run.finished_at or t.last_run.submitted_at }}</a>
+                <a href="{{ url_prefix }}/history/{{ t.last_run.run_id|urlencode }}" class="az-mono">{{ t.last_run.finished_at or t.last_run.submitted_at }}</a>
                 <div>
                   {% if t.last_run.status == "succeeded" %}
                     <span class="az-badge az-badge--success">{{ t.last_run.status_label }}</span>
@@ -106,7 +106,7 @@
 
             <td style="text-align: right">
               <div class="az-actions">
-                <form hx-post="{{ t.id }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                <form hx-post="{{ t.id|urlencode }}/run{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                   <button class="az-icon-button az-action-button az-icon-button--primary" aria-label="Run {{ t.name or t.id }} now" title="Run now">
                     <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                       <path d="M8 5v14l11-7z"/>
@@ -115,7 +115,7 @@
                   </button>
                 </form>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open details for {{ t.name or t.id }}"
                    title="Details">
@@ -128,7 +128,7 @@
                 </a>
 
                 {% if t.state == "scheduled" %}
-                  <form hx-post="{{ t.id }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ t.id|urlencode }}/pause{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--warning" aria-label="Pause {{ t.name or t.id }}" title="Pause">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M9 6v12"/>
@@ -138,7 +138,7 @@
                     </button>
                   </form>
                 {% else %}
-                  <form hx-post="{{ t.id }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
+                  <form hx-post="{{ t.id|urlencode }}/resume{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML">
                     <button class="az-icon-button az-action-button az-icon-button--success" aria-label="Resume {{ t.name or t.id }}" title="Resume">
                       <svg viewBox="0 0 24 24" fill="none" stroke="currentColor" stroke-width="1.9" stroke-linecap="round" stroke-linejoin="round" aria-hidden="true">
                         <path d="M8 5v14l11-7z"/>
@@ -148,7 +148,7 @@
                   </form>
                 {% endif %}
 
-                <a href="{{ url_prefix }}/logs?task_id={{ t.id }}"
+                <a href="{{ url_prefix }}/logs?task_id={{ t.id|urlencode }}"
                    class="az-icon-button az-action-button"
                    aria-label="Open logs for {{ t.name or t.id }}"
                    title="Logs">
@@ -163,7 +163,7 @@
                   <span>Logs</span>
                 </a>
 
-                <a href="{{ url_prefix }}/tasks/{{ t.id }}/edit"
+                <a href="{{ url_prefix }}/tasks/{{ t.id|urlencode }}/edit"
                    class="az-icon-button az-action-button"
                    aria-label="Edit {{ t.name or t.id }}"
                    title="Edit">
@@ -187,7 +187,7 @@
                   <span>Copy</span>
                 </button>
 
-                <form hx-post="{{ t.id }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
+                <form hx-post="{{ t.id|urlencode }}/remove{{ query_suffix }}" hx-target="#tasks-table" hx-swap="innerHTML"
                       data-confirm-label="{{ t.name or t.id }}"
                       x-on:submit="confirmRemove">
                   <button class="az-icon-button az-action-button az-icon-button--danger" aria-label="Remove {{ t.name or t.id }}" title="Remove">
diff --git a/asyncz/contrib/dashboard/templates/tasks/detail.html b/asyncz/contrib/dashboard/templates/tasks/detail.html
index 0944d22..a10d112 100644
--- a/asyncz/contrib/dashboard/templates/tasks/detail.html
+++ b/asyncz/contrib/dashboard/templates/tasks/detail.html
@@ -19,9 +19,9 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/tasks/{{ task.id }}/edit" class="az-button">Edit</a>
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
-          <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button az-button--primary">Logs</a>
+          <a href="{{ url_prefix }}/tasks/{{ task.id|urlencode }}/edit" class="az-button">Edit</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button az-button--primary">Logs</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
@@ -124,7 +124,7 @@
           <h2 class="az-panel-title">Recent Runs</h2>
           <div class="az-panel-meta">Latest run records for this task.</div>
         </div>
-        <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">Open History</a>
+        <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">Open History</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
@@ -160,7 +160,7 @@
                   <td>{{ run.source_label }}</td>
                   <td>{% if run.duration_ms is not none %}{{ run.duration_ms }} ms{% else %}-{% endif %}</td>
                   <td style="text-align: right">
-                    <a href="{{ url_prefix }}/history/{{ run.run_id }}" class="az-button">Inspect</a>
+                    <a href="{{ url_prefix }}/history/{{ run.run_id|urlencode }}" class="az-button">Inspect</a>
                   </td>
                 </tr>
               {% endfor %}
@@ -176,7 +176,7 @@
           <h2 class="az-panel-title">Recent Logs</h2>
           <div class="az-panel-meta">Latest captured log records for this task id.</div>
         </div>
-        <a href="{{ url_prefix }}/logs?task_id={{ task.id }}" class="az-button">Open Logs</a>
+        <a href="{{ url_prefix }}/logs?task_id={{ task.id|urlencode }}" class="az-button">Open Logs</a>
       </div>
       <div class="az-table-wrap">
         <table class="az-table">
diff --git a/asyncz/contrib/dashboard/templates/tasks/edit.html b/asyncz/contrib/dashboard/templates/tasks/edit.html
index a9335a8..cc3a1ca 100644
--- a/asyncz/contrib/dashboard/templates/tasks/edit.html
+++ b/asyncz/contrib/dashboard/templates/tasks/edit.html
@@ -19,7 +19,7 @@
           <div class="az-panel-meta az-mono">{{ task.id }}</div>
         </div>
         <div class="az-actions">
-          <a href="{{ url_prefix }}/history?task_id={{ task.id }}" class="az-button">History</a>
+          <a href="{{ url_prefix }}/history?task_id={{ task.id|urlencode }}" class="az-button">History</a>
           <a href="{{ url_for('dashboard:tasks:index') }}" class="az-button">Back</a>
         </div>
       </div>
-- 
2.43.0


From d5e1bfa5c898e376fb3bcc5cfd9bd96081a23584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 22/42] fix: percent-encode the requested path in the login
 redirect

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..3539522 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -90,7 +91,7 @@ class AuthGateMiddleware:
         login_url: str = f"{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        next_q: str = f"?next={quote(path)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From 9057d6d9f9ed019121210791750f33e66ad22422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 23/42] fix: only follow a login redirect that stays on this
 site

---
 asyncz/contrib/dashboard/admin/backends.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..6d8fa86 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -103,8 +103,10 @@ class SimpleUsernamePasswordBackend(AuthBackend):
             **user.extra,  # Merge any extra user data
         }
 
-        # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        # Redirect to the requested 'next' path on this site or default to root
+        next: str = form.get("next") or ""
+        if not next.startswith("/") or next.startswith(("//", "/\\")):
+            next = reverse("dashboard:index")
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
-- 
2.43.0


From 6bff84cbe774da07bf4b72a2ca9f4e33dd2cf4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 24/42] fix: honour now and answer refusals in the remote task
 preview

---
 asyncz/contrib/dashboard/remote.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..efb4ac8 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -402,12 +402,17 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        params = request.query_params
+        try:
+            now = params.get("now")
+            result = scheduler.preview_task_runs(
+                task_id,
+                params.get("store") or None,
+                count=int(params.get("count") or 5),
+                now=datetime.fromisoformat(now) if now else None,
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
-- 
2.43.0


From ed20c642e697608ea7f9649d76e2f1df767fdb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 25/42] fix: answer unusable remote payloads instead of failing

---
 asyncz/contrib/dashboard/remote.py | 52 +++++++++++++++---------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index efb4ac8..372b434 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -427,31 +427,31 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        body = await _json_body(request)
         trigger: Any
-        trigger_args = dict(body.get("trigger_args") or {})
-        if body.get("trigger_pickle"):
-            trigger = _decode_trigger(str(body["trigger_pickle"]))
-        else:
-            trigger = body.get("trigger")
-        kwargs = {
-            key: body[key]
-            for key in (
-                "id",
-                "name",
-                "args",
-                "kwargs",
-                "mistrigger_grace_time",
-                "coalesce",
-                "max_instances",
-                "next_run_time",
-                "store",
-                "executor",
-                "replace_existing",
-            )
-            if key in body
-        }
         try:
+            body = await _json_body(request)
+            trigger_args = dict(body.get("trigger_args") or {})
+            if body.get("trigger_pickle"):
+                trigger = _decode_trigger(str(body["trigger_pickle"]))
+            else:
+                trigger = body.get("trigger")
+            kwargs = {
+                key: body[key]
+                for key in (
+                    "id",
+                    "name",
+                    "args",
+                    "kwargs",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "next_run_time",
+                    "store",
+                    "executor",
+                    "replace_existing",
+                )
+                if key in body
+            }
             task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
             return _error(exc, status_code=400)
@@ -468,8 +468,8 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        body = await _json_body(request)
         try:
+            body = await _json_body(request)
             task = scheduler.update_task(
                 task_id, body.get("store"), **dict(body.get("updates") or {})
             )
@@ -491,9 +491,9 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
             return response
         task_id = request.path_params["task_id"]
         action = request.path_params["action"]
-        body = await _json_body(request)
-        store = body.get("store")
         try:
+            body = await _json_body(request)
+            store = body.get("store")
             if action == "run":
                 task = scheduler.run_task(
                     task_id,
-- 
2.43.0


From e6a77e5924e19fa36222415f82d9ba6a8823e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 26/42] fix: report every remote transport failure as
 RemoteSchedulerError

---
 asyncz/contrib/dashboard/remote.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 372b434..fd3b666 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -17,6 +17,7 @@ import urllib.request
 from collections.abc import Callable, Mapping
 from datetime import datetime
 from enum import Enum
+from http.client import HTTPException
 from typing import Any
 
 from lilya.requests import Request
@@ -625,9 +626,12 @@ class RemoteSchedulerClient:
                 body = response.read().decode() or "{}"
                 return response.status, json.loads(body)
         except urllib.error.HTTPError as exc:
-            body = exc.read().decode() or "{}"
-            return exc.code, json.loads(body)
-        except urllib.error.URLError as exc:
+            try:
+                body = exc.read().decode() or "{}"
+                return exc.code, json.loads(body)
+            except (OSError, HTTPException, ValueError) as error:
+                raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from error
+        except (OSError, HTTPException, ValueError) as exc:
             raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
 
     def _request(
-- 
2.43.0


From d236af6a9ba61dcf85067c68a1db01841f5469e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 27/42] fix: transmit an explicit None for next_run_time and
 mistrigger_grace_time

---
 asyncz/contrib/dashboard/remote.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index fd3b666..0a0a5e5 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -864,15 +864,20 @@ class RemoteSchedulerClient:
         for key, value in {
             "id": id,
             "name": name,
-            "mistrigger_grace_time": mistrigger_grace_time,
             "coalesce": coalesce,
             "max_instances": max_instances,
-            "next_run_time": next_run_time,
             "store": store,
             "executor": executor,
         }.items():
             if value is not undefined and value is not None:
                 payload[key] = value
+        # None is a value of its own here: run no matter how late, and add the task as paused.
+        for key, value in {
+            "mistrigger_grace_time": mistrigger_grace_time,
+            "next_run_time": next_run_time,
+        }.items():
+            if value is not undefined:
+                payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
         assert task is not None
-- 
2.43.0


From e4106c1b8fe4fa521ac812f2f192ce6bb74a636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 28/42] fix: shut the temporary scheduler down when a one-shot
 CLI command fails

---
 asyncz/cli/commands/add.py    | 35 ++++++++++++++++++-----------------
 asyncz/cli/commands/pause.py  | 15 ++++++++-------
 asyncz/cli/commands/remove.py | 25 +++++++++++++------------
 asyncz/cli/commands/resume.py | 21 +++++++++++----------
 asyncz/cli/commands/run.py    | 15 ++++++++-------
 5 files changed, 58 insertions(+), 53 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..f63fc7f 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -90,24 +90,25 @@ def add(
             scheduler = AsyncIOScheduler(**cfg)
             await maybe_await(scheduler.start())
 
-        # 4) Resolve callable and add task
-        func: Callable[..., Any] = import_callable(callable_path)
-        job = await maybe_await(
-            scheduler.add_task(
-                func,
-                trigger=t,
-                id=job_id,
-                args=pos,
-                kwargs=kw,
-                name=name,
-                store=target_store_alias,  # may be None in bootstrap mode; scheduler decides default
+        try:
+            # 4) Resolve callable and add task
+            func: Callable[..., Any] = import_callable(callable_path)
+            job = await maybe_await(
+                scheduler.add_task(
+                    func,
+                    trigger=t,
+                    id=job_id,
+                    args=pos,
+                    kwargs=kw,
+                    name=name,
+                    store=target_store_alias,  # may be None in bootstrap mode; scheduler decides default
+                )
             )
-        )
 
-        info(f"Added job {job.id} ({job.name or func.__name__})")
-
-        # 5) Shutdown only if we created a temporary scheduler
-        if not bootstrap_mode:
-            await maybe_await(scheduler.shutdown())
+            info(f"Added job {job.id} ({job.name or func.__name__})")
+        finally:
+            # 5) Shutdown only if we created a temporary scheduler
+            if not bootstrap_mode:
+                await maybe_await(scheduler.shutdown())
 
     loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..af340fb 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -54,13 +54,14 @@ def pause(
             scheduler = AsyncIOScheduler(**cfg)
             await maybe_await(scheduler.start())
 
-        # 2) Delegate to the scheduler API.
-        await maybe_await(scheduler.pause_task(job_id))
+        try:
+            # 2) Delegate to the scheduler API.
+            await maybe_await(scheduler.pause_task(job_id))
 
-        success(f"Paused job {job_id}")
-
-        # 3) Shutdown only if we created a temporary scheduler
-        if not bootstrap_mode:
-            await maybe_await(scheduler.shutdown())
+            success(f"Paused job {job_id}")
+        finally:
+            # 3) Shutdown only if we created a temporary scheduler
+            if not bootstrap_mode:
+                await maybe_await(scheduler.shutdown())
 
     loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..c17da8a 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -53,17 +53,18 @@ def remove(
             scheduler = AsyncIOScheduler(**cfg)
             await maybe_await(scheduler.start())
 
-        # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
-        #    If your scheduler supports delete by ID only, this lookup is still safe and provides validation.
-        _, store_alias = scheduler.lookup_task(job_id, None)
-
-        # 3) Delete the job
-        await maybe_await(scheduler.delete_task(job_id, store_alias))  # type: ignore
-
-        success(f"Removed job {job_id}")
-
-        # 4) Shutdown only if we created a temporary scheduler
-        if not bootstrap_mode:
-            await maybe_await(scheduler.shutdown())
+        try:
+            # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
+            #    If your scheduler supports delete by ID only, this lookup is still safe and provides validation.
+            _, store_alias = scheduler.lookup_task(job_id, None)
+
+            # 3) Delete the job
+            await maybe_await(scheduler.delete_task(job_id, store_alias))  # type: ignore
+
+            success(f"Removed job {job_id}")
+        finally:
+            # 4) Shutdown only if we created a temporary scheduler
+            if not bootstrap_mode:
+                await maybe_await(scheduler.shutdown())
 
     loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..95933b7 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -53,15 +53,16 @@ def resume(
             scheduler = AsyncIOScheduler(**cfg)
             await maybe_await(scheduler.start())
 
-        # 2) Delegate to the scheduler API and mirror the resulting state in the message.
-        resumed_task = await maybe_await(scheduler.resume_task(job_id))
-        if resumed_task is None:
-            success(f"Removed job {job_id} (schedule finished)")
-        else:
-            success(f"Resumed job {job_id}")
-
-        # 3) Shutdown only if we created a temporary scheduler
-        if not bootstrap_mode:
-            await maybe_await(scheduler.shutdown())
+        try:
+            # 2) Delegate to the scheduler API and mirror the resulting state in the message.
+            resumed_task = await maybe_await(scheduler.resume_task(job_id))
+            if resumed_task is None:
+                success(f"Removed job {job_id} (schedule finished)")
+            else:
+                success(f"Resumed job {job_id}")
+        finally:
+            # 3) Shutdown only if we created a temporary scheduler
+            if not bootstrap_mode:
+                await maybe_await(scheduler.shutdown())
 
     loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..120d680 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -53,12 +53,13 @@ def run(
             scheduler = AsyncIOScheduler(**cfg)
             await maybe_await(scheduler.start())
 
-        # 2. Delegate the "run now" flow to the scheduler itself.
-        await maybe_await(scheduler.run_task(job_id))
-        info(f"Triggered job {job_id}")
-
-        # 3. Shutdown the temporary scheduler
-        if not bootstrap_mode:
-            await maybe_await(scheduler.shutdown())
+        try:
+            # 2. Delegate the "run now" flow to the scheduler itself.
+            await maybe_await(scheduler.run_task(job_id))
+            info(f"Triggered job {job_id}")
+        finally:
+            # 3. Shutdown the temporary scheduler
+            if not bootstrap_mode:
+                await maybe_await(scheduler.shutdown())
 
     loop.run_until_complete(main())
-- 
2.43.0


From 56d62f9706d8518ed98ad6c8bfb6cdec109c7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 29/42] fix: the CLI registry loader passes the entry's
 function and name to add_task

---
 asyncz/cli/loader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..77d35fb 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,12 +20,12 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
+            name=item.get("name"),
         )
         added += 1
     return added
@@ -57,9 +56,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
     added = 0
     for job in data.get("jobs", []):
         trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
+            name=job.get("name"),
         )
         added += 1
     return added
-- 
2.43.0


From 312ee1101b2e903db57c74e240b44424e3c53ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 30/42] fix: the CLI's --store specs build the arguments the
 stores accept

---
 asyncz/cli/utils.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..77b3a27 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -5,6 +5,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
+from urllib.parse import unquote, urlsplit
 
 from asyncz.cli._parsers import parse_store_option
 
@@ -150,14 +151,33 @@ def parse_store(spec: str) -> tuple[str, dict[str, Any]]:
     if value == "memory":
         return alias, {"type": "memory"}
 
+    if "://" not in value:
+        raise ValueError(f"Store value must be 'memory' or a URL, got '{value}'.")
+
     if value.startswith("file://"):
-        return alias, {"type": "file", "path": value.removeprefix("file://")}
+        return alias, {"type": "file", "directory": value.removeprefix("file://")}
 
     if value.startswith("redis://"):
-        return alias, {"type": "redis", "url": value}
+        url = urlsplit(value)
+        cfg: dict[str, Any] = {
+            "type": "redis",
+            "host": url.hostname or "localhost",
+            "port": url.port or 6379,
+            "database": int(url.path.strip("/") or 0),
+        }
+        if url.username:
+            cfg["username"] = unquote(url.username)
+        if url.password:
+            cfg["password"] = unquote(url.password)
+        return alias, cfg
 
     if value.startswith("mongo://") or value.startswith("mongodb://"):
-        return alias, {"type": "mongodb", "url": value}
+        uri = "mongodb://" + value.partition("://")[2]
+        database = urlsplit(uri).path.strip("/")
+        cfg = {"type": "mongodb", "host": uri}
+        if database:
+            cfg["database"] = database
+        return alias, cfg
 
     # fallback to sqlalchemy for anything else that looks like a DB URL
     return alias, {"type": "sqlalchemy", "database": value}
@@ -219,6 +239,11 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
 
     stores: dict[str, dict[str, Any]] = {}
     for i, spec in enumerate(specs):
+        if "=" in spec:
+            named, cfg = parse_store(spec)
+            stores[named] = cfg
+            continue
+
         parsed: tuple[str | Any, ...] = parse_store_option(spec)
 
         if not isinstance(parsed, tuple):
-- 
2.43.0


From a0a48817767c0ed0272c05db876e01a095415a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 31/42] fix: report native shape errors as shape errors

---
 asyncz/shapes/builtins.py | 49 +++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 64adcc4..9b1b524 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -82,9 +82,10 @@ class PydanticShape(Shape):
 
         if hasattr(value, "model_dump"):
             try:
-                return value.model_dump(mode=mode or "python", exclude_none=exclude_none)
-            except TypeError:
-                return value.model_dump(exclude_none=exclude_none)
+                try:
+                    return value.model_dump(mode=mode or "python", exclude_none=exclude_none)
+                except TypeError:
+                    return value.model_dump(exclude_none=exclude_none)
             except Exception as exc:
                 raise ShapeSerializationError(
                     f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
@@ -127,7 +128,12 @@ class PydanticShape(Shape):
         """
 
         if self.supports(model_type) and hasattr(model_type, "model_json_schema"):
-            return model_type.model_json_schema()
+            try:
+                return model_type.model_json_schema()
+            except Exception as exc:
+                raise ShapeCapabilityError(
+                    f'Shape "{self.name}" could not generate a schema for {model_type.__name__}.'
+                ) from exc
         return super().schema(model_type, context=context)
 
 
@@ -188,7 +194,10 @@ class DataclassShape(Shape):
 
         if not dataclasses.is_dataclass(model_type):
             return super().fields(model_type, context=context)
-        hints = get_type_hints(model_type)
+        try:
+            hints = get_type_hints(model_type)
+        except Exception:
+            hints = {field.name: field.type for field in dataclasses.fields(model_type)}
         result: list[ShapeField] = []
         for field in dataclasses.fields(model_type):
             required = (
@@ -287,11 +296,16 @@ class AttrsShape(Shape):
 
         attr = self._attrs()
         if attr.has(value.__class__):
-            return {
-                key: dump_plain(item, exclude_none=exclude_none)
-                for key, item in attr.asdict(value, recurse=False).items()
-                if not exclude_none or item is not None
-            }
+            try:
+                return {
+                    key: dump_plain(item, exclude_none=exclude_none)
+                    for key, item in attr.asdict(value, recurse=False).items()
+                    if not exclude_none or item is not None
+                }
+            except Exception as exc:
+                raise ShapeSerializationError(
+                    f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
+                ) from exc
         return super().dump(value, mode=mode, context=context, exclude_none=exclude_none)
 
     def fields(
@@ -418,6 +432,12 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if not self.supports(model_type):
             return super().fields(model_type, context=context)
+        try:
+            fields = msgspec.structs.fields(model_type)
+        except Exception as exc:
+            raise ShapeCapabilityError(
+                f'Shape "{self.name}" could not inspect the fields of {model_type.__name__}.'
+            ) from exc
         return tuple(
             ShapeField(
                 name=field.name,
@@ -425,7 +445,7 @@ class MsgspecShape(Shape):
                 default=field.default,
                 required=field.required,
             )
-            for field in msgspec.structs.fields(model_type)
+            for field in fields
         )
 
     def schema(self, model_type: type[Any], *, context: ShapeContext | None = None) -> Any:
@@ -439,7 +459,12 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if not self.supports(model_type):
             return super().schema(model_type, context=context)
-        return msgspec.json.schema(model_type)
+        try:
+            return msgspec.json.schema(model_type)
+        except Exception as exc:
+            raise ShapeCapabilityError(
+                f'Shape "{self.name}" could not generate a schema for {model_type.__name__}.'
+            ) from exc
 
 
 class AnyShape(Shape):
-- 
2.43.0


From d6bd2e1783a9bc6c4bc9dbf6158a74543bf062f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 32/42] fix: honour exclude_none when dumping msgspec shapes

---
 asyncz/shapes/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/shapes/builtins.py b/asyncz/shapes/builtins.py
index 9b1b524..1ad6721 100644
--- a/asyncz/shapes/builtins.py
+++ b/asyncz/shapes/builtins.py
@@ -411,7 +411,7 @@ class MsgspecShape(Shape):
         msgspec = self._msgspec()
         if self.supports(value):
             try:
-                return msgspec.to_builtins(value)
+                return dump_plain(msgspec.to_builtins(value), exclude_none=exclude_none)
             except Exception as exc:
                 raise ShapeSerializationError(
                     f'Shape "{self.name}" could not dump {value.__class__.__name__}.'
-- 
2.43.0


From 3b3b1a458f4e71aa72f9c1c87e0aac5690e98717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 33/42] fix: updating, pausing and rescheduling a task given as
 an object

---
 asyncz/schedulers/base.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 8ca82ad..1eb9999 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -671,25 +671,11 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot update a decorator type Task"
-            new_updates = self.shape.dump(
-                task_id,
-                context=ShapeContext(
-                    entity="task",
-                    operation="dump",
-                    scheduler_identity=self.identity,
-                ),
-            )
-            if not isinstance(new_updates, Mapping):
-                raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
-            new_updates.update(**updates)
             task_id = task_id.id
-        else:
-            new_updates = updates
 
         with self.store_lock:
             task, store = self.lookup_task(task_id, store)
-            task.update_task(scheduler=self, **new_updates)
+            task.update_task(scheduler=self, **updates)
 
             if store:
                 self.lookup_store(store).update_task(task)
-- 
2.43.0


From 73c6b75a5aa4ab5924d380b4fbb1005e853442ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 34/42] fix: a plugin class of the wrong kind was accepted when
 asked for again

---
 asyncz/schedulers/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 1eb9999..3997963 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1513,14 +1513,13 @@ class BaseScheduler(SchedulerType):
             plugin_cls = class_container[alias]  # type: ignore
         except KeyError:
             if alias in plugin_container:
-                # plugin_cls = class_container[alias] = plugin_container[alias].load()
-                plugin_cls = class_container[alias] = self.resolve_load_plugin(  # type: ignore
-                    plugin_container[alias]
-                )
+                plugin_cls = self.resolve_load_plugin(plugin_container[alias])
                 if not issubclass(plugin_cls, base_class):
                     raise TypeError(
                         f"The {format(_type)} entry point does not point to a {format(_type)} class."
                     ) from None
+                # remember it only when checked, otherwise the next call would use it
+                class_container[alias] = plugin_cls  # type: ignore
             else:
                 raise LookupError(f"No {_type} by the name '{alias}' was found.") from None
 
-- 
2.43.0


From b9721a6f97737b313ceaa9635b42a9ef66b73695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 35/42] fix: cron expressions are refused when text follows the
 recognised part

---
 asyncz/triggers/cron/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/fields.py b/asyncz/triggers/cron/fields.py
index 08fd10e..0787c5c 100644
--- a/asyncz/triggers/cron/fields.py
+++ b/asyncz/triggers/cron/fields.py
@@ -71,7 +71,7 @@ class BaseField(BaseModel):
 
     def compile_expression(self, expr: Any) -> None:
         for compiler in self.compilers or []:
-            match = compiler.regex.match(expr)
+            match = compiler.regex.fullmatch(expr)
             if match:
                 compiled_expr = compiler(**match.groupdict())
                 try:
-- 
2.43.0


From cf8de0428ed6e5a3ace2c7ed854418c7ad981b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 36/42] fix: a cron range ending at 0 is not taken for an open
 range when its step is validated

---
 asyncz/triggers/cron/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..06077ac 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -99,7 +99,8 @@ class RangeExpression(AllExpression):
                 f"The last value ({self.last}) is higher than the maximum value ({MAX_VALUES[field_name]})."
             )
 
-        value_range = (self.last or MAX_VALUES[field_name]) - self.first
+        last = MAX_VALUES[field_name] if self.last is None else self.last
+        value_range = last - self.first
 
         if self.step and self.step > value_range:
             raise ValueError(
-- 
2.43.0


From ef7419c0b80a42e2759b0cfcc01e78aaad9ffe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 37/42] fix: cron fields and expressions compare every part
 that decides their values

---
 asyncz/triggers/cron/expressions.py | 3 ++-
 asyncz/triggers/cron/fields.py      | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index 06077ac..024d2e5 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -128,6 +128,7 @@ class RangeExpression(AllExpression):
             isinstance(other, self.__class__)
             and self.first == other.first
             and self.last == other.last
+            and self.step == other.step
         )
 
     def __str__(self) -> str:
@@ -274,7 +275,7 @@ class WeekdayPositionExpression(AllExpression):
     def __eq__(self, other: Any) -> bool:
         return (
             super().__eq__(other)
-            and self.option_number == other.option_num
+            and self.option_number == other.option_number
             and self.weekday == other.weekday
         )
 
diff --git a/asyncz/triggers/cron/fields.py b/asyncz/triggers/cron/fields.py
index 0787c5c..3d98945 100644
--- a/asyncz/triggers/cron/fields.py
+++ b/asyncz/triggers/cron/fields.py
@@ -85,7 +85,11 @@ class BaseField(BaseModel):
         raise ValueError(f'Unrecognized expression "{expr}" for field "{self.name}"')
 
     def __eq__(self, other: Any) -> bool:
-        return isinstance(self, self.__class__) and self.expressions == other.expressions
+        return (
+            isinstance(other, self.__class__)
+            and self.name == other.name
+            and self.expressions == other.expressions
+        )
 
     def __str__(self) -> str:
         expr_strings = (str(e) for e in self.expressions)
-- 
2.43.0


From f0cca69a8f65b4bf17d5d088a3295d0a61b97fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:16 +0000
Subject: [PATCH 38/42] fix: repr of a cron month range names the right first
 month

---
 asyncz/triggers/cron/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index 024d2e5..4b33654 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -189,7 +189,7 @@ class MonthRangeExpression(RangeExpression):
         return MONTHS[self.first - 1]
 
     def __repr__(self) -> str:
-        args = [f"'{MONTHS[self.first]}'"]
+        args = [f"'{MONTHS[self.first - 1]}'"]
         if self.last != self.first and self.last is not None:
             args.append(f"'{MONTHS[self.last - 1]}'")
         return f"{self.__class__.__name__}({', '.join(args)})"
-- 
2.43.0


From a878882609c29d055a46cb06190c6058428ffc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 39/42] fix: an AsyncIOScheduler can be started again after its
 event loop was closed

---
 asyncz/schedulers/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..90a4c01 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -42,7 +42,7 @@ class AsyncIOScheduler(BaseScheduler):
             loop.close()
 
     def start(self, paused: bool = False) -> bool:
-        if not self.event_loop:
+        if not self.event_loop or self.event_loop.is_closed():
             try:
                 if self.isolated_event_loop:
                     raise RuntimeError()
-- 
2.43.0


From 49d0436d2a7a1b9f5661c5628682b0579045c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 40/42] fix: a nested start of NativeAsyncIOScheduler keeps the
 isolated event loop it has

---
 asyncz/schedulers/asyncio.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 90a4c01..30a053b 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -113,10 +113,13 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
 
     async def start(self, paused: bool = False) -> bool:  # type: ignore
         if self.isolated_event_loop:
-            event = Event()
-            self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
-            self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
+            if self.event_loop_thread is None:
+                event = Event()
+                self.event_loop_thread = Thread(
+                    target=self._init_new_loop, args=[event], daemon=True
+                )
+                self.event_loop_thread.start()
+                await asyncio.to_thread(event.wait)
         else:
             self.event_loop = asyncio.get_running_loop()
 
-- 
2.43.0


From 8f2fdaa0d15dfc81b6658a22972608bd976fcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 41/42] fix: shutdown of NativeAsyncIOScheduler with an
 isolated event loop no longer hangs

---
 asyncz/schedulers/asyncio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index 30a053b..da789f2 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -142,7 +142,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                # stop() alone does not wake a loop waiting in another thread
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
         return result > 1
-- 
2.43.0


From b86eb11ce14820906b54f9904eb71b1760c75ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 42/42] fix: async shutdown tasks run to their end before the
 own event loop of an AsyncIOScheduler is stopped

---
 asyncz/schedulers/asyncio.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index da789f2..5118a38 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -30,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
+    _shutdown_handle: Any = None
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -56,13 +57,26 @@ class AsyncIOScheduler(BaseScheduler):
                 event.wait()
         return super().start(paused)
 
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        if coros:
+            self._shutdown_handle = asyncio.gather(*coros)
+        else:
+            self._shutdown_handle = None
+
     @run_in_event_loop
     def _shutdown(self, wait: bool = True) -> None:
         if super().shutdown(wait):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                loop = self.event_loop
+                handle = self._shutdown_handle
+                self._shutdown_handle = None
+                if handle is not None:
+                    # let the shutdown tasks come to an end before the loop does
+                    handle.add_done_callback(lambda _: loop.stop())
+                else:
+                    loop.stop()
                 self.event_loop = self.event_loop_thread = None
                 with contextlib.suppress(RuntimeError):
                     thread.join()
@@ -109,8 +123,6 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
         isolated_event_loop: Use a fresh, isolated event_loop instead the existing.
     """
 
-    _shutdown_handle: Any = None
-
     async def start(self, paused: bool = False) -> bool:  # type: ignore
         if self.isolated_event_loop:
             if self.event_loop_thread is None:
@@ -125,12 +137,6 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
 
         return super(AsyncIOScheduler, self).start(paused)
 
-    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
-        if coros:
-            self._shutdown_handle = asyncio.gather(*coros)
-        else:
-            self._shutdown_handle = None
-
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
         # not decremented yet so +1
         result = self.ref_counter
-- 
2.43.0


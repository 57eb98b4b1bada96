From 38fd4f112e996512b6391acca61499d014a94358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 01/41] fix: shut down the underlying queue when a delaying
 queue shuts down

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From 312b9f67355dd8a626c96999e0621a92580609bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 02/41] fix: pass on the wakeup of a cancelled work queue
 getter

---
 aiok8s/workqueue/queue.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..59ba693 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,14 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # This task may have consumed a notification that another
+                    # waiting getter now needs.
+                    if self._queue:
+                        self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From b10debef398f1687098d45d66d41146e9d42b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 03/41] fix: cap the item rate limiter's delay after 1024
 failures instead of raising

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..9721ee5 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            backoff = self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From 5c327e8e37871d0c659fd388f53bc5cb102f0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 04/41] fix: delta queue replace deletes pending items missing
 from the list

---
 aiok8s/cache/delta_fifo.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..cd5f4df 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,24 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
@@ -127,7 +123,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From 908a3fdc92c1a28d56f99a5c5719de4da2860211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 05/41] fix: do not drop a relisted object whose deletion is
 still pending

---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index cd5f4df..e7c7ce9 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -193,14 +193,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From c4d34b97eb764c6034a21e634dd7c0c8aa682c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 06/41] fix: a delta queue is not synced while its last initial
 item is being processed

---
 aiok8s/cache/delta_fifo.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index e7c7ce9..f540854 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -141,9 +141,8 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._initial_item_popped()
                     continue
                 item = self._items.pop(id_)
                 try:
@@ -156,6 +155,10 @@ class DeltaFIFO:
                     raise
                 except Exception as e:
                     raise fifo.ProcessError(item) from e
+                finally:
+                    # Not before: process may yield, and its item must not
+                    # count as consumed while it is still being processed.
+                    self._initial_item_popped()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -185,6 +188,10 @@ class DeltaFIFO:
     def is_closed(self):
         return self._closed
 
+    def _initial_item_popped(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, deltas):
         self._populated = True
         if id_ in self._items:
-- 
2.43.0


From 07a38c03e98757e295b232536ec97f7854dbddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 07/41] fix: deleting an absent key from a FIFO is not an error

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 85d53c3f851eacee2d4027a431fb67b54de580b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 08/41] fix: allow an index function to return the same value
 twice

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..1e6e3a8 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From df63b65ff00463f3b0895a7f1301188635eb72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 09/41] fix: adding indexers only fails for conflicting names

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 1e6e3a8..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From ccb3dda08bbb4c5f209cfba95c3d2e2c798ae8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 10/41] fix: a cancelled broadcast watcher read does not lose
 an event

---
 aiok8s/watch/mux.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..23286e4 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -156,22 +156,34 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._receiving = asyncio.Lock()
+        self._received = None
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
-        while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
-            if event in done:
+        async with self._receiving:
+            event = self._received
+            self._received = None
+            if not event:
+                event = asyncio.ensure_future(self._result.get())
+                try:
+                    await asyncio.wait(
+                        [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                    )
+                except asyncio.CancelledError:
+                    if not event.cancel():
+                        # Too late to leave the event in the queue: keep it for
+                        # the next call.
+                        self._received = event
+                    raise
+            if event.done():
                 if not self._result.maxsize:
                     self._result.task_done()
-                return await event
-            if self._stopped.is_set():
-                raise StopAsyncIteration
+                return event.result()
+            event.cancel()
+            raise StopAsyncIteration
 
     async def __aenter__(self):
         return self
-- 
2.43.0


From 490aca2c216556c9dae93d122bf0ec2110377d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 11/41] fix: relist when a watch stream raises instead of
 waiting for ever

---
 aiok8s/cache/reflector.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..ae2baf1 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,14 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            except Exception as e:
+                await event_queue.put(e)
+            else:
+                await event_queue.put(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -164,6 +168,8 @@ class Reflector:
                 event = await event_task
                 if event is None:
                     break
+                if isinstance(event, Exception):
+                    raise event
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
                 if self._expected_type is not None and not isinstance(
-- 
2.43.0


From fd5372db9508257832802692f4d504a35d3240cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 12/41] fix: understand the api version of the core group

---
 aiok8s/api/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..ed46d03 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,8 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        # The core group has no name and no slash
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From ee298093e6f55d62a880cf71f83a5e2b33115d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 13/41] fix: dict objects need not have a namespace

---
 aiok8s/api/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index ed46d03..db573be 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,8 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        # Absent from cluster-scoped objects
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-- 
2.43.0


From 9c5f979873e2bcc2cc3fe52acf224830d0d953a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 14/41] fix: skip watch events without a kind or version
 instead of ending the watch

---
 aiok8s/cache/reflector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index ae2baf1..7aa5ef8 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -182,7 +182,11 @@ class Reflector:
                     )
                     continue
                 if self._expected_gvk is not None:
-                    gvk = meta.type_accessor(event["object"]).group_version_kind
+                    try:
+                        gvk = meta.type_accessor(event["object"]).group_version_kind
+                    except Exception:
+                        logger.error("unable to understand watch event %r", event)
+                        continue
                     if self._expected_gvk != gvk:
                         logger.error(
                             "expected gvk %s, but watch event object had gvk %s",
@@ -192,10 +196,10 @@ class Reflector:
                         continue
                 try:
                     metadata = meta.accessor(event["object"])
+                    new_resource_version = metadata.resource_version
                 except Exception:
                     logger.error("unable to understand watch event %r", event)
                     continue
-                new_resource_version = metadata.resource_version
                 if event["type"] == watch.EventType.ADDED:
                     try:
                         await self._store.add(event["object"])
-- 
2.43.0


From 15895edf88bcb5743bacc7e70f83e9b27d439491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 15/41] fix: a slow event handler does not hold up the informer

The listener waited for its handler to take each notification before
buffering further ones, so the informer and every other handler waited too.
---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..77cd89b 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -348,7 +348,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 2d83f7aa138241b6f6d3d6d2dccab2755d557263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 16/41] fix: a failed event handler does not delay stopping the
 informer

---
 aiok8s/cache/shared_informer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 77cd89b..7aeaa6e 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -394,7 +394,7 @@ class _ProcessListener:
             except asyncio.CancelledError:
                 raise
             except Exception:
-                await asyncio.sleep(60)
+                await asyncio.wait([stop_next_task], timeout=60)
             else:
                 break
 
-- 
2.43.0


From 0104b070aa2798469e8646ceeed498ecc222de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 17/41] fix: tell every handler about changes discovered by a
 relist

Changes found by a replace arrive as sync deltas, which went only to the
handlers that were due for a resync the last time one was considered.
---
 aiok8s/cache/shared_informer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 7aeaa6e..1159ab9 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,16 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # A replace may bring changes that the watch missed:
+                        # only unchanged objects are of no interest to the
+                        # handlers that are not due for a resync.
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and meta.accessor(d.object).resource_version
+                            == meta.accessor(old).resource_version
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +199,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
-- 
2.43.0


From 99157b84f0688d8c11fdf7cd4c7c2dfd516b743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 18/41] fix: a delaying queue that shuts down leaves no timer
 running

---
 aiok8s/workqueue/delaying_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..37cd163 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -99,7 +99,7 @@ class _DelayingType(queue.Type):
                 task.cancel()
             await asyncio.gather(*pending, return_exceptions=True)
             if self._stop_event.is_set():
-                return
+                break
             if wait_task in done:
                 wait_entry = await wait_task
                 if wait_entry.ready_at > self._clock.now():
@@ -114,6 +114,9 @@ class _DelayingType(queue.Type):
                     else:
                         await self.add(wait_entry.data)
 
+        if next_ready_at_timer:
+            next_ready_at_timer.stop()
+
 
 class _WaitFor(NamedTuple):
     data: Hashable
-- 
2.43.0


From c59ccc10201270a7b738a6c9747edefa2a0a21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 19/41] fix: reconcile objects whose deletion was discovered by
 a relist

---
 aiok8s/controller/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..4bd04bb 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,8 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From be706a06ad8f713c31864e3d138ad282b76f9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 20/41] fix: resync a cache after 0.9 to 1.1 of its resync
 period

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..d672aab 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -101,7 +101,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From 7bfbf6163ef3e1ea7a734952d42b2488ffbd784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 21/41] fix: run informers for types first requested after the
 cache started

---
 aiok8s/controller/_informers_map.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index d672aab..42057af 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,25 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._stopped = False
+        self._tasks = []
 
     async def start(self):
-        async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
-            self._started = True
-        await asyncio.gather(*aws)
+        try:
+            async with self._mutex:
+                for informer in self._informers_by_gvk.values():
+                    self._run_informer(informer)
+                self._started = True
+            # Keep running because informers may be added until cancelled
+            await asyncio.gather(*self._tasks, asyncio.Future())
+        finally:
+            self._stopped = True
+            for task in self._tasks:
+                task.cancel()
+            await asyncio.gather(*self._tasks, return_exceptions=True)
+
+    def _run_informer(self, informer):
+        self._tasks.append(asyncio.ensure_future(informer.informer.run()))
 
     def has_synced_funcs(self):
         return [
@@ -81,6 +91,8 @@ class _SpecificInformersMap:
             new_informer, _cache_reader.CacheReader(new_informer.get_indexer(), gvk)
         )
         self._informers_by_gvk[gvk] = informer
+        if self._started and not self._stopped:
+            self._run_informer(informer)
         return informer
 
 
-- 
2.43.0


From f4938b555e4281ef7359007f418437ab4bd4e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 22/41] fix: stop the cache when a manager is cancelled before
 its cache synced

---
 aiok8s/controller/manager.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..69e23b0 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,18 +47,23 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
+        tasks = []
+        try:
+            async with self._mutex:
+                await self._wait_for_cache(tasks)
+                tasks += [
+                    asyncio.ensure_future(controller.start())
+                    for controller in self._non_leader_election_runnables
+                ]
+            await asyncio.gather(*tasks)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
-    async def _wait_for_cache(self):
+    async def _wait_for_cache(self, tasks):
         if self._started:
             return
-        task = asyncio.ensure_future(self._cache.start())
+        tasks.append(asyncio.ensure_future(self._cache.start()))
         await self._cache.wait_for_cache_sync()
         self._started = True
-        return task
-- 
2.43.0


From 9dfd265fe148bad92137bdabeb2b8df1324bfec4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 23/41] fix: a stopped manager or cache waits for everything it
 started

---
 aiok8s/controller/_informers_map.py | 6 +++++-
 aiok8s/controller/manager.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index 42057af..54961ac 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -44,7 +44,11 @@ class _SpecificInformersMap:
                     self._run_informer(informer)
                 self._started = True
             # Keep running because informers may be added until cancelled
-            await asyncio.gather(*self._tasks, asyncio.Future())
+            done, _ = await asyncio.wait(
+                [*self._tasks, asyncio.Future()], return_when=asyncio.FIRST_EXCEPTION
+            )
+            for task in done:
+                task.result()
         finally:
             self._stopped = True
             for task in self._tasks:
diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 69e23b0..63dbb12 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -55,7 +55,11 @@ class _ControllerManager:
                     asyncio.ensure_future(controller.start())
                     for controller in self._non_leader_election_runnables
                 ]
-            await asyncio.gather(*tasks)
+            done, _ = await asyncio.wait(
+                tasks, return_when=asyncio.FIRST_EXCEPTION
+            )
+            for task in done:
+                task.result()
         finally:
             for task in tasks:
                 task.cancel()
-- 
2.43.0


From 7075015104edf036ae8caddd5f2248800b7da55a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 24/41] fix: objects whose metadata is None are not objects

---
 aiok8s/api/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index db573be..64d4064 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -99,6 +99,8 @@ class _UnstructuredListAccessor:
 class _Accessor:
     def __init__(self, obj):
         self._metadata = obj.metadata
+        if self._metadata is None:
+            raise AttributeError("metadata")
 
     @property
     def namespace(self):
@@ -124,6 +126,8 @@ class _Accessor:
 class _UnstructuredAccessor:
     def __init__(self, obj):
         self._metadata = obj["metadata"]
+        if self._metadata is None:
+            raise KeyError("metadata")
 
     @property
     def namespace(self):
-- 
2.43.0


From 29c501813ec0f2a8f7226046d1751d1c4b13ddc8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 25/41] fix: a cancelled controller waits for all of its
 workers

---
 aiok8s/controller/controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..aeaaccb 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -55,6 +55,7 @@ class _Controller:
 
     async def start(self):
         self.queue = self.make_queue()
+        aws = []
         try:
             async with self._mutex:
                 for watch in self._watches:
@@ -75,8 +76,13 @@ class _Controller:
                     for _ in range(self.max_concurrent_reconciles)
                 ]
 
-            await asyncio.gather(*aws)
+            done, _ = await asyncio.wait(aws, return_when=asyncio.FIRST_EXCEPTION)
+            for aw in done:
+                aw.result()
         finally:
+            for aw in aws:
+                aw.cancel()
+            await asyncio.gather(*aws, return_exceptions=True)
             await self.queue.shut_down()
 
     def inject_func(self, f):
-- 
2.43.0


From e44a9b8a6249f8265b7d51197f2fddd37690d42e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 26/41] fix: the config map lock imports an existing module

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From 392d3742b7286658b5225ea6dac016428690d7c4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 27/41] fix: a config map lock without a record can be acquired

---
 aiok8s/leaderelection/resourcelock.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..af7e5d5 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, exceptions, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,14 +40,22 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except exceptions.ApiException as e:
+            if e.status != 404:
+                raise
+            # Nothing to update: the record must be created
+            self._cm = None
+            return None, None
         raw_record = (
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
         )
-        record = raw_record and json.loads(raw_record)
+        # A config map without a record must be updated, not created
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -67,6 +75,8 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
         self._cm.metadata.annotations[
             LEADER_ELECTION_RECORD_ANNOTATION_KEY
         ] = raw_record
-- 
2.43.0


From ca5487eaf4d7dba6d92eee4c867f8887de0b258a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 28/41] fix: leader electors keep track of the leader they
 observed

---
 aiok8s/leaderelection/leaderelection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..565c7bb 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = None
 
     async def run(self):
         try:
@@ -74,7 +78,9 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return (
+            self._observed_record.get("holderIdentity") == self._config.lock.identity()
+        )
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +213,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        holder_identity = self._observed_record.get("holderIdentity")
+        if holder_identity == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = holder_identity
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From acc5bd92d7ebd7923f00a7e6e293dc1908ccdcdf Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 29/41] fix: leader election records may lack transitions and
 acquire time

---
 aiok8s/leaderelection/leaderelection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 565c7bb..23eb521 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -129,7 +129,7 @@ class LeaderElector:
         if not self.is_leader():
             return True
         leader_election_record = {
-            "leaderTransitions": self._observed_record["leaderTransitions"]
+            "leaderTransitions": self._observed_record.get("leaderTransitions", 0)
         }
         try:
             await self._config.lock.update(leader_election_record)
@@ -189,15 +189,15 @@ class LeaderElector:
             return False
 
         if self.is_leader():
-            leader_election_record["acquireTime"] = old_leader_election_record[
-                "acquireTime"
-            ]
-            leader_election_record["leaderTransitions"] = old_leader_election_record[
-                "leaderTransitions"
-            ]
+            leader_election_record["acquireTime"] = old_leader_election_record.get(
+                "acquireTime", now
+            )
+            leader_election_record["leaderTransitions"] = (
+                old_leader_election_record.get("leaderTransitions", 0)
+            )
         else:
             leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+                old_leader_election_record.get("leaderTransitions", 0) + 1
             )
 
         try:
-- 
2.43.0


From f617e7a113c4c17707327b828e91c317ff6f48ca Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 30/41] fix: a leader that cannot renew within the renew
 deadline stops leading

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 23eb521..441e9d6 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -108,8 +108,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0


From 6fb20b4d43b3cdc7b4081f52eb1bf41f7c79f63f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 31/41] fix: stop leading before releasing the leader lock

---
 aiok8s/leaderelection/leaderelection.py | 53 +++++++++++++------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 441e9d6..0887df2 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -71,11 +71,16 @@ class LeaderElector:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
-            await self._renew()
+            try:
+                await self._renew()
+            finally:
+                task.cancel()
+                await asyncio.gather(task, return_exceptions=True)
+                # Only once nothing leads any more
+                if self._config.release_on_cancel:
+                    await self._release()
         finally:
-            task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return (
@@ -104,29 +109,25 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._config.renew_deadline,
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._config.renew_deadline,
+                )
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(self._config.retry_period)
 
     async def _release(self):
         if not self.is_leader():
-- 
2.43.0


From 4813037f0842b7914dbb8ee846bba72e7c7b4889 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 32/41] fix: one delivery for a delayed add that is due when
 the queue sees it

---
 aiok8s/workqueue/delaying_queue.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index 37cd163..d3172d2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -101,18 +101,14 @@ class _DelayingType(queue.Type):
             if self._stop_event.is_set():
                 break
             if wait_task in done:
+                # Entries that are due already go through the waiting queue too:
+                # they keep their turn and replace a later entry of the same item.
                 wait_entry = await wait_task
-                if wait_entry.ready_at > self._clock.now():
-                    waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
-                else:
-                    await self.add(wait_entry.data)
+                waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
 
                 while not self._waiting_for_add_queue.empty():
                     wait_entry = self._waiting_for_add_queue.get_nowait()
-                    if wait_entry.ready_at > self._clock.now():
-                        waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
-                    else:
-                        await self.add(wait_entry.data)
+                    waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
 
         if next_ready_at_timer:
             next_ready_at_timer.stop()
-- 
2.43.0


From 343e2acaf13817d26b14273478ad8cee0b9a38aa Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 33/41] fix: a key deleted from a FIFO and added again goes to
 the end of the line

---
 aiok8s/cache/fifo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..5cf1991 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -25,6 +25,9 @@ class RequeueError(Exception):
     pass
 
 
+_DELETED = object()
+
+
 class ProcessError(Exception):
     def __init__(self, item):
         self.item = item
@@ -63,7 +66,10 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            self._items.pop(id_, None)
+            if id_ in self._items:
+                del self._items[id_]
+                # Its place in line must not be taken when it is added again.
+                self._queue[self._queue.index(id_)] = _DELETED
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 5b0a9631e2107cc5d762c59b30c56c68dafb0c78 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 34/41] fix: a FIFO whose first list is replaced is synced when
 the new list is consumed

---
 aiok8s/cache/fifo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 5cf1991..db0d42a 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -96,7 +96,8 @@ class FIFO:
                 raise store.StoreKeyError(item) from e
             items[key] = item
         async with self._lock:
-            if not self._populated:
+            # A list that replaces one not consumed yet takes over its part.
+            if not self._populated or self._initial_population_count:
                 self._populated = True
                 self._initial_population_count = len(items)
 
-- 
2.43.0


From 4f53d68af57aa7f0e560a315f7bc03982d61ee4e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 35/41] fix: a cancelled read of a fake watcher loses no event

---
 aiok8s/watch/watch.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..1cf72ce 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -32,22 +32,35 @@ class FakeWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
         self._mutex = asyncio.Lock()
+        self._receiving = asyncio.Lock()
+        self._received = None
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
-        while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
-            if event in done:
-                self._result.task_done()
-                return await event
-            if self._stopped.is_set():
-                event.cancel()
-                raise StopAsyncIteration
+        async with self._receiving:
+            event = self._received
+            self._received = None
+            if not event:
+                event = asyncio.ensure_future(self._result.get())
+            while True:
+                try:
+                    done, _ = await asyncio.wait(
+                        [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                    )
+                except asyncio.CancelledError:
+                    if not event.cancel():
+                        # Too late to leave the event in the queue: keep it for
+                        # the next call.
+                        self._received = event
+                    raise
+                if event in done:
+                    self._result.task_done()
+                    return await event
+                if self._stopped.is_set():
+                    event.cancel()
+                    raise StopAsyncIteration
 
     async def __aenter__(self):
         return self
-- 
2.43.0


From fb9fe61163c6026a493421f2c4b954f284df8774 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 36/41] fix: a raising handler of a plain informer loses no
 change of the store

An exception of a handler ended the processing of the deltas popped with it: a
deletion merged with the addition the handler failed on was never applied, and
the store kept the object until the next relist.
---
 aiok8s/cache/controller.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..b3845ee 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -13,11 +13,14 @@
 # limitations under the License.
 
 import asyncio
+import logging
 from typing import Any, Awaitable, Callable, NamedTuple, Optional
 
 from aiok8s.cache import delta_fifo, fifo, reflector, store
 from aiok8s.util import clock
 
+logger = logging.getLogger(__name__)
+
 ShouldResyncFunc = Callable[[], bool]
 ProcessFunc = Callable[[Any], Awaitable[None]]
 
@@ -120,6 +123,14 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
         store.meta_namespace_key_func, known_objects=client_state
     )
 
+    async def notify(callback, *args):
+        # What the handler raises must not keep the remaining deltas from being
+        # applied to the store.
+        try:
+            await callback(*args)
+        except Exception:
+            logger.exception("event handler failed")
+
     async def process(obj):
         for d in obj:
             if d.type in (
@@ -130,13 +141,13 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
                 old = client_state.get(d.object)
                 if old is not None:
                     await client_state.update(d.object)
-                    await h.on_update(old, d.object)
+                    await notify(h.on_update, old, d.object)
                 else:
                     await client_state.add(d.object)
-                    await h.on_add(d.object)
+                    await notify(h.on_add, d.object)
             elif d.type == delta_fifo.DeltaType.DELETED:
                 await client_state.delete(d.object)
-                await h.on_delete(d.object)
+                await notify(h.on_delete, d.object)
             else:
                 raise AssertionError
 
-- 
2.43.0


From e7d0e7cd344f84037b869839474db583253be7f5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 37/41] fix: a failed item that is retried is not replaced by a
 waiting resync

With retry_on_error a batch of changes whose processing failed was put back
by a separate call after pop had released the queue. A writer waiting for the
queue came first: a resync then queued the consumer's old state of the object,
and the failed batch, which was newer, was dropped because its key was queued
already. A failed deletion was lost for good that way. Let pop itself requeue
the item while it still holds the lock.
---
 aiok8s/cache/controller.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b3845ee..8a574b8 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -81,12 +81,24 @@ class _Controller:
     async def _process_loop(self):
         while True:
             try:
-                await self._config.queue.pop(self._config.process)
+                await self._config.queue.pop(self._process)
             except fifo.FIFOClosedError:
                 return
-            except fifo.ProcessError as e:
-                if self._config.retry_on_error:
-                    await self._config.queue.add_if_not_present(e.item)
+            except fifo.ProcessError:
+                pass  # Already requeued if it is to be retried
+
+    async def _process(self, item):
+        try:
+            await self._config.process(item)
+        except fifo.RequeueError:
+            raise
+        except Exception as e:
+            if not self._config.retry_on_error:
+                raise
+            # Requeued by the queue before it takes anything else: a change or
+            # resync of the same object waiting to be queued would otherwise
+            # replace the failed item.
+            raise fifo.RequeueError from e
 
 
 class ResourceEventHandlerFuncs(NamedTuple):
-- 
2.43.0


From bda2034a3fafa06017e4a2837a4bf4b144e85d6c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 38/41] fix: a controller that retries failing items lets
 others run

A process function that fails without waiting was handed the same item again
and again without ever yielding to the event loop: nothing else ran, and the
controller could not be cancelled.
---
 aiok8s/cache/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index 8a574b8..3e132c2 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -86,6 +86,8 @@ class _Controller:
                 return
             except fifo.ProcessError:
                 pass  # Already requeued if it is to be retried
+            # A retried item may be popped and fail again without ever yielding
+            await asyncio.sleep(0)
 
     async def _process(self, item):
         try:
-- 
2.43.0


From 7ae3a3611ebc6c091445e2699ae9a7f480b4c07c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:42:29 +0000
Subject: [PATCH 39/41] fix: the delta queue refuses a list with a bad object
 as a whole

replace queued the objects before the first one without a key and then
raised, leaving the queue with part of the list and no deletions; the FIFO
and the store refuse such a list without changing anything.
---
 aiok8s/cache/delta_fifo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index f540854..84b75eb 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -77,6 +77,9 @@ class DeltaFIFO:
 
     async def replace(self, list_, resource_version):
         async with self._cond:
+            list_ = list(list_)
+            for item in list_:
+                self.key_of(item)  # Refuses all of a list or nothing
             keys = set()
             for item in list_:
                 key = self.key_of(item)
-- 
2.43.0


From 36dac3a7ae76475d05af36df738722d5492437d3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:45:19 +0000
Subject: [PATCH 40/41] fix: an object that cannot be indexed is refused
 without changing the store

When an index function raised, the object was in the store already but not
in the indices; every later update or delete of its key raised as well, so
it could never be removed and its successors were never indexed.
---
 aiok8s/cache/thread_safe_store.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 38fb932..75677aa 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -32,14 +32,14 @@ class _ThreadSafeMap:
     async def add(self, key, obj):
         async with self._lock:
             old_object = self._items.get(key)
-            self._items[key] = obj
             self._update_indices(old_object, obj, key)
+            self._items[key] = obj
 
     async def update(self, key, obj):
         async with self._lock:
             old_object = self._items.get(key)
-            self._items[key] = obj
             self._update_indices(old_object, obj, key)
+            self._items[key] = obj
 
     async def delete(self, key, obj):
         async with self._lock:
@@ -62,10 +62,15 @@ class _ThreadSafeMap:
 
     async def replace(self, items, resource_version):
         async with self._lock:
-            self._items = items
+            old_indices = self._indices
             self._indices = _index.Indices()
-            for key, item in self._items.items():
-                self._update_indices(None, item, key)
+            try:
+                for key, item in items.items():
+                    self._update_indices(None, item, key)
+            except Exception:
+                self._indices = old_indices
+                raise
+            self._items = items
 
     async def index(self, index_name, obj):
         async with self._lock:
@@ -121,10 +126,11 @@ class _ThreadSafeMap:
         pass
 
     def _update_indices(self, old_obj, new_obj, key):
+        # Before anything changes: an index function may raise
+        values = {name: f(new_obj) for name, f in self._indexers.items()}
         if old_obj is not None:
             self._delete_from_indices(old_obj, key)
-        for name, index_func in self._indexers.items():
-            index_values = index_func(new_obj)
+        for name, index_values in values.items():
             index = self._indices.setdefault(name, _index.Index())
             for index_value in index_values:
                 set_ = index.setdefault(index_value, set())
-- 
2.43.0


From 5f9e7f0fae617edd0046ab9c8ff0c862f62bae0c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 08:05:05 +0000
Subject: [PATCH 41/41] fix: a fake watcher that starts over forgets the event
 kept for the next read

An event taken by a read that was cancelled was kept across reset(): it was
told after it, and counted against the new queue, which released a sender
whose event nobody had read.
---
 aiok8s/watch/watch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index 1cf72ce..63e0a36 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -80,6 +80,7 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            self._received = None
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From 9d900c9976165b29d51ab818068712835a5037be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 01/55] fix: accept new indexers on a store unless their names
 conflict

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..ff7e774 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From b9b2ff57d726482e0d0a3c37d2bbb81c474f99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 02/55] fix: tolerate index functions that return the same
 value twice

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index ff7e774..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From f94233ee8ee9823f3476cec6f2060f8e937a96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 03/55] fix: read dict objects without namespace, e.g.
 cluster-scoped ones

---
 aiok8s/api/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..ccdb5f4 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,7 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
@@ -135,7 +135,7 @@ class _UnstructuredAccessor:
 
     @property
     def uid(self):
-        return self._metadata["uid"]
+        return self._metadata.get("uid")
 
     @property
     def resource_version(self):
-- 
2.43.0


From 6328598dd03b78c7764234b1cd6bd526d53bbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 04/55] fix: parse the apiVersion of the core group

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index ccdb5f4..db9595f 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,7 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 6342b8130f9d1dfd89a537367eeea0d12f73f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/55] fix: let FIFO.delete ignore absent objects

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 14788f1bcf1704b2f29666da494be8ab3aecc64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 06/55] fix: report DeltaFIFO synced only after the items have
 been processed

---
 aiok8s/cache/delta_fifo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..5eecce6 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -145,21 +145,24 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._initial_item_processed_locked()
                     continue
                 item = self._items.pop(id_)
                 try:
                     await process(item)
                 except fifo.RequeueError as e:
+                    self._initial_item_processed_locked()
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
                         raise fifo.ProcessError(item) from e.__cause__
                 except asyncio.CancelledError:
                     raise
                 except Exception as e:
+                    self._initial_item_processed_locked()
                     raise fifo.ProcessError(item) from e
+                else:
+                    self._initial_item_processed_locked()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -189,6 +192,11 @@ class DeltaFIFO:
     def is_closed(self):
         return self._closed
 
+    def _initial_item_processed_locked(self):
+        # `has_synced` doesn't take the lock, so only count items once processed.
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, deltas):
         self._populated = True
         if id_ in self._items:
-- 
2.43.0


From f8a9245bd006f2ae40022285418bed9a1520693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/55] fix: keep listed objects whose deletion is still
 pending in DeltaFIFO

---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5eecce6..fcfc2d2 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -205,14 +205,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From 671f6c5c6a783473b4ae428b9271e58b42a1340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 08/55] fix: delete unlisted objects that are only pending in
 DeltaFIFO

---
 aiok8s/cache/delta_fifo.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index fcfc2d2..617b991 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,26 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            # Detect deletions of objects that are still in the queue.
+            for k, old_item in list(self._items.items()):
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            # Detect deletions of known objects that aren't in the queue.
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From 6c7a5deb5ab15cde8d638fffbcf6cf47ac73593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 09/55] fix: count objects listed twice once in
 DeltaFIFO.has_synced

---
 aiok8s/cache/delta_fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 617b991..aadd42b 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -125,7 +125,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From 613890f1c51ae40c012cdb556d18458dbcbb67b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 10/55] fix: list again when a watch stream raises instead of
 hanging forever

---
 aiok8s/cache/reflector.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..ae2baf1 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,14 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            except Exception as e:
+                await event_queue.put(e)
+            else:
+                await event_queue.put(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -164,6 +168,8 @@ class Reflector:
                 event = await event_task
                 if event is None:
                     break
+                if isinstance(event, Exception):
+                    raise event
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
                 if self._expected_type is not None and not isinstance(
-- 
2.43.0


From 224d0c80d070722a6cbe43d70c3e8ba5168359dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 11/55] fix: skip watch events whose metadata is empty

---
 aiok8s/cache/reflector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index ae2baf1..16f2bfa 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -192,10 +192,10 @@ class Reflector:
                         continue
                 try:
                     metadata = meta.accessor(event["object"])
+                    new_resource_version = metadata.resource_version
                 except Exception:
                     logger.error("unable to understand watch event %r", event)
                     continue
-                new_resource_version = metadata.resource_version
                 if event["type"] == watch.EventType.ADDED:
                     try:
                         await self._store.add(event["object"])
-- 
2.43.0


From b60c663e611a95a3129b92ec48827781f8d9c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 12/55] fix: notify all handlers of changes discovered by
 relisting

---
 aiok8s/cache/shared_informer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..68d21ff 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,15 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # A relist also queues changed objects as sync; only those that
+                        # haven't changed may be withheld from handlers not resyncing.
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and meta.accessor(d.object).resource_version
+                            == meta.accessor(old).resource_version
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +198,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
-- 
2.43.0


From 0b26f0b04edc9acacb1e207033e8b881f7849ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 13/55] fix: don't let a slow handler hold up the informer and
 other handlers

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 68d21ff..769b981 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -355,7 +355,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 0179445074cd9c2b0e08339c57c4192275ae9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 14/55] fix: stop an informer promptly after a handler has
 raised

---
 aiok8s/cache/shared_informer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 769b981..ca9c2c4 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -401,7 +401,7 @@ class _ProcessListener:
             except asyncio.CancelledError:
                 raise
             except Exception:
-                await asyncio.sleep(60)
+                await asyncio.wait([stop_next_task], timeout=60)
             else:
                 break
 
-- 
2.43.0


From 0efabb69e121856478b7ee4cdbe21fae101e0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 15/55] fix: don't lose a deletion arriving while a failed item
 is put back

---
 aiok8s/cache/controller.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..046a804 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -78,12 +78,23 @@ class _Controller:
     async def _process_loop(self):
         while True:
             try:
-                await self._config.queue.pop(self._config.process)
+                await self._config.queue.pop(self._process)
             except fifo.FIFOClosedError:
                 return
-            except fifo.ProcessError as e:
-                if self._config.retry_on_error:
-                    await self._config.queue.add_if_not_present(e.item)
+            except fifo.ProcessError:
+                pass
+
+    async def _process(self, obj):
+        try:
+            await self._config.process(obj)
+        except fifo.RequeueError:
+            raise
+        except Exception as e:
+            if not self._config.retry_on_error:
+                raise
+            # Have the queue put the item back before it accepts anything else. Otherwise
+            # it could drop the deletion of an object it no longer knows about.
+            raise fifo.RequeueError from e
 
 
 class ResourceEventHandlerFuncs(NamedTuple):
-- 
2.43.0


From 3f28f3f2e545646d0549c10e3a689a2613eae7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 16/55] fix: skip watch events whose object has no apiVersion
 or kind

---
 aiok8s/cache/reflector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 16f2bfa..7d0a956 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -182,7 +182,10 @@ class Reflector:
                     )
                     continue
                 if self._expected_gvk is not None:
-                    gvk = meta.type_accessor(event["object"]).group_version_kind
+                    try:
+                        gvk = meta.type_accessor(event["object"]).group_version_kind
+                    except Exception:
+                        gvk = None
                     if self._expected_gvk != gvk:
                         logger.error(
                             "expected gvk %s, but watch event object had gvk %s",
-- 
2.43.0


From 33af87a56372ec5fbf5aa3b29d6db312c22422bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 17/55] fix: don't resync a handler just because it was added
 during a resync

---
 aiok8s/cache/shared_informer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index ca9c2c4..8078432 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -261,7 +261,10 @@ class _SharedProcessor:
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
+        # A listener added later only takes part in resyncs that are due for it, not in
+        # one that is in progress.
+        if not self._listeners_started:
+            self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From 21fc414b119ac9e7e3531486857ff1686aea71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 18/55] fix: actually shut down delaying work queues

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From f757ee971daff35bca5de43659960a40ada338f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 19/55] fix: cap the delay of items that failed very often
 instead of overflowing

---
 aiok8s/workqueue/default_rate_limiters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..d6d5e1b 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import collections
+import math
 import operator
 import time
 
@@ -67,9 +68,11 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
-        calculated = min(backoff, self._max_delay)
-        return calculated
+        try:
+            backoff = math.ldexp(self._base_delay, exp)
+        except OverflowError:
+            return self._max_delay
+        return min(backoff, self._max_delay)
 
     def forget(self, item):
         del self._failures[item]
-- 
2.43.0


From 5abb1dd769d965bb95926c92f951bbfdc5954521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 20/55] fix: stop the timer of a delaying work queue when it is
 shut down

---
 aiok8s/workqueue/delaying_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..37cd163 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -99,7 +99,7 @@ class _DelayingType(queue.Type):
                 task.cancel()
             await asyncio.gather(*pending, return_exceptions=True)
             if self._stop_event.is_set():
-                return
+                break
             if wait_task in done:
                 wait_entry = await wait_task
                 if wait_entry.ready_at > self._clock.now():
@@ -114,6 +114,9 @@ class _DelayingType(queue.Type):
                     else:
                         await self.add(wait_entry.data)
 
+        if next_ready_at_timer:
+            next_ready_at_timer.stop()
+
 
 class _WaitFor(NamedTuple):
     data: Hashable
-- 
2.43.0


From d6d44ba79cba609db0e03d76290c3672f28c59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 21/55] fix: don't lose the next event when waiting for it is
 cancelled

---
 aiok8s/watch/mux.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..8c9df6f 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import enum
 
 
@@ -156,16 +157,25 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._unclaimed = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        if self._unclaimed:
+            event = self._unclaimed.popleft()
+        else:
+            event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # Leave what arrives, or has just arrived, to the next call.
+                self._unclaimed.append(event)
+                raise
             if event in done:
                 if not self._result.maxsize:
                     self._result.task_done()
-- 
2.43.0


From b3d5b4e8abbdff8506226ba9a8a8b3255b650adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 22/55] fix: don't let a full watcher hold up the stopping of
 other watchers

---
 aiok8s/watch/mux.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 8c9df6f..8f61550 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -120,26 +120,28 @@ class Broadcaster:
         self._distributing.set()
 
     async def _distribute(self, event):
+        # Waiting for one watcher must not keep the others from being stopped.
         async with self._lock:
-            if self._full_channel_behavior is FullChannelBehavior.DROP_IF_CHANNEL_FULL:
-                for w in self._watchers.values():
-                    if w._stopped.is_set():
-                        continue
-                    try:
-                        w._result.put_nowait(event)
-                    except asyncio.QueueFull:
-                        pass
-                return
-            for w in self._watchers.values():
-                _, pending = await asyncio.wait(
-                    [
-                        asyncio.ensure_future(w._put(event)),
-                        asyncio.ensure_future(w._stopped.wait()),
-                    ],
-                    return_when=asyncio.FIRST_COMPLETED,
-                )
-                for task in pending:
-                    task.cancel()
+            watchers = list(self._watchers.values())
+        if self._full_channel_behavior is FullChannelBehavior.DROP_IF_CHANNEL_FULL:
+            for w in watchers:
+                if w._stopped.is_set():
+                    continue
+                try:
+                    w._result.put_nowait(event)
+                except asyncio.QueueFull:
+                    pass
+            return
+        for w in watchers:
+            _, pending = await asyncio.wait(
+                [
+                    asyncio.ensure_future(w._put(event)),
+                    asyncio.ensure_future(w._stopped.wait()),
+                ],
+                return_when=asyncio.FIRST_COMPLETED,
+            )
+            for task in pending:
+                task.cancel()
 
 
 class _FunctionFakeRuntimeObject:
-- 
2.43.0


From 8c26015bf8a5e4699787d4f8d8458a8c14067a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 23/55] fix: don't lose a fake watcher's next event when
 waiting for it is cancelled

---
 aiok8s/watch/watch.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..51c8288 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import logging
 
 logger = logging.getLogger(__name__)
@@ -32,16 +33,25 @@ class FakeWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
         self._mutex = asyncio.Lock()
+        self._unclaimed = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        if self._unclaimed:
+            event = self._unclaimed.popleft()
+        else:
+            event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # Leave what arrives, or has just arrived, to the next call.
+                self._unclaimed.append(event)
+                raise
             if event in done:
                 self._result.task_done()
                 return await event
@@ -67,6 +77,8 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            while self._unclaimed:
+                self._unclaimed.popleft().cancel()
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From 612c524354376cddc4f795743831e0ef420c1f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 24/55] fix: announce deletions of absent objects in
 FakeControllerSource like any other

---
 aiok8s/cache/testing/fake_controller_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/testing/fake_controller_source.py b/aiok8s/cache/testing/fake_controller_source.py
index c7fd11a..73f32ec 100644
--- a/aiok8s/cache/testing/fake_controller_source.py
+++ b/aiok8s/cache/testing/fake_controller_source.py
@@ -58,7 +58,7 @@ class FakeControllerSource:
             if e["type"] in (watch.EventType.ADDED, watch.EventType.MODIFIED):
                 self.items[key] = e["object"]
             elif e["type"] == watch.EventType.DELETED:
-                del self.items[key]
+                self.items.pop(key, None)
             if random.random() < watch_probability:
                 await self.broadcaster.action(e["type"], e["object"])
 
-- 
2.43.0


From 81671555c267caf3a87d386343d8701f2f74b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 25/55] fix: don't retry for ever when a backoff has a negative
 number of steps

---
 aiok8s/util/wait.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..5c0b330 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -104,7 +104,7 @@ class Backoff:
 
 async def exponential_backoff(backoff, condition):
     backoff = Backoff(**backoff.__dict__)
-    while backoff.steps:
+    while backoff.steps > 0:
         if await condition():
             return
         if backoff.steps == 1:
-- 
2.43.0


From 77a9aaf6ea102f38e994aa9e4de7cc8753859f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 26/55] fix: let poll propagate a TimeoutError raised by the
 condition

---
 aiok8s/util/wait.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index 5c0b330..f4adfc5 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -115,10 +115,16 @@ async def exponential_backoff(backoff, condition):
 
 # TODO: test, rewrite?
 async def poll(interval, timeout, condition):
+    # Not wait_for, which can't be told from a condition raising TimeoutError itself.
+    task = asyncio.ensure_future(poll_infinite(interval, condition))
     try:
-        await asyncio.wait_for(poll_infinite(interval, condition), timeout)
-    except asyncio.TimeoutError:
-        raise WaitTimeoutError
+        done, _ = await asyncio.wait([task], timeout=timeout)
+        if not done:
+            raise WaitTimeoutError
+        await task
+    finally:
+        task.cancel()
+        await asyncio.gather(task, return_exceptions=True)
 
 
 # TODO: test, rewrite?
-- 
2.43.0


From 4be72d897644d5f43ec14e6654fcc6b0c0ff76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 27/55] Revert "fix: announce deletions of absent objects in
 FakeControllerSource like any other"

This reverts commit 612c524354376cddc4f795743831e0ef420c1f18.
---
 aiok8s/cache/testing/fake_controller_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/testing/fake_controller_source.py b/aiok8s/cache/testing/fake_controller_source.py
index 73f32ec..c7fd11a 100644
--- a/aiok8s/cache/testing/fake_controller_source.py
+++ b/aiok8s/cache/testing/fake_controller_source.py
@@ -58,7 +58,7 @@ class FakeControllerSource:
             if e["type"] in (watch.EventType.ADDED, watch.EventType.MODIFIED):
                 self.items[key] = e["object"]
             elif e["type"] == watch.EventType.DELETED:
-                self.items.pop(key, None)
+                del self.items[key]
             if random.random() < watch_probability:
                 await self.broadcaster.action(e["type"], e["object"])
 
-- 
2.43.0


From 3a23cae4c4a5a3d8f0d97d18b563b730c16219ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 28/55] fix: reconcile objects whose deletion was noticed by
 relisting

---
 aiok8s/controller/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..4bd04bb 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,8 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From ebb003d7c4db20c290fdd829b806d2939f5603fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 29/55] fix: don't take an object without metadata for an API
 object

---
 aiok8s/api/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index db9595f..560b3e2 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -98,6 +98,8 @@ class _UnstructuredListAccessor:
 
 class _Accessor:
     def __init__(self, obj):
+        if obj.metadata is None:
+            raise _NotObjectError
         self._metadata = obj.metadata
 
     @property
-- 
2.43.0


From 04b366ddefe1df0e7946c790b7b0554d76692b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 30/55] fix: resync caches at 0.9 to 1.1 times the configured
 period

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..d672aab 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -101,7 +101,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From e2f79feedb58552e8e8082c19f09377de463e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 31/55] fix: stop everything when a manager is cancelled while
 starting or a runnable fails

---
 aiok8s/controller/manager.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..042c83e 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,18 +47,20 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
-
-    async def _wait_for_cache(self):
-        if self._started:
-            return
-        task = asyncio.ensure_future(self._cache.start())
-        await self._cache.wait_for_cache_sync()
-        self._started = True
-        return task
+        aws = []
+        try:
+            async with self._mutex:
+                if not self._started:
+                    aws.append(asyncio.ensure_future(self._cache.start()))
+                    await self._cache.wait_for_cache_sync()
+                    self._started = True
+                aws.extend(
+                    asyncio.ensure_future(controller.start())
+                    for controller in self._non_leader_election_runnables
+                )
+            await asyncio.gather(*aws)
+        finally:
+            # Whether cancelled or one of them failed, stop all the others.
+            for aw in aws:
+                aw.cancel()
+            await asyncio.gather(*aws, return_exceptions=True)
-- 
2.43.0


From 2c1d2dfe15944b5ef40c9160d362577395d50c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 32/55] fix: run informers that are first asked for after the
 cache was started

---
 aiok8s/controller/_informers_map.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index d672aab..7030221 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,26 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._to_run = asyncio.Queue()
 
     async def start(self):
         async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
             self._started = True
-        await asyncio.gather(*aws)
+        next_ = asyncio.ensure_future(self._to_run.get())
+        aws = {next_}
+        try:
+            while True:
+                await asyncio.wait(aws, return_when=asyncio.FIRST_COMPLETED)
+                for aw in [aw for aw in aws if aw.done()]:
+                    aws.remove(aw)
+                    informer = await aw
+                    if aw is next_:
+                        next_ = asyncio.ensure_future(self._to_run.get())
+                        aws |= {next_, asyncio.ensure_future(informer.run())}
+        finally:
+            for aw in aws:
+                aw.cancel()
+            await asyncio.gather(*aws, return_exceptions=True)
 
     def has_synced_funcs(self):
         return [
@@ -81,6 +92,7 @@ class _SpecificInformersMap:
             new_informer, _cache_reader.CacheReader(new_informer.get_indexer(), gvk)
         )
         self._informers_by_gvk[gvk] = informer
+        self._to_run.put_nowait(new_informer)
         return informer
 
 
-- 
2.43.0


From 2fcf1d42287e5aa7c44fa69980b0e14d8873454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 33/55] fix: close the API clients made for every list and
 watch

---
 aiok8s/controller/_informers_map.py | 28 +++++++++++++++++++++++-----
 aiok8s/controller/client.py         |  6 ++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index 7030221..d8bacdc 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -98,20 +98,38 @@ class _SpecificInformersMap:
 
 def _create_structured_list_watch(gvk, ip):
     async def list_func(options):
-        client = _client.rest_client_for_gvk(gvk)
-        lister = client._get_lister(ip._namespace)
-        kwargs = _get_kwargs(ip, options)
-        return await lister(**kwargs)
+        async with _client.rest_client_for_gvk(gvk) as client:
+            lister = client._get_lister(ip._namespace)
+            kwargs = _get_kwargs(ip, options)
+            return await lister(**kwargs)
 
     async def watch_func(options):
         client = _client.rest_client_for_gvk(gvk)
         watcher = client._get_watcher(ip._namespace)
         kwargs = _get_kwargs(ip, options)
-        return watcher(**kwargs)
+        return _ClientWatch(client, watcher(**kwargs))
 
     return list_watch.ListWatch(list_func, watch_func)
 
 
+class _ClientWatch:
+    """A watch that closes its client when it ends."""
+
+    def __init__(self, client, watch):
+        self._client = client
+        self._watch = watch
+
+    def __aiter__(self):
+        return self._watch.__aiter__()
+
+    async def __aenter__(self):
+        return self
+
+    async def __aexit__(self, *exc_info):
+        async with self._client:
+            await self._watch.close()
+
+
 def _resync_period(resync):
     return lambda: resync * (random.random() / 5 + 0.9)
 
diff --git a/aiok8s/controller/client.py b/aiok8s/controller/client.py
index ca0e47e..7fe01b3 100644
--- a/aiok8s/controller/client.py
+++ b/aiok8s/controller/client.py
@@ -37,6 +37,12 @@ class _Client:
     def __init__(self, api_client=None):
         self._api_client = self.api_cls(api_client)
 
+    async def __aenter__(self):
+        return self
+
+    async def __aexit__(self, *exc_info):
+        await self._api_client.api_client.close()
+
     def _get_watcher(self, namespace):
         lister = self._get_lister(namespace)
         return functools.partial(watch.Watch().stream, lister)
-- 
2.43.0


From 73b38054f5953472790ef86e4ff609e1765fad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 34/55] fix: don't take a dict with null metadata for an API
 object

---
 aiok8s/api/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 560b3e2..2d3913f 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -125,6 +125,8 @@ class _Accessor:
 
 class _UnstructuredAccessor:
     def __init__(self, obj):
+        if obj["metadata"] is None:
+            raise _NotObjectError
         self._metadata = obj["metadata"]
 
     @property
-- 
2.43.0


From 9304578e1871d1e85ee48c8d01bde00fe3ebd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 35/55] fix: cancel the runnables of a manager only once

---
 aiok8s/controller/manager.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 042c83e..81eb5d9 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -58,7 +58,13 @@ class _ControllerManager:
                     asyncio.ensure_future(controller.start())
                     for controller in self._non_leader_election_runnables
                 )
-            await asyncio.gather(*aws)
+            pending = aws
+            while pending:
+                done, pending = await asyncio.wait(
+                    pending, return_when=asyncio.FIRST_COMPLETED
+                )
+                for aw in done:
+                    aw.result()
         finally:
             # Whether cancelled or one of them failed, stop all the others.
             for aw in aws:
-- 
2.43.0


From 099933f9b28b4f37c4f3f5c50e04f2294bfc04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 36/55] fix: wait for all reconciles to end when a controller
 is stopped

---
 aiok8s/controller/controller.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..f0bdab3 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -75,7 +75,18 @@ class _Controller:
                     for _ in range(self.max_concurrent_reconciles)
                 ]
 
-            await asyncio.gather(*aws)
+            try:
+                pending = aws
+                while pending:
+                    done, pending = await asyncio.wait(
+                        pending, return_when=asyncio.FIRST_COMPLETED
+                    )
+                    for aw in done:
+                        aw.result()
+            finally:
+                for aw in aws:
+                    aw.cancel()
+                await asyncio.gather(*aws, return_exceptions=True)
         finally:
             await self.queue.shut_down()
 
-- 
2.43.0


From c925052b68488e027131566510ea7f43b2125777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 37/55] fix: let leader electors start with nothing observed
 and read observed records

---
 aiok8s/leaderelection/leaderelection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..4f87821 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = None
 
     async def run(self):
         try:
@@ -74,7 +78,9 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return (
+            self._observed_record.get("holderIdentity") == self._config.lock.identity()
+        )
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +213,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        leader = self._observed_record.get("holderIdentity")
+        if leader == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = leader
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From ca3d11436ec50fb551e058e109eb84381196c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 38/55] fix: let leaders renew and replace records without a
 transition count, as initially created

---
 aiok8s/leaderelection/leaderelection.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 4f87821..b6ad288 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -129,7 +129,7 @@ class LeaderElector:
         if not self.is_leader():
             return True
         leader_election_record = {
-            "leaderTransitions": self._observed_record["leaderTransitions"]
+            "leaderTransitions": self._observed_record.get("leaderTransitions", 0)
         }
         try:
             await self._config.lock.update(leader_election_record)
@@ -188,17 +188,14 @@ class LeaderElector:
             )
             return False
 
+        transitions = old_leader_election_record.get("leaderTransitions", 0)
         if self.is_leader():
-            leader_election_record["acquireTime"] = old_leader_election_record[
-                "acquireTime"
-            ]
-            leader_election_record["leaderTransitions"] = old_leader_election_record[
-                "leaderTransitions"
-            ]
-        else:
-            leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+            leader_election_record["acquireTime"] = old_leader_election_record.get(
+                "acquireTime", now
             )
+            leader_election_record["leaderTransitions"] = transitions
+        else:
+            leader_election_record["leaderTransitions"] = transitions + 1
 
         try:
             await self._config.lock.update(leader_election_record)
-- 
2.43.0


From d61c7e5cc47d036fa49a82f32abb9840bb7c9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 39/55] fix: let a leader elector be cancelled before it has
 become leader

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index b6ad288..7b22e9d 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,18 @@ class LeaderElector:
         self._reported_leader = None
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return (
-- 
2.43.0


From 54c750c430df636042c32f67e185cffc48b48bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 40/55] fix: stop leading when the lease could not be renewed
 by the renew deadline

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 7b22e9d..ac2d30a 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -111,8 +111,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0


From 40578f13da22f8ea29405b93febcd28d6a29cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 41/55] fix: release a lease only after the work under it has
 stopped

---
 aiok8s/leaderelection/leaderelection.py | 44 ++++++++++++-------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index ac2d30a..3286a29 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -79,6 +79,8 @@ class LeaderElector:
             await self._config.callbacks.on_stopped_leading()
             if task:
                 await asyncio.gather(task, return_exceptions=True)
+            if self._config.release_on_cancel:
+                await self._release()
 
     def is_leader(self):
         return (
@@ -107,29 +109,25 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._config.renew_deadline,
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._config.renew_deadline,
+                )
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(self._config.retry_period)
 
     async def _release(self):
         if not self.is_leader():
-- 
2.43.0


From 8cb20c4c4acaf0d1355ee3929136afe7a01e21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 42/55] fix: import the API client of config map locks from
 where it is

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From 51a294d3037dba83a6f52202c6e75df74cc42649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 43/55] fix: read an absent config map as no record, so that it
 is created

---
 aiok8s/leaderelection/resourcelock.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..6c72dbd 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, models, rest
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,9 +40,15 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except rest.ApiException as e:
+            if e.status != 404:
+                raise
+            self._cm = None
+            return None, None
         raw_record = (
             self._cm.metadata.annotations
             and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-- 
2.43.0


From 1b15824dfdb424548bd946b0ea9fa6521e9635ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 44/55] fix: let a config map without a record be taken as lock

---
 aiok8s/leaderelection/resourcelock.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6c72dbd..e52be89 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -49,11 +49,9 @@ class ConfigMapLock:
                 raise
             self._cm = None
             return None, None
-        raw_record = (
-            self._cm.metadata.annotations
-            and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-        )
-        record = raw_record and json.loads(raw_record)
+        annotations = self._cm.metadata.annotations or {}
+        raw_record = annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -73,6 +71,8 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
         self._cm.metadata.annotations[
             LEADER_ELECTION_RECORD_ANNOTATION_KEY
         ] = raw_record
-- 
2.43.0


From 3f1e0cdde1dc7132aba2a57f329f0e1abfdec73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 45/55] fix: don't add a watcher to a broadcaster for a call
 that was given up

---
 aiok8s/watch/mux.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 8f61550..935414a 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -49,6 +49,7 @@ class Broadcaster:
                     asyncio.Queue(maxsize=self._watch_queue_length), id_, self
                 )
                 self._watchers[id_] = w
+                return w
 
         await self._block_queue(f)
         return w
@@ -67,6 +68,7 @@ class Broadcaster:
                 self._watchers[id_] = w
                 for e in queued_events:
                     await w._put(e)
+                return w
 
         await self._block_queue(f)
         return w
@@ -80,10 +82,16 @@ class Broadcaster:
 
     async def _block_queue(self, f):
         event = asyncio.Event()
+        watcher = None
+        abandoned = False
 
         async def func():
+            nonlocal watcher
             try:
-                await f()
+                if not abandoned:
+                    watcher = await f()
+                    if abandoned:
+                        await watcher.stop()
             finally:
                 event.set()
 
@@ -93,7 +101,14 @@ class Broadcaster:
                 "object": _FunctionFakeRuntimeObject(func),
             }
         )
-        await event.wait()
+        try:
+            await event.wait()
+        except asyncio.CancelledError:
+            # Nobody is going to consume or stop the watcher.
+            abandoned = True
+            if watcher:
+                await watcher.stop()
+            raise
 
     async def _stop_watching(self, id_):
         async with self._lock:
-- 
2.43.0


From 91b184607eab5df9b3de8c851719eef41ce166af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 46/55] fix: pass on the wake-up of a work queue's get that was
 given up

---
 aiok8s/workqueue/queue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..0edf262 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,13 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # Leave the item this call may have been woken for to another.
+                    if self._queue:
+                        self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From 49580eca56f54de0f6b43e66335ef77dd34b07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 47/55] fix: leave no task behind when a watcher's stream ends
 or is waited for in vain

---
 aiok8s/watch/mux.py   | 6 +++++-
 aiok8s/watch/watch.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 935414a..6946534 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -191,13 +191,17 @@ class _BroadcasterWatcher:
                 )
             except asyncio.CancelledError:
                 # Leave what arrives, or has just arrived, to the next call.
-                self._unclaimed.append(event)
+                if event.done():
+                    self._unclaimed.append(event)
+                else:
+                    event.cancel()
                 raise
             if event in done:
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
             if self._stopped.is_set():
+                event.cancel()
                 raise StopAsyncIteration
 
     async def __aenter__(self):
diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index 51c8288..710dca5 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -50,7 +50,10 @@ class FakeWatcher:
                 )
             except asyncio.CancelledError:
                 # Leave what arrives, or has just arrived, to the next call.
-                self._unclaimed.append(event)
+                if event.done():
+                    self._unclaimed.append(event)
+                else:
+                    event.cancel()
                 raise
             if event in done:
                 self._result.task_done()
-- 
2.43.0


From e68b930645c6727ce1e4a356dbcf74dd7515ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 48/55] fix: leave no timer or task behind when a periodic loop
 ends

---
 aiok8s/util/wait.py | 70 +++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index f4adfc5..8f805a0 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -27,19 +27,24 @@ async def loop(f, period):
 
 # `JitterUntil` from `client-go` without taking a stop argument
 async def jitter_loop(f, period, jitter_factor, sliding):
-    while True:
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        await t.c.get()
+    t = None
+    try:
+        while True:
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            await t.c.get()
+    finally:
+        if t:
+            t.stop()
 
 
 async def until(f, period, stop_event):
@@ -47,22 +52,31 @@ async def until(f, period, stop_event):
 
 
 async def jitter_until(f, period, jitter_factor, sliding, stop_event):
+    t = timer_task = None
     stop_task = asyncio.ensure_future(stop_event.wait())
-    while not stop_event.is_set():
-        if jitter_factor > 0:
-            jittered_period = jitter(period, jitter_factor)
-        else:
-            jittered_period = period
-        if not sliding:
-            # TODO: Reuse
-            t = _time.Timer(jittered_period)
-        await f()
-        if sliding:
-            t = _time.Timer(jittered_period)
-
-        timer_task = asyncio.ensure_future(t.c.get())
-        await asyncio.wait([timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED)
-        timer_task.cancel()
+    try:
+        while not stop_event.is_set():
+            if jitter_factor > 0:
+                jittered_period = jitter(period, jitter_factor)
+            else:
+                jittered_period = period
+            if not sliding:
+                # TODO: Reuse
+                t = _time.Timer(jittered_period)
+            await f()
+            if sliding:
+                t = _time.Timer(jittered_period)
+
+            timer_task = asyncio.ensure_future(t.c.get())
+            await asyncio.wait(
+                [timer_task, stop_task], return_when=asyncio.FIRST_COMPLETED
+            )
+    finally:
+        stop_task.cancel()
+        if t:
+            t.stop()
+        if timer_task:
+            timer_task.cancel()
 
 
 def jitter(duration, max_factor):
-- 
2.43.0


From fd56487d234ab4453c70bf492a646f4e58088605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:45 +0000
Subject: [PATCH 49/55] fix: keep trying for a lock whose record cannot be
 understood

---
 aiok8s/leaderelection/leaderelection.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 3286a29..a32d7ac 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -94,7 +94,7 @@ class LeaderElector:
 
         async def f():
             nonlocal task, succeeded
-            succeeded = await self._try_acquire_or_renew()
+            succeeded = await self._attempt()
             self._maybe_report_transition()
             if not succeeded:
                 logger.debug("failed to acquire lease %s", description)
@@ -114,7 +114,7 @@ class LeaderElector:
             try:
                 await asyncio.wait_for(
                     wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                        self._config.retry_period, self._attempt
                     ),
                     self._config.renew_deadline,
                 )
@@ -145,6 +145,18 @@ class LeaderElector:
         self._observed_record = leader_election_record
         self._observed_time = self._clock.now()
 
+    async def _attempt(self):
+        try:
+            return await self._try_acquire_or_renew()
+        except asyncio.CancelledError:
+            raise
+        except Exception as e:
+            # Such as a record that makes no sense; like other errors, it may pass.
+            logger.error(
+                "failed to use the record of %s: %r", self._config.lock.describe(), e
+            )
+            return False
+
     async def _try_acquire_or_renew(self):
         now = time.time()
         leader_election_record = {
-- 
2.43.0


From 4b8745563d04ea048082bf11413ed9bff355e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 50/55] fix: leave no task behind when an add_after is given up

---
 aiok8s/workqueue/delaying_queue.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index 37cd163..e2145b9 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -41,20 +41,20 @@ class _DelayingType(queue.Type):
             await self.add(item)
             return
 
-        _, pending = await asyncio.wait(
-            [
-                asyncio.ensure_future(self._stop_event.wait()),
-                asyncio.ensure_future(
-                    self._waiting_for_add_queue.put(
-                        _WaitFor(data=item, ready_at=self._clock.now() + duration)
-                    )
-                ),
-            ],
-            return_when=asyncio.FIRST_COMPLETED,
-        )
-        for task in pending:
-            task.cancel()
-            await asyncio.gather(task, return_exceptions=True)
+        tasks = [
+            asyncio.ensure_future(self._stop_event.wait()),
+            asyncio.ensure_future(
+                self._waiting_for_add_queue.put(
+                    _WaitFor(data=item, ready_at=self._clock.now() + duration)
+                )
+            ),
+        ]
+        try:
+            await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+        finally:
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def shut_down(self):
         if not self._stop_event.is_set():
-- 
2.43.0


From e259a192fe4e2e0f0a240bc5a36444ae77fbc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 51/55] fix: report a FIFO synced exactly once its initial
 items, replaced or not, are popped

---
 aiok8s/cache/fifo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..76e7809 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -93,6 +93,9 @@ class FIFO:
             if not self._populated:
                 self._populated = True
                 self._initial_population_count = len(items)
+            elif self._initial_population_count:
+                # These take the place of the initial items that weren't popped.
+                self._initial_population_count = len(items)
 
             self._items = items
             self._queue = list(items)
-- 
2.43.0


From b92e5f8026d69cf29b64dfa43e540ba0a68842d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:31 +0000
Subject: [PATCH 52/55] fix: a failing handler of a basic informer keeps no
 changes from its store

The deltas queued for an object behind one whose handler raised were dropped,
so that the store lacked them until the object changed again.
---
 aiok8s/cache/controller.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index 046a804..543cd6f 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -13,11 +13,14 @@
 # limitations under the License.
 
 import asyncio
+import logging
 from typing import Any, Awaitable, Callable, NamedTuple, Optional
 
 from aiok8s.cache import delta_fifo, fifo, reflector, store
 from aiok8s.util import clock
 
+logger = logging.getLogger(__name__)
+
 ShouldResyncFunc = Callable[[], bool]
 ProcessFunc = Callable[[Any], Awaitable[None]]
 
@@ -131,6 +134,15 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
         store.meta_namespace_key_func, known_objects=client_state
     )
 
+    async def notify(callback, *args):
+        # A failing handler must not keep the deltas that follow from the store.
+        try:
+            await callback(*args)
+        except asyncio.CancelledError:
+            raise
+        except Exception:
+            logger.exception("event handler failed")
+
     async def process(obj):
         for d in obj:
             if d.type in (
@@ -141,13 +153,13 @@ def _new_informer(lw, obj_type, resync_period, h, client_state):
                 old = client_state.get(d.object)
                 if old is not None:
                     await client_state.update(d.object)
-                    await h.on_update(old, d.object)
+                    await notify(h.on_update, old, d.object)
                 else:
                     await client_state.add(d.object)
-                    await h.on_add(d.object)
+                    await notify(h.on_add, d.object)
             elif d.type == delta_fifo.DeltaType.DELETED:
                 await client_state.delete(d.object)
-                await h.on_delete(d.object)
+                await notify(h.on_delete, d.object)
             else:
                 raise AssertionError
 
-- 
2.43.0


From dd80d4352517676f1a3e71d5417446caff1e682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:44 +0000
Subject: [PATCH 53/55] fix: a failing index function keeps nothing from being
 stored, indexed or deleted

An object for which one index function failed was stored but missing from the
later indexes, could not be updated or deleted any more, and the changes queued
behind it in an informer were dropped.
---
 aiok8s/cache/thread_safe_store.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 38fb932..265062d 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -14,10 +14,14 @@
 
 # TODO: This isn't actually thread-safe
 import asyncio
+import logging
 
 from aiok8s.cache import index as _index
 
 
+logger = logging.getLogger(__name__)
+
+
 def new_thread_safe_store(indexers, indices):
     return _ThreadSafeMap(indexers, indices)
 
@@ -124,7 +128,7 @@ class _ThreadSafeMap:
         if old_obj is not None:
             self._delete_from_indices(old_obj, key)
         for name, index_func in self._indexers.items():
-            index_values = index_func(new_obj)
+            index_values = _index_values(index_func, new_obj, name, key)
             index = self._indices.setdefault(name, _index.Index())
             for index_value in index_values:
                 set_ = index.setdefault(index_value, set())
@@ -132,7 +136,7 @@ class _ThreadSafeMap:
 
     def _delete_from_indices(self, obj, key):
         for name, index_func in self._indexers.items():
-            index_values = index_func(obj)
+            index_values = _index_values(index_func, obj, name, key)
             index = self._indices.get(name)
             if index is None:
                 continue
@@ -142,3 +146,12 @@ class _ThreadSafeMap:
                     set_.discard(key)
                     if not set_:
                         del index[index_value]
+
+
+def _index_values(index_func, obj, name, key):
+    # An object that can't be indexed must not be kept from being stored or deleted.
+    try:
+        return index_func(obj)
+    except Exception:
+        logger.exception("unable to calculate entry of key %r in index %r", key, name)
+        return []
-- 
2.43.0


From c8b09bbce3f15695023b0a6e9ab52cf9fb7d74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:59 +0000
Subject: [PATCH 54/55] fix: an elector whose on_stopped_leading fails still
 awaits its work and releases

It ended at once, its work still running, and kept the lock although it was to
release it.
---
 aiok8s/leaderelection/leaderelection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index a32d7ac..8e9f3a2 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -76,11 +76,13 @@ class LeaderElector:
         finally:
             if task:
                 task.cancel()
-            await self._config.callbacks.on_stopped_leading()
-            if task:
-                await asyncio.gather(task, return_exceptions=True)
-            if self._config.release_on_cancel:
-                await self._release()
+            try:
+                await self._config.callbacks.on_stopped_leading()
+            finally:
+                if task:
+                    await asyncio.gather(task, return_exceptions=True)
+                if self._config.release_on_cancel:
+                    await self._release()
 
     def is_leader(self):
         return (
-- 
2.43.0


From 46bdc4669b31cd39d18e927a442380818b2e9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:34 +0000
Subject: [PATCH 55/55] fix: a resync predicate that fails is like a failing
 resync

The reflector stopped resyncing, silently, until its watch ended.
---
 aiok8s/cache/reflector.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 7d0a956..f4bd4cc 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -68,15 +68,15 @@ class Reflector:
             try:
                 while True:
                     await resync_queue.get()
-                    if self.should_resync is None or self.should_resync():
-                        logger.debug("forcing resync")
-                        try:
+                    try:
+                        if self.should_resync is None or self.should_resync():
+                            logger.debug("forcing resync")
                             await self._store.resync()
-                        except asyncio.CancelledError:
-                            raise
-                        except Exception as e:
-                            await resync_error_queue.put(e)
-                            return
+                    except asyncio.CancelledError:
+                        raise
+                    except Exception as e:
+                        await resync_error_queue.put(e)
+                        return
                     cleanup()
                     resync_queue, cleanup = self._resync_queue()
             finally:
-- 
2.43.0


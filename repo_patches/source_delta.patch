From 2fd999b5dc886dc2b83e6170449c5f39bddf7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 01/23] fix: lmdb backend tracks last event id of events kept
 by no storage

---
 src_py/hat/event/backends/lmdb/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..925af54 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -175,12 +175,13 @@ class LmdbBackend(common.Backend):
 
             refs.extend(self._dbs.timeseries.add(event))
 
+            self._dbs.system.set_last_event_id(event.id)
+            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
+
             if not refs:
                 continue
 
             self._dbs.ref.add(event, refs)
-            self._dbs.system.set_last_event_id(event.id)
-            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
 
         self._registered_queue.append(events)
         self._registered_count += len(events)
-- 
2.43.0


From ad12a20969f6ad55ab3068be1a1cc40dc3b13a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 02/23] fix: lmdb backend timeseries query merges pending and
 stored events in order

---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 119 ++++++------------
 1 file changed, 37 insertions(+), 82 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..3adb372 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,7 @@
 from collections.abc import Iterable
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -149,9 +150,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +158,12 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
-
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+        changes = _query_partition_changes(self._changes[partition_id],
+                                           params)
 
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, params, changes, filter)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -227,7 +211,7 @@ def _ext_init_partitions(env, txn, partitions):
 
 
 def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+                                changes, filter):
     if params.order_by == common.OrderBy.TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.t_from, params.t_to, params.order)
@@ -241,6 +225,9 @@ def _ext_query_partition_events(env, conditions, partition_id, params,
         raise ValueError('unsupported order by')
 
     events = (event for event in events if conditions.matches(event))
+    events = heapq.merge(events, changes,
+                         key=_get_sort_key(params.order_by),
+                         reverse=params.order == common.Order.DESCENDING)
     events = filter.process(events)
     return collections.deque(events)
 
@@ -393,65 +380,37 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
-    if params.order == common.Order.DESCENDING:
-        events = (event for _, event in reversed(changes))
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.t_to < i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.source_t_to < i.source_timestamp,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.t_from <= i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.source_t_from <= i.source_timestamp,
-                events)
-
-    elif params.order == common.Order.ASCENDING:
-        events = (event for _, event in changes)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.timestamp < params.t_from,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.source_timestamp < params.source_t_from,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.timestamp <= params.t_to,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.source_timestamp <= params.source_t_to,
-                events)
+def _query_partition_changes(changes, params):
+    # changes are in order of registration which can differ from order of
+    # timestamps (events of multiple servers or source timestamps)
+
+    if params.order_by == common.OrderBy.TIMESTAMP:
+        t_from, t_to = params.t_from, params.t_to
+
+    elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
+        t_from, t_to = params.source_t_from, params.source_t_to
 
     else:
+        raise ValueError('unsupported order by')
+
+    if params.order not in (common.Order.DESCENDING, common.Order.ASCENDING):
         raise ValueError('unsupported order')
 
-    return filter.process(events)
+    return sorted((event for timestamp, event in changes
+                   if (t_from is None or t_from <= timestamp) and
+                   (t_to is None or timestamp <= t_to)),
+                  key=_get_sort_key(params.order_by),
+                  reverse=params.order == common.Order.DESCENDING)
+
+
+def _get_sort_key(order_by):
+    if order_by == common.OrderBy.TIMESTAMP:
+        return lambda event: (event.timestamp, event.id)
+
+    if order_by == common.OrderBy.SOURCE_TIMESTAMP:
+        return lambda event: (event.source_timestamp, event.id)
+
+    raise ValueError('unsupported order by')
 
 
 class _Filter:
@@ -472,10 +431,6 @@ class _Filter:
         self._max_results = max_results
         self._last_event_id = last_event_id
 
-    @property
-    def done(self):
-        return self._max_results < 1
-
     def process(self, events: Iterable[common.Event]):
         for event in events:
             if self._max_results < 1:
-- 
2.43.0


From 2c2278ba447decd4269e1f2ef85e2d4e6ddcc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 03/23] fix: lmdb backend server query checks dereferenced
 events

---
 src_py/hat/event/backends/lmdb/backend.py |  2 +-
 src_py/hat/event/backends/lmdb/refdb.py   | 26 ++++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index 925af54..aeafb20 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -115,7 +115,7 @@ def _ext_create_dbs(env, identifier, conditions, latest_subscription,
         timeseries_db = timeseriesdb.ext_create(
             env, txn, conditions, timeseries_partitions,
             timeseries_max_results, timeseries_event_type_cache_size)
-        ref_db = refdb.RefDb(env)
+        ref_db = refdb.RefDb(env, conditions=conditions)
 
     return Databases(system=system_db,
                      latest=latest_db,
diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..dc6389f 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -8,6 +8,7 @@ from hat import util
 
 from hat.event.backends.lmdb import common
 from hat.event.backends.lmdb import environment
+from hat.event.backends.lmdb.conditions import Conditions
 
 
 # depending on dict order for added refs
@@ -26,9 +27,11 @@ class RefDb:
 
     def __init__(self,
                  env: environment.Environment,
-                 max_results: int = 4096):
+                 max_results: int = 4096,
+                 conditions: Conditions | None = None):
         self._env = env
         self._max_results = max_results
+        self._conditions = conditions
         self._last_event_ids = {}
         self._changes = collections.defaultdict(_create_server_changes)
 
@@ -76,7 +79,8 @@ class RefDb:
         changes = self._changes
         events = await self._env.execute(_ext_query_events, self._env,
                                          params.server_id, max_results + 1,
-                                         params.last_event_id)
+                                         params.last_event_id,
+                                         self._conditions)
 
         if not params.persisted and len(events) <= max_results:
             last_event_id = events[-1].id if events else params.last_event_id
@@ -169,7 +173,8 @@ def _query_changes(changes, server_id, max_results, last_event_id):
     return itertools.islice(events, max_results)
 
 
-def _ext_query_events(env, server_id, max_results, last_event_id):
+def _ext_query_events(env, server_id, max_results, last_event_id,
+                      conditions):
     db_def = common.db_defs[common.DbType.REF]
 
     start_key = (last_event_id if last_event_id
@@ -194,14 +199,15 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
-                value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
+                event_id = db_def.decode_key(cursor.key())
+                refs = db_def.decode_value(cursor.value())
+
+                # latest reference can be associated with newer event
+                event = util.first(
+                    (_ext_get_event(env, txn, ref) for ref in refs),
+                    lambda i: i is not None and i.id == event_id)
 
-                event = _ext_get_event(env, txn, ref)
-                if event:
-                    # TODO decode key and check event_id == event.id
+                if event and (not conditions or conditions.matches(event)):
                     events.append(event)
 
                 available = cursor.next()
-- 
2.43.0


From 1726a1792afdbee2272d3fffd40c47735d9d7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 04/23] fix: lmdb backend creates databases in single
 transaction

Interruption of first initialization left file with some of databases
missing, which could not be opened any more.
---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 16 ++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..eff866e 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), txn=txn, create=create)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..908d0e7 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,15 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # all databases are created in single transaction so that interrupted
+        # initialization doesn't leave partially created databases
+        create = not self._env.stat()['entries']
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From 1849163cb7c86d3e5d3b83de064eb2a1f27700a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 05/23] fix: lmdb backend doesn't write changes after failed
 flush

Final flush after failed one persisted (and notified) later events while
earlier registered events, taken by failed flush, were lost.
---
 src_py/hat/event/backends/lmdb/backend.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index aeafb20..bb37ad9 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -59,6 +59,7 @@ async def create(conf: json.Data,
     backend._flush_queue = aio.Queue(flush_queue_size)
     backend._registered_count = 0
     backend._registered_queue = collections.deque()
+    backend._flush_failed = False
     backend._async_group = aio.Group()
 
     backend._env = await environment.create(Path(conf['db_path']))
@@ -290,7 +291,9 @@ class LmdbBackend(common.Backend):
             self.close()
 
     async def _flush(self):
-        if not self._env.is_open:
+        # changes taken by failed flush are lost - writing only later changes
+        # would leave gap in persisted events
+        if not self._env.is_open or self._flush_failed:
             return
 
         self._registered_count = 0
@@ -306,7 +309,12 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except BaseException:
+            self._flush_failed = True
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From ecf988a86344af8a4fe28983a913d90487ccbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 06/23] fix: memory backend queries

Attributes of event identifier were wrong, timeseries query raised error
because of sort key, events without source timestamp could not be compared
and server query repeated last event.
---
 src_py/hat/event/backends/memory.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..1cc0cb2 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -89,9 +89,10 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event.id)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = _filter_source_timestamp(events)
+            sort_key = lambda event: (event.source_timestamp, event.id)  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -122,11 +123,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -160,19 +159,25 @@ def _filter_t_to(events, t_to):
             yield event
 
 
-def _filter_source_t_from(events, source_t_from):
+def _filter_source_timestamp(events):
     for event in events:
+        if event.source_timestamp is not None:
+            yield event
+
+
+def _filter_source_t_from(events, source_t_from):
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp >= source_t_from:
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
-    for event in events:
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp <= source_t_to:
             yield event
 
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From a928e46654d2c8042b0af1c480d6dc2cf53ec15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 07/23] fix: event type collection adds all query types of
 subscription

Adding was stopped at first query type already associated with value.
---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From a861f326bb981671870981d8a98b12f916e09f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 08/23] fix: timestamp from datetime before 1970

Whole negative seconds were decremented and fractions close to whole second
were rounded to next second.
---
 src_py/hat/event/common/encoder.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..07d38fe 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,10 +107,7 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
-
-    if dt.timestamp() < 0:
-        s = s - 1
+    s = int(dt.replace(microsecond=0).timestamp())
 
     return Timestamp(s=s, us=dt.microsecond)
 
-- 
2.43.0


From a5479afb8fa84b1239e2d7e41c38da09e8e2570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 09/23] fix: subscription intersection

Event type matched by trailing '*' with zero subtypes was lost from
intersection. Empty intersections left nodes without query types, which
isdisjoint reported as overlapping.
---
 src_py/hat/event/common/subscription/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..d389507 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -80,7 +80,8 @@ def union(first: Node, second: Node) -> Node:
 
 
 def intersection(first: Node, second: Node) -> Node:
-    is_leaf = first.is_leaf and second.is_leaf
+    is_leaf = ((first.is_leaf or '*' in first.children) and
+               (second.is_leaf or '*' in second.children))
 
     if '*' in first.children:
         children = second.children
@@ -112,6 +113,10 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if (not result_children.is_leaf and
+                        not result_children.children):
+                    continue
+
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From a481af77e4a7f37f8ea8ed87b932ce6e11f62dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:35 +0000
Subject: [PATCH 10/23] fix: engine ends pending registrations when creation
 fails

---
 src_py/hat/event/server/engine.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..2dc66f0 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -60,6 +60,7 @@ async def create_engine(backend: common.Backend,
         engine.async_group.spawn(engine._register_loop)
 
     except BaseException:
+        engine._close_register_queue()
         await aio.uncancellable(engine.async_close())
         raise
 
@@ -138,14 +139,11 @@ class Engine(common.Engine):
         finally:
             mlog.debug("register loop closed")
             self.close()
-            self._register_queue.close()
 
-            while True:
-                if future and not future.done():
-                    future.set_exception(Exception('engine closed'))
-                if self._register_queue.empty():
-                    break
-                future, _, __ = self._register_queue.get_nowait()
+            if future and not future.done():
+                future.set_exception(Exception('engine closed'))
+
+            self._close_register_queue()
 
             timestamp = self._create_session()
             status_reg_event = self._create_status_reg_event('STOPPED')
@@ -192,6 +190,14 @@ class Engine(common.Engine):
 
         return events
 
+    def _close_register_queue(self):
+        self._register_queue.close()
+
+        while not self._register_queue.empty():
+            future, _, __ = self._register_queue.get_nowait()
+            if not future.done():
+                future.set_exception(Exception('engine closed'))
+
     def _create_status_reg_event(self, status):
         return common.RegisterEvent(
             type=('event', str(self._server_id), 'engine'),
-- 
2.43.0


From db41b5120d56f1b71802b7c102307bcb47e7bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:13 +0000
Subject: [PATCH 11/23] fix: eventer server connection ends only its own
 acknowledgements

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..3aed2fe 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (i, _), future in self._conn_conv_futures.items():
+                if i == conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From c930e7b53de1d72cd5d1ef81bbbd9352178f8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 12/23] fix: close module whose creation finishes while engine
 creation is cancelled

---
 src_py/hat/event/server/engine.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index 2dc66f0..47493d2 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -49,13 +49,8 @@ async def create_engine(backend: common.Backend,
             source = common.Source(type=common.SourceType.MODULE,
                                    id=source_id)
 
-            module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
-
-            engine._source_modules.append((source, module))
+            await engine.async_group.spawn(engine._create_module, info,
+                                           module_conf, source)
 
         engine.async_group.spawn(engine._register_loop)
 
@@ -109,6 +104,20 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        try:
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except BaseException:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        self._source_modules.append((source, module))
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From de0763a0aa60cc6673bf6d04f43fce35db4653e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 13/23] fix: close monitor component before eventer client
 runner during shutdown

---
 src_py/hat/event/server/main_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_py/hat/event/server/main_runner.py b/src_py/hat/event/server/main_runner.py
index d3fe1d9..23c8d35 100644
--- a/src_py/hat/event/server/main_runner.py
+++ b/src_py/hat/event/server/main_runner.py
@@ -147,12 +147,12 @@ class MainRunner(aio.Resource):
         if self._engine_runner and not self._monitor_component:
             await self._engine_runner.async_close()
 
-        if self._eventer_client_runner:
-            await self._eventer_client_runner.async_close()
-
         if self._monitor_component:
             await self._monitor_component.async_close()
 
+        if self._eventer_client_runner:
+            await self._eventer_client_runner.async_close()
+
         if self._adminer_server:
             await self._adminer_server.async_close()
 
-- 
2.43.0


From fc7b95a113d2da2986aa232b9198c44cc0897418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 14/23] fix: keep connecting and close runner if connection is
 lost during runner creation

---
 src_py/hat/event/component.py | 71 ++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..081f8d2 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,27 +248,27 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
-                        aio.call, self._runner_cb, self, server_data, client)
+                    runner = await self._create_runner(server_data, client)
 
-                    try:
-                        async with async_group.create_subgroup() as subgroup:
-                            client_closing_task = subgroup.spawn(
-                                client.wait_closing)
-                            runner_closing_task = subgroup.spawn(
-                                runner.wait_closing)
+                    if runner:
+                        try:
+                            async with async_group.create_subgroup() as subgroup:  # NOQA
+                                client_closing_task = subgroup.spawn(
+                                    client.wait_closing)
+                                runner_closing_task = subgroup.spawn(
+                                    runner.wait_closing)
 
-                            await asyncio.wait(
-                                [client_closing_task, runner_closing_task],
-                                return_when=asyncio.FIRST_COMPLETED)
+                                await asyncio.wait(
+                                    [client_closing_task, runner_closing_task],
+                                    return_when=asyncio.FIRST_COMPLETED)
 
-                            if (runner_closing_task.done() and
-                                    not client_closing_task.done()):
-                                self.close()
-                                return
+                                if (runner_closing_task.done() and
+                                        not client_closing_task.done()):
+                                    self.close()
+                                    return
 
-                    finally:
-                        await aio.uncancellable(runner.async_close())
+                        finally:
+                            await aio.uncancellable(runner.async_close())
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -282,3 +282,40 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+    async def _create_runner(self, server_data, client):
+        runner_task = asyncio.create_task(
+            aio.call(self._runner_cb, self, server_data, client))
+        closing_task = asyncio.create_task(client.wait_closing())
+
+        try:
+            await asyncio.wait([runner_task, closing_task],
+                               return_when=asyncio.FIRST_COMPLETED)
+
+            if client.is_open:
+                return runner_task.result()
+
+        except BaseException:
+            await aio.uncancellable(_cancel_runner(runner_task))
+            raise
+
+        finally:
+            closing_task.cancel()
+
+        # connection is lost while runner is being created
+        await aio.uncancellable(_cancel_runner(runner_task))
+
+
+async def _cancel_runner(runner_task):
+    runner_task.cancel()
+    await asyncio.wait([runner_task])
+
+    if runner_task.cancelled():
+        return
+
+    e = runner_task.exception()
+    if e:
+        mlog.warning("error creating runner: %s", e, exc_info=e)
+        return
+
+    await runner_task.result().async_close()
-- 
2.43.0


From 1110325c430d0d9730a47c130da424f79528b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:14 +0000
Subject: [PATCH 15/23] fix: keep adminer connection after answer of a
 cancelled request

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From 4f33b9e5c0edf6956b7dfc294d528fca6b144406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 16/23] fix: lmdb manager ref and latest queries

---
 src_py/hat/event/backends/lmdb/manager/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,13 +57,13 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 0cdb81f0621169a6f392afef472d91f11a83944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 17/23] fix: manager server query parameters

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..95e7fcf 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From aed64b5b6e4b17c0a56d837bf819553b8322adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 18/23] fix: manager event id argument

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 95e7fcf..07d786f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -305,7 +305,7 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
 def _parse_order(order):
-- 
2.43.0


From 7d86c27d6733e6f059cdbea933f11f18e90b84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 19/23] fix: manager order arguments

---
 src_py/hat/event/manager/main.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 07d786f..5a0ce9c 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=_parse_order(args.order),
+                order_by=_parse_order_by(args.order_by),
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
-- 
2.43.0


From f7329ca4598119d2bb81fbb583dd8b4a8c15fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 20/23] fix: manager register result

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 5a0ce9c..9a21917 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -230,7 +230,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From abfb9636a7ba09302a263fe1a23fc5a00e278ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:36 +0000
Subject: [PATCH 21/23] fix: conversion does not overwrite files next to
 destination

---
 .../hat/event/backends/lmdb/convert/main.py   | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/convert/main.py b/src_py/hat/event/backends/lmdb/convert/main.py
index 533ddf8..f3faaef 100644
--- a/src_py/hat/event/backends/lmdb/convert/main.py
+++ b/src_py/hat/event/backends/lmdb/convert/main.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 import sys
+import tempfile
 import typing
 
 from hat import util
@@ -56,31 +57,33 @@ def convert(src_path: Path,
     if version == target_version:
         raise Exception(f"{src_path} already up to date")
 
-    tmp_src_path = src_path
+    # intermediate databases are kept in separate directory so that other files
+    # next to destination are not overwritten
+    with tempfile.TemporaryDirectory(dir=dst_path.parent) as tmp_dir:
+        tmp_src_path = src_path
 
-    while version != target_version:
-        conversion = util.first(conversions,
-                                lambda i: i.src_version == version)
-        if not conversion:
-            raise Exception(f"unsupported version {version.value}")
+        while version != target_version:
+            conversion = util.first(conversions,
+                                    lambda i: i.src_version == version)
+            if not conversion:
+                raise Exception(f"unsupported version {version.value}")
 
-        if conversion.dst_version == target_version:
-            tmp_dst_path = dst_path
+            if conversion.dst_version == target_version:
+                tmp_dst_path = dst_path
 
-        else:
-            tmp_dst_path = dst_path.with_suffix(
-                f"{dst_path.suffix}.{conversion.dst_version.name}")
+            else:
+                tmp_dst_path = Path(tmp_dir) / conversion.dst_version.name
 
-        if tmp_dst_path.exists():
-            tmp_dst_path.unlink()
+            if tmp_dst_path.exists():
+                tmp_dst_path.unlink()
 
-        conversion.convert(tmp_src_path, tmp_dst_path)
-        version = conversion.dst_version
+            conversion.convert(tmp_src_path, tmp_dst_path)
+            version = conversion.dst_version
 
-        if tmp_src_path != src_path:
-            tmp_src_path.unlink()
+            if tmp_src_path != src_path:
+                tmp_src_path.unlink()
 
-        tmp_src_path = tmp_dst_path
+            tmp_src_path = tmp_dst_path
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 3b4212a113496f0c5ef89cb158bb949d47be0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:30 +0000
Subject: [PATCH 22/23] fix: event server does not synchronize with itself

---
 src_py/hat/event/server/eventer_client_runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/eventer_client_runner.py b/src_py/hat/event/server/eventer_client_runner.py
index bb6da84..12a46ae 100644
--- a/src_py/hat/event/server/eventer_client_runner.py
+++ b/src_py/hat/event/server/eventer_client_runner.py
@@ -64,6 +64,7 @@ class EventerClientRunner(aio.Resource):
     def set_monitor_state(self, state: hat.monitor.component.State):
         self._valid_server_data = set(_get_eventer_server_data(
             group=self._conf['monitor_component']['group'],
+            local_server_id=self._conf['server_id'],
             server_token=self._conf.get('server_token'),
             state=state))
 
@@ -133,7 +134,7 @@ class EventerClientRunner(aio.Resource):
         self._remote_active_cbs.notify(remote_active)
 
 
-def _get_eventer_server_data(group, server_token, state):
+def _get_eventer_server_data(group, local_server_id, server_token, state):
     for info in state.components:
         if info == state.info or info.group != group:
             continue
@@ -148,6 +149,10 @@ def _get_eventer_server_data(group, server_token, state):
                 not isinstance(token, (str, types.NoneType))):
             continue
 
+        # info of previous connection of this server to monitor
+        if server_id == local_server_id:
+            continue
+
         if server_token is not None and token != server_token:
             continue
 
-- 
2.43.0


From 204d0233d07717c1c872ab8b287f8dca6542017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:38 +0000
Subject: [PATCH 23/23] fix: component stays open when its client loop is being
 closed

---
 src_py/hat/event/component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 081f8d2..913e09b 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -217,7 +217,8 @@ class Component(aio.Resource):
 
         except Exception as e:
             mlog.error("address loop error: %s", e, exc_info=e)
-            self.close()
+            if async_group.is_open:
+                self.close()
 
         finally:
             async_group.close()
@@ -278,7 +279,8 @@ class Component(aio.Resource):
 
         except Exception as e:
             mlog.error("client loop error: %s", e, exc_info=e)
-            self.close()
+            if async_group.is_open:
+                self.close()
 
         finally:
             async_group.close()
-- 
2.43.0


"""Source of properties.jsonl (kept as Python only because it is easier to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["aiok8s/" + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


# ------------------------------------------------------------------ cache: store, keys, queues
prop("C01", "Object store behaves as a map and its indexes always match its contents",
     "After any sequence of adds, updates, deletes, wholesale replacements and index registrations, the store holds exactly the last object written for each key, and every index query (keys for a value, objects for a value, objects sharing a value with a given object, the set of values) returns exactly what recomputing the index functions over the current contents gives, including for index functions that return no value, several values or the same value twice; an object for which an index function fails is stored, replaced and deleted like any other and is in none of that index's values. Deleting an absent key changes nothing. A write that cannot be keyed, a query on an unknown index, an index registered twice and an index registered on a non-empty store are refused with an error and leave contents and indexes unchanged. The answer to a query is the caller's own: later changes of the store do not change it, nor does changing it change the store.",
     ["inputs", "histories", "schedules"],
     "all operation histories over any key space and any set of deterministic index functions, also with operations issued concurrently",
     "The two index tests and one store test use a handful of fixed objects; they never remove one of several values, replace over a populated index, register an index later, or repeat a value.",
     ["cache/store.py", "cache/thread_safe_store.py", "cache/index.py"],
     [("index maintenance on every write", "cache/thread_safe_store.py"), ("key function wrapping", "cache/store.py")],
     [("items / indices", "contents and inverted indexes", "cache/thread_safe_store.py")],
     ["store.get/list/list_keys/index/index_keys/by_index/list_index_func_values"])

prop("C02", "Typed, dict and tombstone forms of an object are interchangeable",
     "For every object, the store key, the namespace index value, the uid, the resource version (read and written) and the group/version/kind computed from its typed form equal those computed from its plain-dict form, for namespaced and cluster-scoped objects (whose dict form has no namespace entry) and for core (`v1`) and grouped (`apps/v1`) API versions. The key is `namespace/name`, or `name` when there is no namespace, a tombstone and an explicit key stand for the key they carry, and distinct (namespace, name) pairs get distinct keys. Something that is not an object is refused with an error, never given a key.",
     ["inputs"],
     "all valid Kubernetes names, namespaces, uids, versions, API versions and kinds; typed objects, dicts, tombstones, explicit keys, non-objects; lists likewise for their version and items",
     "Tests only ever use typed namespaced-less pods and one grouped GVK; dict objects, cluster-scoped dicts and core-group kinds are never exercised.",
     ["api/meta.py", "runtime/schema.py", "cache/store.py", "cache/controller.py", "cache/index.py", "controller/_cache_reader.py"],
     [("accessors by representation", "api/meta.py"), ("key functions", "cache/store.py, cache/controller.py"), ("GVK parsing", "api/meta.py")])

prop("C03", "FIFO hands out the latest object of each pending key, once, in order",
     "A FIFO hands each pending key to exactly one pop, with the most recent object stored for it, in the order in which the keys became pending; a deleted key is not handed out, deleting an absent key is harmless, replacement makes exactly the given objects pending, and add-if-not-present never overwrites a pending object. A pop on an empty queue waits until an item arrives or, once the queue is closed and empty, fails with the closed error; an item whose processing asks for requeueing becomes pending again and any other processing error is reported to the caller together with the item. It reports synced exactly when something was added or all items of the initial replacement have been popped (those deleted or replaced first not counting). Something without a key is refused, and a list of what is pending is the caller's own.",
     ["histories", "schedules"],
     "all histories of add/update/delete/replace/resync/add-if-not-present/pop/close with any number of concurrent poppers",
     "Tests walk seven fixed scripts with one consumer.",
     ["cache/fifo.py"],
     [("queue of keys plus latest-value map under one lock", "cache/fifo.py")],
     [("items, queue, initial population count", "pending objects, order, sync counter", "cache/fifo.py")],
     ["pop results and errors, list/list_keys/get/has_synced"])

prop("C04", "Delta queue delivers every change, complete and in order per key",
     "Each pop of the delta queue yields, for the key that has been pending longest, the complete ordered list of changes (added, updated, deleted, sync, each with the exact object given) recorded since that key was last popped; nothing is lost, invented, reordered or delivered to two poppers, and the only permitted compression is merging adjacent deletions of a key into the one that carries the final object. A deletion of a key that is neither pending nor known is dropped (one whose key cannot be looked up is not); a resync queues the known object of exactly those known keys that have nothing pending and can be looked up. Pop waits on an empty queue, and fails with the closed error once the queue is closed and drained. It reports synced exactly when a change was queued first or all that the initial replacement queued has been handed out, and a list of what is pending is the caller's own.",
     ["histories", "schedules"],
     "all histories of add/update/delete/replace/resync/pop/close, with and without a known-objects store, with any number of concurrent producers and poppers and processing that takes time",
     "Tests check about fifteen fixed scripts; compression, resync and deletion rules interact with what is pending and known, which a script samples at one point.",
     ["cache/delta_fifo.py"],
     [("per-key delta accumulation with dedup", "cache/delta_fifo.py"), ("pop under the queue lock", "cache/delta_fifo.py")],
     [("items / queue / known objects", "pending deltas, order, consumer's store", "cache/delta_fifo.py")],
     ["pop, list, list_keys, get_by_key"])

prop("C05", "A relist makes the consumer's store equal the listed state",
     "Whatever was pending or already consumed beforehand, once a replacement list has been given to the delta queue and everything pending has been consumed, the consumer's store holds exactly the listed objects at the listed versions: objects missing from the list are deleted even if their creation was still pending, and objects in the list exist even if their deletion was still pending. Every such inferred deletion is announced to the consumer exactly once, as a tombstone carrying the key and the last known object (never a tombstone inside a tombstone), or no object if looking it up failed.",
     ["histories", "schedules"],
     "all interleavings of watch changes, replacement lists, resyncs and partial consumption before and between lists",
     "test_replace_makes_deletions only has keys already in the known store and nothing else pending.",
     ["cache/delta_fifo.py", "cache/shared_informer.py", "cache/controller.py"],
     [("deletion detection against known objects and pending items", "cache/delta_fifo.py"), ("tombstones", "cache/delta_fifo.py")],
     None, ["consumer store after drain; sequence of consumed deltas"])

prop("C06", "Synced is reported only when the whole initial list has been processed",
     "A delta queue, an informer and the wait-for-sync helper report synced only after the first list has arrived and the processing of every object of that list has finished, so that whoever sees it finds every initially listed object (or its successor state) in the cache; a list of n objects needs exactly n objects processed (an empty list none, repeated keys count once). Once reported it stays reported, and it does get reported once all of them have been processed.",
     ["histories", "schedules"],
     "all initial lists, processing delays, concurrent handler registrations, watch events and failures during the initial processing",
     "test_has_synced pops synchronously; the guarantee matters while processing is suspended or contended, which no test produces.",
     ["cache/delta_fifo.py", "cache/controller.py", "cache/shared_informer.py"],
     [("initial population counter", "cache/delta_fifo.py"), ("has_synced chain and wait_for_cache_sync", "cache/controller.py, cache/shared_informer.py")],
     [("initial population count", "objects of the first list not yet processed", "cache/delta_fifo.py")],
     ["has_synced() versus store contents at every instant"])

prop("C07", "Failed processing is reported or retried without clobbering newer state",
     "When processing of a popped item fails, the item is reported to the popper with the original error; when processing asks for requeueing, the same changes become pending again behind the other keys, and the cause, if given, is reported. Re-adding a failed item never replaces or duplicates newer pending changes of the same key. A controller configured to retry keeps re-processing failed items until they succeed, so that with failures that eventually stop every object's latest state is processed; one configured not to retry drops the failed item and goes on with the others.",
     ["histories", "fault_sequences", "schedules"],
     "all histories with arbitrary failure patterns of the processing function, concurrent producers, both retry settings",
     "One test raises once on a single key with an otherwise empty queue; the controller's retry path has no test.",
     ["cache/delta_fifo.py", "cache/fifo.py", "cache/controller.py"],
     [("requeue and error wrapping in pop", "cache/delta_fifo.py, cache/fifo.py"), ("process loop", "cache/controller.py")])

# ------------------------------------------------------------------ reflector
prop("C08", "The mirrored store converges to the API server under any faults",
     "Whatever sequence of failed lists, failed watch requests, watches closed early, watch streams breaking with an exception, error events and expired versions occurs, the reflector keeps running without user action, and once the faults stop its store equals the server's state within a few seconds and follows further changes. It never spins: after a failure it waits before listing again.",
     ["fault_sequences", "histories", "schedules"],
     "all finite fault sequences interleaved with all server histories, at any delays",
     "test_list_and_watch_with_errors plays six fixed steps by calling list_and_watch by hand; the run loop under faults and streams that raise are never exercised.",
     ["cache/reflector.py", "cache/list_watch.py"],
     [("run loop", "cache/reflector.py"), ("list_and_watch / watch handler error paths", "cache/reflector.py")],
     None, ["store contents versus fake API server"])

prop("C09", "Watches resume exactly where the store is: no gap, no duplicate",
     "After each list is put in the store, the writes that follow are exactly the server's changes after that list's version, in order, each once, whatever number of watches they were spread over: every watch is requested from the version of the last event received (or of the list), and each event is applied with the operation it announces. A watch that ends in good order, having lasted over a second or brought an event, is resumed without listing again, and every watch asks the server to end it after a bounded time. A list or watch that fails or breaks, or a watch that ends at once (within a second, without an event), is followed by a pause before the next request, so that a failing server is not flooded. The version reported as last synced is always that of the last list or event received, and never ahead of what has been written to the store.",
     ["histories", "fault_sequences"],
     "all server histories, all ways of cutting the change stream into watches, including closes without events, and all relists",
     "test_list_and_watch cuts a five-event stream once.",
     ["cache/reflector.py"],
     [("resource version carried in watch options", "cache/reflector.py")],
     [("last sync resource version", "version the store reflects", "cache/reflector.py")],
     ["calls on the store; options of list and watch calls; last_sync_resource_version()"])

prop("C10", "Foreign or malformed watch events and failing writes do not disturb the mirror",
     "Events whose object is of another type or group/version/kind than expected, has no usable metadata, or whose event type is unknown never reach the store; bookmarks only advance the version; a store write that fails is skipped. None of them ends the watch or affects the events around them, and objects of the expected kind, core-group kinds included, are never rejected.",
     ["inputs", "histories"],
     "all mixtures of valid and invalid events for typed, untyped and group/version/kind reflectors",
     "One test sends a single wrongly typed event; the GVK filter is never run on an event.",
     ["cache/reflector.py", "api/meta.py"],
     [("expected type and GVK filters, per-event error handling", "cache/reflector.py")])

prop("C11", "The reflector resyncs its store every period, and only when asked",
     "While a watch is running, the reflector asks the store to resync once per resync period, provided the should-resync predicate (if any) agrees, and never when the period is zero; this continues across watch restarts. A failing resync ends the watch and leads to a new list; a predicate that fails does not end resyncing. After the reflector is cancelled, no further resync, list, watch or write happens and its watch is closed.",
     ["histories", "configurations", "schedules"],
     "all periods, predicates, watch lengths, resync failures and cancellation times",
     "test_resync counts two resyncs at one period with an idle watch.",
     ["cache/reflector.py"],
     [("resync task", "cache/reflector.py")])

# ------------------------------------------------------------------ informers
prop("C12", "Every handler's notifications replay to exactly the cache",
     "For every shared informer and each of its handlers, the notifications received form a consistent history: an object is announced as added only when the handler does not have it, each update's old object is the state the handler had, deletions are only of objects it has, and versions of one object never go backwards, whether a watch calls a change an addition or a modification. Once events have been processed, replaying any handler's notifications gives exactly the cache contents and the server's state, also when changes were only discovered by relisting and also for handlers whose resync is not due. Before a notification is delivered its effect is visible in the cache.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "all server histories, watch interruptions with relists, numbers of handlers and resync settings, handler delays",
     "Shared informer tests use a source with two static pods; no test changes an object or relists.",
     ["cache/shared_informer.py", "cache/delta_fifo.py"],
     [("handle_deltas", "cache/shared_informer.py"), ("distribution to listeners", "cache/shared_informer.py")],
     [("syncing listeners", "who receives sync notifications", "cache/shared_informer.py")],
     ["handler callbacks; get_indexer()"])

prop("C13", "A handler added late receives the current state once, then every change",
     "A handler registered on a running informer receives exactly one add per object in the cache at that moment and afterwards every later change, with no object missed or announced twice in between, and without disturbing the other handlers; one registered before the informer runs receives everything. A handler registered after the informer stopped receives nothing and registration returns normally.",
     ["histories", "schedules"],
     "all registration times relative to lists, events, handlers busy elsewhere and shutdown, including registration from inside another handler",
     "test_initialization_race only checks that nothing crashes.",
     ["cache/shared_informer.py"],
     [("block-deltas lock and listener registration", "cache/shared_informer.py")])

prop("C14", "A slow, blocked or raising handler delays only itself",
     "However long one handler takes, even forever, the informer's cache and all other handlers keep up with the server. The slow handler loses nothing: it receives all its notifications in order, one at a time. A handler that raises misses only the notification it raised on and, after a pause, receives all later ones.",
     ["schedules", "fault_sequences", "histories"],
     "all assignments of delays and exceptions to handler calls, all server histories",
     "No test has a handler that takes time or raises.",
     ["cache/shared_informer.py"],
     [("per-listener buffer (pop/run pair)", "cache/shared_informer.py")],
     [("pending notifications", "unbounded per-listener buffer", "cache/shared_informer.py")])

prop("C15", "Each handler is resynced at its own period",
     "While nothing changes, a handler registered with a resync period receives a sync notification (an update whose old and new are the same) for every cached object about once per period — never sooner than the period and never later than the period plus the informer's check period, which is the smallest period requested before start — and a handler with period zero receives none. Periods below one second count as one second, and a period requested after start that is shorter than the check period counts as the check period.",
     ["configurations", "histories"],
     "all informer defaults and handler periods, registered before or after start",
     "One test fixes three handlers and two clock steps, another reads private fields.",
     ["cache/shared_informer.py", "cache/reflector.py"],
     [("period determination and due listeners", "cache/shared_informer.py")])

prop("C16", "Stopping an informer or reflector is clean at any moment",
     "Cancelling a running informer at any moment makes it finish promptly once running handler calls return: its watch is closed, no handler call starts and no list, watch or cache write happens after it has finished, and it leaves no background task behind. This also holds while the initial list is in flight, while a handler is busy or has just raised, and while a handler is being registered.",
     ["schedules", "crash_points"],
     "all cancellation points, at any virtual time and any scheduling step, of any informer history",
     "test_initialization_race cancels at one point and does not look at the result.",
     ["cache/shared_informer.py", "cache/controller.py", "cache/reflector.py"],
     [("run/finally chains", "cache/shared_informer.py, cache/controller.py, cache/reflector.py")])

prop("C17", "Basic informer's store and callbacks mirror the server",
     "For a basic (single-handler) informer, callbacks are invoked one at a time and form a consistent history of each object, whether a watch calls a change an addition or a modification — add only when it was absent from the store, update with the object the store had, delete when it goes — and at each callback the store already reflects it. Once events have been processed, the store and the replayed callbacks equal the server's state, including deletions found only by relisting, which are delivered as tombstones. A callback that raises costs the store and the later callbacks nothing. Stopped at any moment, it ends promptly and calls nobody afterwards; of a handler made of functions, those present get their events and those absent are not missed.",
     ["histories", "fault_sequences", "schedules"],
     "all server histories, faults, resync periods, callback delays and failing callbacks",
     "test_hammer runs a random history but asserts nothing about the result.",
     ["cache/controller.py", "cache/delta_fifo.py"],
     [("process function of new_informer", "cache/controller.py")])

prop("C18", "The indexes of an informer always match its cache",
     "Whatever index functions a shared informer was given, at construction or added before its start, every query of every index at any moment — also from inside a handler's callback — returns exactly the cached objects (or keys, or values) that applying the index function to the cache's current contents gives (nothing for an object it fails for), through relists, missed deletions and resyncs. Adding indexers under a name already taken, or once the informer has been started, is refused with an error and changes nothing.",
     ["histories", "schedules", "faults"],
     "all histories of server changes, list and watch faults and resyncs; any deterministic index functions; any time of adding indexers and of querying",
     "No test adds indexers to an informer or queries an index of one.",
     ["cache/shared_informer.py", "cache/thread_safe_store.py", "cache/store.py", "cache/index.py"],
     [("add_indexers and the indexer behind the informer", "cache/shared_informer.py"), ("index maintenance", "cache/thread_safe_store.py")],
     None, ["informer.get_indexer() queries from callbacks and outside"])

# ------------------------------------------------------------------ workqueue
prop("C20", "Work queue: no duplicates, no concurrent processing, nothing lost",
     "An item added any number of times before it is taken is handed out once; an item being processed is never handed to anyone else until marked done; an item added while being processed is handed out again after it is done. Items are handed out in the order they became available, every added item is eventually handed out if consumers keep taking, and the queue's length is the number of items waiting.",
     ["histories", "schedules"],
     "all histories of add/get/done with any number of concurrent producers and consumers",
     "Tests run fixed producers/consumers with sleeps and check only that nothing overlaps in that run.",
     ["workqueue/queue.py"],
     [("dirty/processing sets", "workqueue/queue.py")],
     [("dirty, processing, queue", "items wanting processing, in processing, waiting", "workqueue/queue.py")],
     ["get results, len()"])

prop("C21", "Delayed adds fire once, never early, promptly, at the earliest deadline",
     "An item added with a delay becomes available no earlier than the delay and as soon as it has elapsed; a non-positive delay makes it available at once. If the same item is added with several delays before the first of them has elapsed, it becomes available once for all of them, at the earliest of the deadlines (adding it at once meanwhile makes it available at once and leaves the deadline in force); distinct items become available in deadline order and none is lost, however many are added and whatever is taken meanwhile.",
     ["histories", "schedules"],
     "all histories of delayed and immediate adds, takes and dones at arbitrary times and with arbitrary delays",
     "Tests use a stepped fake clock with at most three delays.",
     ["workqueue/delaying_queue.py", "util/clock.py", "util/_time.py"],
     [("waiting loop and priority queue", "workqueue/delaying_queue.py")],
     [("waiting priority queue", "items by deadline with lazy removal", "workqueue/delaying_queue.py")])

prop("C22", "Shutting down a work queue releases consumers and drains what was queued",
     "After shutdown of any work queue — plain, delaying or rate-limited — further adds of any kind are ignored and do not block, items already waiting are still handed out (including ones re-added while in processing before shutdown), and then every waiting or later get reports shutdown. Shutdown reports as such, is idempotent, never blocks, and leaves no background task behind.",
     ["schedules", "histories"],
     "all histories with shutdown at any point, any number of blocked consumers, pending delayed items and concurrent shutdowns",
     "Only the plain queue's shutdown is exercised; the delaying queue's never is.",
     ["workqueue/queue.py", "workqueue/delaying_queue.py"],
     [("shut_down", "workqueue/queue.py, workqueue/delaying_queue.py")])

prop("C23", "Per-item backoff doubles per failure up to the cap and resets on forget",
     "The n-th consecutive delay asked for an item is base times 2^(n-1), capped at the maximum, for every n however large; the requeue count is the number of delays asked since the item was last forgotten. Forgetting resets both for that item only, and forgetting an unknown item is harmless; items never influence each other.",
     ["inputs", "histories"],
     "all base/max delays, items and histories of failures and forgets, including thousands of failures",
     "Tests stop at 1001 failures of one item.",
     ["workqueue/default_rate_limiters.py"],
     [("failure counter", "workqueue/default_rate_limiters.py")])

prop("C24", "Bucket limiter never exceeds burst plus rate and never over-delays",
     "For every arrival pattern, if each request is performed after the delay it was given, then in any time window of length T at most burst + rate x T requests are performed; and no request is delayed longer than that requires: the delay equals the shortfall of a token bucket that starts full and never holds more than the burst. A combination of limiters delays by the largest of its members' delays, counts requeues as the largest count, and forgets in all of them.",
     ["inputs", "histories"],
     "all rates, bursts and arrival patterns, including bursts, idle periods and clocks that stand still or step back",
     "One test pokes the internal token computation at five points.",
     ["workqueue/default_rate_limiters.py"],
     [("token bucket", "workqueue/default_rate_limiters.py"), ("max-of combinator", "workqueue/default_rate_limiters.py")])

prop("C25", "Rate-limited adds become available exactly after their limiter's delay",
     "An item added rate-limited becomes available once the delay its rate limiter dictates has elapsed, repeated failures back off accordingly, and forgetting makes the next delay the initial one; requeue counts are those of the limiter. Rate-limited and delayed adds of one item that are pending together combine to a single hand-out at the earliest deadline, an immediate add makes it available at once and leaves a pending deadline in force, and an item is never handed out while it is being processed.",
     ["histories", "schedules"],
     "all histories of rate-limited, delayed and immediate adds, forgets, gets and dones over several items, default and custom limiters",
     "The one test replaces the waiting loop and looks at its input.",
     ["workqueue/rate_limiting_queue.py", "workqueue/delaying_queue.py", "workqueue/default_rate_limiters.py"],
     [("add_rate_limited", "workqueue/rate_limiting_queue.py")])

prop("C26", "Giving up a call on a queue loses neither items nor wake-ups",
     "A get, pop or addition on a work queue, delaying or rate limited queue, FIFO or delta queue may be given up (cancelled) at any moment: no item that was added is lost or handed out twice, no consumer goes on waiting while an item is available, and later calls work as before. An addition given up, be it immediate, delayed or rate limited, may or may not take effect, once; a call given up leaves nothing running.",
     ["schedules", "histories"],
     "all histories of additions and takes and all moments of giving them up",
     "No test gives a call on a queue up.",
     ["workqueue/queue.py", "workqueue/delaying_queue.py", "cache/fifo.py", "cache/delta_fifo.py"],
     [("conditions of the queues", "workqueue/queue.py")])

# ------------------------------------------------------------------ watch
prop("C30", "Broadcaster delivers every event to every watcher in order",
     "With a waiting broadcaster, every watcher that stays receives exactly the events sent after it started watching and before shutdown, each once, in the order sent, preceded by its prefix events if it was given any; events queued at shutdown are still delivered, after which every watcher's stream ends; shutdown returns only once everything queued has been handed to the watchers or their queues. This holds whatever the queue lengths and consumer speeds, and also if a consumer stops waiting for the next event and asks again later.",
     ["schedules", "histories"],
     "all numbers of watchers, start times, prefixes, queue lengths (including unbuffered), consumer speeds and interrupted waits",
     "One test sends two events to a hundred eager watchers.",
     ["watch/mux.py"],
     [("distribution loop with in-band registration", "watch/mux.py")],
     [("incoming queue / per-watcher result queue", "order of events and registrations", "watch/mux.py")])

prop("C31", "A dropping broadcaster never waits, and drops only for full watchers",
     "With a dropping broadcaster, sending never waits for watchers; each watcher receives a subsequence of the events sent while it watched, in order and without duplicates, missing an event only when its own buffer (of the configured length) was full. A slow or abandoned watcher never affects what the others receive.",
     ["schedules", "histories"],
     "all buffer lengths from one up, event sequences and consumer speeds",
     "One test fills a single one-slot watcher once.",
     ["watch/mux.py"],
     [("put_nowait per watcher", "watch/mux.py")])

prop("C32", "Stopping a watcher at any time neither blocks nor disturbs the others",
     "Stopping a watcher, once or repeatedly, directly or by leaving its context, while events are being sent, its buffer is full, or after shutdown, returns promptly, ends its stream, releases a sender waiting for it, and leaves the other watchers' streams complete. Shutdown always completes once the watchers consume or stop, and then nothing of the broadcaster or its watchers is left running.",
     ["schedules", "histories"],
     "all placements of stop, context exit and shutdown among sends and receives, in both full-buffer modes",
     "One test stops one blocked watcher.",
     ["watch/mux.py", "watch/watch.py"],
     [("stop_watching and stopped event", "watch/mux.py")])

prop("C33", "Fake watcher hands over each event synchronously and in order",
     "Each event sent through a fake watcher is received exactly once, in sending order, by its consumers, and the send returns when, and only when, the event has been taken; concurrent senders are serialised. After stop, iteration ends once the events already handed in have been taken, and after reset it can be used again for new events.",
     ["schedules", "histories"],
     "all sequences of sends, receives, interrupted receives, stops and resets by any number of senders and receivers",
     "One test sends four events to one reader.",
     ["watch/watch.py"],
     [("queue join under a mutex", "watch/watch.py")])

prop("C34", "Fake API source: list plus watch from its version replays to the state",
     "For the fake controller source, the list and its version always describe the result of all changes made so far with one version per change, and a watch from any earlier version delivers exactly the changes after that version, in order, each once, including those made later that are not explicitly dropped. Listed objects and replayed history are copies: mutating them never affects the source. A version in the future is refused.",
     ["histories", "schedules"],
     "all histories of add/modify/delete (also dropped ones), lists and watches from any version at any time",
     "One test adds pods and reads resource versions.",
     ["cache/testing/fake_controller_source.py", "watch/mux.py"],
     [("change log and broadcaster", "cache/testing/fake_controller_source.py")])

prop("C35", "Broadcaster calls that are given up have no lasting effect",
     "A send, watch, watch-with-prefix or shutdown whose caller gives it up (is cancelled) at any moment ends promptly and leaves the broadcaster working: later sends, watches and shutdown complete, the other watchers receive everything that was sent and accepted, in order and once, a watch that was given up holds nobody up, and a send that was given up is seen either by all watchers or by none.",
     ["schedules", "histories"],
     "all histories of calls and all moments of giving them up, in both full-buffer modes and for all buffer lengths",
     "No test gives a call up.",
     ["watch/mux.py"],
     [("functions queued among the events", "watch/mux.py")])

# ------------------------------------------------------------------ util
prop("C40", "Fake and real clocks fire timers and tickers exactly when due",
     "Under any sequence of steps and time settings, a fake-clock timer fires exactly once, at the first move to or past its target, unless stopped before; stopping or resetting reports whether it was still pending, and a reset pending timer fires at the new target only. A ticker has a tick waiting after a move to or past its next multiple of the interval, at most one unread tick at a time, and never stops ticking. Current time and elapsed time follow the settings, and it reports waiters exactly while some timer or ticker is pending. Timers and tickers of the real clock do the same in real time; once stopped they never fire again and leave nothing running.",
     ["histories", "inputs"],
     "all sequences of timers, tickers, stops, resets, reads, steps and settings",
     "Tests walk three fixed scripts.",
     ["util/clock.py"],
     [("waiter list", "util/clock.py")])

prop("C41", "Backoff follows its parameters exactly; retries make the promised attempts",
     "Each step of a backoff returns the current duration (plus jitter within [0, jitter x duration)), multiplies the duration by the factor, stops growing at the cap and uses up the steps; once exhausted it keeps returning the final duration. Retrying with backoff tries the condition at most `steps` times, stops at the first success or exception, waits exactly the backoff's durations in between, fails with the timeout error only after all attempts failed, and never alters the backoff it was given. Jitter never shortens a duration and never lengthens it by the factor or more (a non-positive factor counts as 1).",
     ["inputs"],
     "all durations, factors, jitters, step counts and caps; all success patterns",
     "Ten hand-picked parameter sets.",
     ["util/wait.py", "util/retry.py"],
     [("Backoff.step, exponential_backoff, jitter", "util/wait.py")])

prop("C42", "Periodic loops and polls run on schedule and stop when told",
     "A periodic loop calls its function immediately and then once per period — measured from the end of each call when sliding, from its start otherwise, never overlapping — until cancelled or its stop event is set; with the event already set it never calls it, and it returns promptly when the event is set while waiting; a call that raises ends the loop with its exception, and a loop that has ended leaves nothing running. A poll tests its condition each interval (first immediately if asked), returns at the first success, propagates the condition's exception, and with a timeout raises the timeout error no earlier and no later than the timeout.",
     ["inputs", "schedules"],
     "all periods, jitter factors, call durations, stop/cancel times, success patterns and timeouts",
     "Tests check that a first call happens and that a stop ends the loop; the poll functions are untested ('TODO: test').",
     ["util/wait.py", "util/_time.py"],
     [("jitter_until / jitter_loop / poll*", "util/wait.py"), ("timers", "util/_time.py")])

# ------------------------------------------------------------------ controller
prop("C50", "Every change of a watched object leads to a reconcile that sees it",
     "With a manager and a built controller running against an API server, after the last change of each object (creation, update or deletion) at least one reconcile of its name starts that reads that final state from the cache, no matter how changes, watch interruptions, relists, slow reconciles and failing reconciles are interleaved; this includes deletions noticed only by relisting. Reconcile requests are only ever made for objects that existed.",
     ["histories", "fault_sequences", "schedules"],
     "all pod histories over several names and namespaces, all watch faults, reconcile durations and failures",
     "The controller package has no test at all.",
     ["controller/builder.py", "controller/manager.py", "controller/controller.py", "controller/source.py", "controller/handler.py", "controller/cache.py", "controller/_informers_map.py", "controller/client.py"],
     [("source -> handler -> queue -> worker", "controller/")],
     None, ["calls of reconcile(); cache reads inside it"])

prop("C51", "Reconciles are serial per object and failures are retried with backoff",
     "Two reconciles of the same request never overlap and at most the configured number run at once. A reconcile that raises, or asks for requeueing, is repeated after the rate limiter's delay, growing with consecutive failures; one that asks to be repeated after a time is repeated no earlier than that and has its failures forgotten; one that succeeds is not repeated unless triggered and has its failures forgotten. Items that are not requests are discarded, and no failure of a reconcile (any exception but a cancellation, or a result that is none) ends a worker or blocks later requests.",
     ["histories", "fault_sequences", "schedules"],
     "all sequences of triggers and reconcile outcomes (success, error, requeue, requeue-after), durations and worker counts",
     "The controller package has no test at all.",
     ["controller/controller.py", "controller/reconcile.py", "workqueue/rate_limiting_queue.py"],
     [("worker loop and result handling", "controller/controller.py")])

prop("C52", "Cached reads return the mirrored object, or say clearly that they cannot",
     "Reading an object through the manager's cache returns the object last mirrored for exactly that namespace and name, raises a key error when the mirror has none, and a not-started error before the cache is started, no matter whether the type was first asked for before or after the start; a read issued during start waits until the initial list is mirrored instead of reporting objects as missing. All users of a type share one informer (one list and one watch), and a cache limited to a namespace lists and watches only there.",
     ["histories", "inputs", "schedules"],
     "all object sets (same names in different namespaces included), read times relative to start and to changes, concurrent readers, with and without a namespace",
     "The controller package has no test at all.",
     ["controller/cache.py", "controller/_deleg_map.py", "controller/_informers_map.py", "controller/_cache_reader.py", "controller/client.py"],
     [("informer map by kind and cache reader", "controller/_informers_map.py, controller/_cache_reader.py")])

prop("C53", "Event filters and request mapping are exact",
     "An event is turned into a reconcile request for its object's namespace and name if and only if every predicate accepts it, predicates being asked with the event's kind and objects; updates request both the old and the new name. A deletion is mapped the same whether it was observed directly or inferred (tombstone). Events whose objects carry no metadata are dropped without raising and without a request.",
     ["inputs"],
     "all events over typed, dict and tombstone objects, all predicate outcomes",
     "The controller package has no test at all.",
     ["controller/source.py", "controller/handler.py", "controller/event.py"],
     [("EventHandler and EnqueueRequestForObject", "controller/source.py, controller/handler.py")])

prop("C54", "The manager starts controllers after the cache is synced, and stops everything",
     "Controllers added to a manager start reconciling only after the initial list of their type is in the cache, and each gets the manager's cache injected. Cancelling the manager at any moment, or any of its runnables failing, ends it (with that error) and stops all the others: within a bounded time no reconcile, list or watch starts, watches and API clients are closed and no background task remains.",
     ["schedules", "fault_sequences", "crash_points"],
     "all cancellation times from before the first list to steady state, failing runnables, slow lists and busy reconciles, several controllers",
     "The controller package has no test at all.",
     ["controller/manager.py", "controller/controller.py", "controller/_informers_map.py"],
     [("manager start and injection", "controller/manager.py")])

prop("C55", "Caches resync, and controllers reconcile again, each period, within ten percent",
     "The informers of a cache configured with a resync period re-deliver every cached object to their handlers at intervals between 0.9 and 1.1 times that period (plus at most the informer's own check granularity), never more often, and never for a period of zero. While watches last, the controllers of a manager therefore reconcile every object that exists at least once per period, and one that hasn't changed no sooner.",
     ["configurations", "inputs"],
     "all resync periods and all values of the random jitter",
     "The controller package has no test at all; the jitter is random.",
     ["controller/_informers_map.py", "controller/cache.py", "cache/shared_informer.py"],
     [("resync period jitter", "controller/_informers_map.py")])

prop("C56", "A controller's parts get what they ask for; its sources are started as given",
     "Every reconciler, source, event handler, predicate and other runnable handed to a manager's controller (or the manager itself) that has inject_cache receives the manager's cache, and every one that has inject_func receives a function that does the same for its own parts, before it is used. When the manager is started each source is started once, in the order given, with exactly its handler and predicates and its controller's own queue, which no other controller shares; a controller reconciles only after all its sources have started, and reconciles exactly what was put into its queue. A source that fails to start fails the manager with that error. No controller reconciles before its manager's cache has synced, and a controller whose cache cannot be synced fails.",
     ["inputs", "schedules", "faults"],
     "all combinations of parts asking for injection, shared or not between controllers, any number of controllers and sources, slow, failing and eagerly adding sources",
     "There are no tests of the controller package.",
     ["controller/controller.py", "controller/manager.py", "controller/source.py"],
     [("set_fields / inject_func", "controller/manager.py, controller/controller.py"), ("starting of sources", "controller/controller.py start")],
     None, ["inject_cache / inject_func / source.start / reconcile calls"])

prop("C57", "The cache mirrors several kinds of objects, each by itself",
     "A controllers' cache that is asked for several kinds of objects, by controllers or by reads, mirrors each of them: a read gives the object of the kind asked for, never one of the same name and another kind, and eventually the version the server has; every change of an object leads to a reconcile, that sees it, by the controllers of its kind and of no other. Controllers are started only when the caches of all kinds known by then are synced. A kind that is first asked for after the start is mirrored from then on, and the first read answers with a state no older than the read. Failing, slow or expired lists and watches of one kind do not delay reconciles and reads of another. However many controllers and readers use a kind, it is listed once and has one open watch while nothing fails; kinds nobody asked for are not listed at all; and once the manager has ended, no watch, connection pool or task of any kind is left.",
     ["inputs", "schedules", "faults"],
     "any assignment of controllers, reads and changes to kinds, names shared between kinds, any faults of the lists and watches of some of them",
     "There are no tests of the controller package.",
     ["controller/_informers_map.py", "controller/cache.py", "controller/client.py", "controller/_deleg_map.py"],
     [("start / get / has_synced_funcs", "controller/_informers_map.py"), ("rest_client_for_gvk / gvk_for_object", "controller/client.py")],
     None, ["cache.get, reconcile calls, requests and streams at the fake API server, per kind"])

# ------------------------------------------------------------------ leader election
prop("C60", "At most one candidate leads at a time",
     "For any number of candidates sharing a lock whose writes are conditional on the version read, with any crashes, restarts, cancellations, failed or slow lock requests, two candidates are never leading at once, provided lease_duration exceeds renew_deadline plus retry_period plus request latency. A candidate takes a lock held by another only after observing it unchanged for the lease duration, and a leader that cannot renew stops leading within the renew deadline of starting to try. Configurations with a lease duration not above the renew deadline, a renew deadline not above 1.2 retry periods, durations not positive, or without lock or started/stopped callbacks are refused.",
     ["fault_sequences", "schedules", "crash_points"],
     "all interleavings of candidates, request failures and latencies, lost replies, crashes and cancellations",
     "The leader election package has no test at all.",
     ["leaderelection/leaderelection.py"],
     [("try_acquire_or_renew and renew deadline", "leaderelection/leaderelection.py")],
     [("observed record and time", "last seen lock record and when it was first seen", "leaderelection/leaderelection.py")],
     ["intervals between on_started_leading and on_stopped_leading"])

prop("C61", "Leadership is acquired, kept, handed over and reported",
     "A candidate facing a free, expired or released lock becomes leader, and a leader whose renewals succeed often enough keeps leading and renewing until cancelled. A record that cannot be understood only delays: a candidate keeps trying and acquires the lock once its record is usable, and a leader goes on unless it stays so past the renew deadline. When a leader stops or crashes some other candidate takes over within the lease duration plus retry time, or at once if the lock was released. Each candidate calls its started callback once per term and only after acquiring, its stopped callback exactly once when its run ends, and its new-leader callback once for each change of observed leader with the right identity; acquisition time and transition count in the record change only when leadership does. Whatever its stopped callback does, a run ends only after the work it started has, and then releases the lock if it is to. A run that has ended, and whose callbacks have returned, leaves nothing running.",
     ["fault_sequences", "schedules", "histories"],
     "all candidate sets, timings, tolerable failure patterns, crashes, cancellations and releases",
     "The leader election package has no test at all.",
     ["leaderelection/leaderelection.py"],
     [("run/acquire/renew/release", "leaderelection/leaderelection.py")])

prop("C62", "The config-map lock stores the record faithfully and touches nothing else",
     "A record written through the config-map lock is read back equal by every client; an absent config map reads as no record and can be created, and one that exists without a record can be taken over by an update. Updates are conditional on the version read, so of concurrent writers only one succeeds and the others see an error, and the config map's other data, labels and annotations are left as they were.",
     ["inputs", "histories", "schedules"],
     "all records, pre-existing config maps and interleavings of get/create/update by several clients",
     "The leader election package has no test at all.",
     ["leaderelection/resourcelock.py"],
     [("annotation on a config map replaced with its resource version", "leaderelection/resourcelock.py")])

prop("C63", "Only the leading replica reconciles, and hand-overs miss no change",
     "If several replicas each run a manager as the work of a leader elector on the same lock, then at no moment do reconciles of two replicas overlap, and while a replica reconciles the lock names it as holder — through cancellations, lost leases and unavailable locks. As long as some replica keeps running, in the end some replica leads and the last reconcile of every object that exists has seen its current state, however often leadership changed; changes are reconciled by the leader alone; and when a replica ends, nothing of it is left running, and another takes over.",
     ["histories", "schedules", "faults"],
     "all numbers of replicas, moments of cancellation, lock outages, pod changes, list and watch faults, reconcile durations and results, for lease durations that exceed renew deadline, retry period, latency and clean-up time",
     "There are no tests of leader election or of the manager, let alone of both together.",
     ["leaderelection/leaderelection.py", "leaderelection/resourcelock.py", "controller/manager.py", "controller/controller.py"],
     [("running and cancelling the work of the leader", "leaderelection/leaderelection.py"), ("stopping everything on cancellation", "controller/manager.py")],
     None, ["reconcile calls of all replicas", "the stored lock", "requests"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

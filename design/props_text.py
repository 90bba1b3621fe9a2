"""Per property: (oracle, why this reaches what the tests cannot)."""
D = {
"C01": ("A dict plus recomputation of all index functions over its values; every query of every index is compared after every operation, and after every concurrent batch (any order of its writes is accepted, but contents and indexes must agree).",
        "Index functions with repeated, missing and overlapping values, and keys moving between values, are generated, not hand-picked."),
"C02": ("Metamorphic: all accessors must give the same for the model object, the attribute object, the dict and the tombstone built from one description; plus the description itself as expected value; things that are not objects must be refused.",
        "Representation bugs appear only for combinations (dict and cluster-scoped and core group); the generator takes the product."),
"C03": ("A reference FIFO (pending map in order, waiting poppers), compared after each operation; in the concurrent test, per-key histories: each pop returns the latest object, each pending period is handed out once.",
        "Poppers blocked while keys are replaced, deleted and re-added, requeued failures."),
"C04": ("A reference delta queue: per key the list of changes since the last pop with the documented compression of adjacent deletions; concurrent: the concatenation of what was popped per key is the accepted sequence.",
        "Replacements against known objects with pending deltas of every kind."),
"C05": ("After a replacement and full drain the consumer's store equals the listed objects, and every object in it has the listed version.",
        "The interesting states are those between the queue and the consumer's store, which only histories with a lagging consumer reach."),
"C06": ("has_synced may be true only after every initial item was processed (sampled at each scheduling step), must be true soon after, and never turns false.",
        "Processing is in flight for a generated time, so a check one step too early is seen."),
"C07": ("Per key: after failures stop, the last thing processed is the newest version written; each failure is either retried (requeue) or reported once.",
        "New versions and deletions arrive at every moment of a failing processing."),
"C08": ("Convergence: within the bound that the plan and the documented pauses allow after the server heals, the store equals the server, and follows later changes.",
        "Fault plans over successive list and watch requests, expiries in between; tests never fail a watch."),
"C09": ("The server's log: each watch must begin at the version of the last event delivered to the store (or a later bookmark), the store writes must be the log without gap, repetition or reordering; the reported version is never ahead of a completed store write.",
        "Watches end after each possible number of events, also with slow store writes and bookmarks."),
"C10": ("The store writes must be exactly those of the good events; the watch must not be given up for bad ones.",
        "Bad events of every kind are mixed into a stream at generated places."),
"C11": ("A schedule computed from period, should-resync answers, durations and reconnections: store.resync calls must match it.",
        "Ten-hour periods, interplay of resync with relisting and with slow writes."),
"C12": ("Per handler: its notifications replayed over an empty map give at each moment a legal earlier state, and in the end the cache, which equals the server; old objects are the previously reported ones.",
        "Relists with missed deletions and re-creations, several handlers with different speeds and resync periods."),
"C13": ("For a handler added at any time: first the then current objects once each, then each later change, no change lost, doubled or older.",
        "Registration in the middle of a burst, while the informer is processing, from a callback."),
"C14": ("The prompt handler's reception times must not depend on the others; the slow ones still get everything in order, without bound on the backlog (bursts over 1000).",
        "Timing isolation is only visible with exact virtual time."),
"C15": ("Per handler, the times of its sync notifications must be its own multiples, rounded as documented to the check period.",
        "Periods that do not divide each other, registration during a run, hours of virtual time."),
"C16": ("After cancellation: it ends promptly, no request, watch, timer or task is left, nothing is delivered any more, and what was cancelled is reported as cancelled.",
        "The moment of cancellation is a time plus a number of scheduling steps, so each await is hit."),
"C17": ("The callbacks replayed equal the store at every callback and the server in the end.",
        "As C12, for the basic informer, also with absent handler functions and callbacks that raise."),
"C20": ("A reference work queue after every operation; concurrent: no item processed twice at a time, every addition is followed by a hand-out that began after it, length and shutdown as the model.",
        "Additions during processing with several consumers at every offset."),
"C21": ("Per item the earliest pending deadline; hand-outs must come exactly then. With a fake clock moved while adds are under way: never early, none lost.",
        "Up to 2500 delayed adds at once, which exceeds the internal buffers; order of nearly equal deadlines."),
"C22": ("A model of shut-down queues: which gets return what, that additions afterwards are ignored, nothing blocks, no task stays.",
        "Shutdowns at every point of a history, twice, concurrently, with waiting consumers and pending delays."),
"C23": ("Exact rational arithmetic (fractions).", "Thousands of failures (overflow), extreme bases and caps."),
"C24": ("A token bucket in exact arithmetic plus a counting oracle: no window admits more than burst + rate x length.",
        "Wall clock set backwards, bursts and long gaps."),
"C25": ("Reference limiters of our own next to the queue's; hand-out times per item must equal addition plus delay, merged to the earliest.",
        "Mixed ways of adding an item while it is processed, waiting or delayed."),
"C26": ("No take waits while an item is left; what was added and what was taken agree, each once; no more tasks run at the end than at first, none after the shutdown.",
        "Calls cancelled after any number of scheduling steps, at the very moment of being woken too."),
"C30": ("Per watcher: prefix then all events sent from its registration to the shutdown, in order, exactly once.",
        "Registration during a blocked send, impatient consumers whose waits are cancelled."),
"C31": ("Sends never take time; per watcher, an event is dropped only if its buffer was full at that moment; the rest in order.",
        "The buffer state is known exactly because time and consumers are the harness's."),
"C32": ("Stop never blocks; other watchers keep contiguous sequences; a stopped watcher ends after what it had.",
        "Stops while a send is held up by the same or another watcher."),
"C33": ("A send returns only when its event was taken; events are taken in the order of the sends; stop releases all.",
        "Overlapping senders, consumers giving up exactly then."),
"C34": ("A list plus the events of a watch from its version, replayed, equals the source's state, untouched by vandalism of returned objects.",
        "Versions from any earlier list, dropped changes in between."),
"C35": ("Every call ends; per watcher, what was sent since it began watching, contiguous to the end; watchers agree on the sends given up.",
        "Calls cancelled after any number of scheduling steps, among blocked sends and slow consumers."),
"C40": ("A reference clock with timers and tickers, compared after every operation.", "Long and backward steps across several periods."),
"C41": ("A reference backoff; retries: number, times and result of the attempts.", "Caps in the middle of a run, zero and negative steps, jitter ranges, exceptions."),
"C42": ("Call times computed from period, jitter bound, durations and the stop moment; the tasks left when the loop has ended.", "Stops at every phase, calls longer than the period."),
"C50": ("In the end, and promptly after a late change, the last reconcile of each object must have read the server's current version (or its absence).",
        "Everything together: real API client, faults, relists, retries, slow reconcilers, several controllers on one cache."),
"C51": ("The recorded history is replayed in a model of work queue and rate limiter: each reconcile needs a reason, each reason leads to one at the right time.",
        "Requests during reconciles, failure sequences up to the cap, all kinds of results."),
"C52": ("A read returns the object the informer holds; at quiet moments the server's; before the start it says so; during the first list it waits.",
        "Reads at every offset around start and first list, cancelled reads, objects without a namespace."),
"C53": ("A reference mapping from event and predicate answers to requests.", "All object forms, odd metadata, up to three predicates with any answers."),
"C54": ("Order of start (sync first), and after the end: no task, no client pool, no watch open, the right exception reported.",
        "Cancellation at each scheduling step of start-up, run and failure."),
"C55": ("Sync notifications of each object must be spaced within 0.9 to 1.1 of the period (and the informer's rounding); the reconciles of managers running for several periods are judged the same way.", "Ten-hour periods cost nothing in virtual time; the random jitter is set to its extremes."),
"C60": ("Mutual exclusion over the recorded intervals in which each candidate's work runs; configurations that cannot guarantee it must be refused.",
        "Skewed clocks, lost and late writes, restarts, margins of a few hundredths of a retry period."),
"C61": ("A monitor over writes, callbacks and ticks: acquisition, renewal, hand-over times, transition counts, reported leaders, tasks left by ended runs; records that make no sense, before and during leadership.",
        "As C60; liveness bounds are exact in virtual time."),
"C62": ("A model of the config map: every stored map must equal the previous one with the record annotation replaced, conditional on the version read.",
        "Other writers between read and write, lost replies, odd records."),
"C18": ("The index functions applied to the cached objects, at the same moment as the query.",
        "Queries inside callbacks meet the cache in the middle of relists."),
"C56": ("The recorded calls of inject_cache, inject_func and start against what was handed over; requests added per queue against requests reconciled per controller.",
        "Combinations of parts with and without each method, nested and shared."),
"C57": ("The fake API server serves three kinds with equal names but disjoint versions; each read and reconcile is compared with the server's history of that kind, the requests per kind are counted, and pods, which never fail, must be reconciled at once whatever the others do.",
        "Slow and failing kinds next to healthy ones, kinds first read at any moment, several controllers of one kind."),
"C63": ("Overlap of recorded reconciles across replicas, the lock's stored holder at each start and end of a reconcile, and for each object the version read by its last reconcile.",
        "Hand-overs at any point of a reconcile, a list, a watch or a renewal, with the real client below both."),
}

"""C51: reconciles are serial per object, failures are retried with backoff."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.controllers import Reconciler
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.controller import controller, manager, reconcile

RULE = (
    "A case is a controller with one to three workers, a source that puts generated requests (and items that are no "
    "requests) into its queue at generated times, and a sequence of reconcile durations and outcomes. The history of "
    "calls is replayed in a model of queue and rate limiter. Non-trivial: a request came while its object was being "
    "reconciled, or at least two failures in a row, or a requeue-after."
)
ASSUMPTIONS = [
    "less than 100 retries in a row, so that the overall rate limit of the default limiter does not show",
    "reconciles fail with ordinary exceptions, not with CancelledError",
    "after a failed reconcile a worker may rest for the jitter period of the controller (1 s)",
]
KEYS = [("ns", "a"), ("ns", "b"), ("", "a")]
JUNK = ["junk", 7, None, ("ns", "a"), frozenset([1])]
EPS = 1e-3


class Source:
    def __init__(self):
        self.queue = None

    async def start(self, handler, queue, *predicates):
        self.queue = queue


def request(key):
    return reconcile.Request(reconcile.NamespacedName(*key))


def judge(log, workers, end):
    """Replay the history: log of (time, "add" | "start" | "end", key, outcome) in order."""
    labels = set()
    spans, open_ = [], {}  # [key, start, end]
    rests = []
    for t, what, key, outcome in log:
        if what == "start":
            open_[key] = [key, t, None]
            spans.append(open_[key])
        elif what == "end":
            open_[key][2] = t
            if outcome == "raise":
                rests.append(t)
    for key in {e[2] for e in log}:
        failures = 0
        due = None  # time of the pending delayed addition
        dirty = None  # waiting since
        running, ran_until = False, 0
        mine = [e for e in log if e[2] == key] + [(end, "finish", key, None)]
        for n, (t, what, _, outcome) in enumerate(mine):
            where = f"history of {key}: {[(round(e[0], 4),) + e[1:2] + e[3:] for e in mine[max(0, n - 8):n + 1]]}"
            if due is not None and due <= t - EPS:
                dirty = due if dirty is None else dirty
                due = None
            if due is not None and due < t + EPS and (what != "start" or dirty is not None):
                labels.add("coincidence")
                break  # cannot tell which came first
            if what == "add":
                if running:
                    labels.add("while_running")
                dirty = t if dirty is None else dirty
            elif what == "start":
                if dirty is None and due is not None and due < t + EPS:
                    dirty, due = due, None
                if dirty is None:
                    raise Violation(f"reconciled for no reason or too early; delayed request due at {due}; {where}")
                since = max(dirty, ran_until)
                others = [o for o in spans if o[0] != key and o[1] < t and o[2] > since - EPS]
                resting = [r for r in rests if since - 1.1 <= r <= t]
                if t > since + 0.01:
                    if len(others) < workers and not resting:
                        raise Violation(f"was ready at {since}, yet reconciled only at {t} though a worker was idle; {where}")
                    if t > since + sum(o[2] - o[1] for o in others) + 1.05 * (len(resting) + 1):
                        raise Violation(f"was ready at {since}, yet reconciled only at {t}; {where}")
                    labels.add("waited")
                dirty, running = None, True
            elif what == "end":
                running, ran_until = False, t
                if outcome == "ok":
                    failures = 0
                elif outcome in ("raise", "requeue"):
                    delay = min(0.005 * 2**failures, 1000)
                    failures += 1
                    if failures > 1:
                        labels.add("failures_in_a_row")
                    if failures > 18:
                        labels.add("longest_delay")
                    due = t + delay if due is None else min(due, t + delay)
                else:
                    # the given delay counts, whether or not a requeue is asked for as well
                    if isinstance(outcome, list):
                        outcome = outcome[1]
                    failures = 0
                    labels.add("requeue_after")
                    due = t + outcome / 64 if due is None else min(due, t + outcome / 64)
            elif dirty is not None or due is not None:
                raise Violation(f"was ready at {dirty or due}, yet never reconciled; {where}")
    return labels


def run(case):
    async def main():
        ctx = Ctx()
        mgr = manager.new()
        log = []

        class R(Reconciler):
            async def reconcile(self, req):
                key = tuple(req.namespaced_name) if type(req) is reconcile.Request else None
                if key is not None:
                    log.append((now(), "start", key, None))
                n = len(self.calls)
                try:
                    return await super().reconcile(req)
                finally:
                    if key is not None:
                        log.append((now(), "end", key, self.calls[n]["outcome"]))

            async def read(self, nn):
                return None

        behaviour = [b for d, o, times in case["behaviour"] for b in [[d, o]] * times]
        r = R(ctx, None, behaviour)
        c = controller.new(mgr, reconciler=r)
        c.max_concurrent_reconciles = case["workers"]
        src = Source()
        await c.watch(src, object())
        t = asyncio.ensure_future(mgr.start())
        await asyncio.sleep(0.5)
        if src.queue is None:
            raise Violation("the source was not started")
        junk = 0
        for i, (d, what) in enumerate(case["adds"]):
            await pause(d)
            if d > 0:
                await asyncio.sleep(0.0021)
            if isinstance(what, int):
                await src.queue.add(JUNK[what])
                junk += 1
            else:
                log.append((now(), "add", tuple(what), None))
                await src.queue.add(request(what))
        n = -1
        while n != len(log):
            n = len(log)
            await asyncio.sleep(1010)
        ctx.raise_if_any()
        if t.done():
            raise Violation(f"the manager ended: {t!r}")
        if r.active:
            raise Violation("a reconcile never ended")
        labels = judge(log, case["workers"], now())
        if r.most > case["workers"]:
            raise Violation(f"{r.most} reconciles at once with {case['workers']} workers")
        r.behaviour = []
        # every key is served promptly at the end
        for key in KEYS:
            n = len(r.calls)
            await src.queue.add(request(key))
            await asyncio.sleep(0.1)
            if [c["key"] for c in r.calls[n:]] != [key]:
                raise Violation(f"adding {key} at the end led to reconciles of {[c['key'] for c in r.calls[n:]]}")
        if len(src.queue) != 0:
            raise Violation(f"{len(src.queue)} items were never taken from the queue")
        if junk:
            labels.add("junk")
        if r.most > 1:
            labels.add("concurrent")
        return bool(labels & {"while_running", "failures_in_a_row", "requeue_after"}), labels

    return vrun(main, max_time=1e6)


def survive(case):
    async def main():
        ctx = Ctx()
        mgr = manager.new()
        r = Reconciler(ctx, None, case["behaviour"])

        async def read(nn):
            return None

        r.read = read
        c = controller.new(mgr, reconciler=r)
        c.max_concurrent_reconciles = case["workers"]
        src = Source()
        await c.watch(src, object())
        t = asyncio.ensure_future(mgr.start())
        await asyncio.sleep(0.5)
        for d, what in case["adds"]:
            await pause(d)
            await src.queue.add(JUNK[what] if isinstance(what, int) else request(what))
        await asyncio.sleep(400)
        ctx.raise_if_any()
        if t.done():
            raise Violation(f"the manager ended: {t!r}")
        odd = any(x["outcome"] in ("none", "odd") for x in r.calls)
        r.behaviour = []
        n = len(r.calls)
        for key in KEYS:
            await src.queue.add(request(key))
        await asyncio.sleep(0.1)
        if sorted(x["key"] for x in r.calls[n:]) != sorted(KEYS):
            raise Violation(f"adding all keys led to reconciles of {[x['key'] for x in r.calls[n:]]}")
        return odd, ["odd"] if odd else []

    return vrun(main, max_time=1e6)


behaviour = st.tuples(
    st.sampled_from([-1, -1, 0, 1, 20, 130]),
    weighted((2, st.just("ok")), (3, st.just("raise")), (2, st.just("requeue")), (1, st.sampled_from([1, 16, 64, 300, ["both", 16], ["both", 64]]))),
    st.one_of(st.integers(1, 3), st.integers(1, 12), st.just(1))).map(list)
adds = history(st.tuples(st.sampled_from([-1, -1, 0, 1, 10, 64, 200]),
                         weighted((7, st.sampled_from(KEYS).map(list)), (1, st.integers(0, len(JUNK) - 1)))).map(list), 14)
cases = st.fixed_dictionaries(dict(
    workers=st.sampled_from([1, 1, 2, 3]), adds=adds,
    behaviour=st.lists(behaviour, max_size=7).map(lambda bs: bs if sum(b[2] for b in bs) <= 45 else bs[:3])))

TESTS = [Test("retry", cases, run, quick=2000, thorough=80_000),
         Test("survive", st.fixed_dictionaries(dict(
             workers=st.sampled_from([1, 1, 2, 3]), adds=adds,
             behaviour=st.lists(st.tuples(st.sampled_from([-1, 0, 20]),
                                          st.sampled_from(["none", "odd", "raise", "ok", "requeue", 64])).map(list),
                                max_size=12))), survive, quick=400, thorough=10_000)]

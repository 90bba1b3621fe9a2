"""C56: the parts of a controller get what they ask for, and its sources are started as they were given."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.failures import pick, variants
from vf.gen import weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.controller import controller, manager, reconcile

RULE = (
    "A case is a manager with one to three controllers and up to two other runnables. Each controller has a reconciler and "
    "up to four sources, handlers and sets of predicates, each of which asks for the cache, for the injecting function (to "
    "have parts of its own injected), for both or for neither, and some of which are shared between controllers. Sources "
    "take generated times to start, put requests into the queue before, while and after they start, or fail. "
    "A second test runs controllers for a manager whose cache takes a while to be synced or cannot be. "
    "Non-trivial: a cache that takes time and a request, or at least two sources, one of which put something into its queue while another was being started."
)
ASSUMPTIONS = ["parts are given to controllers before the manager is started"]


class SourceError(Exception):
    pass


ERRORS = variants(SourceError)


class Base:
    def __init__(self, world, name, child=None):
        self.world, self.name, self.child = world, name, child
        self.caches, self.funcs = [], []

    def __repr__(self):
        return self.name

    def parts(self):
        return [self] + (self.child.parts() if self.child is not None else [])


def part(world, name, asks, child=None, cls=Base):
    """asks: c(ache), f(unction)"""
    members = {}
    if "c" in asks:
        def inject_cache(self, cache):
            self.caches.append(cache)

        members["inject_cache"] = inject_cache
    if "f" in asks:
        def inject_func(self, f):
            self.funcs.append(f)
            if self.child is not None:
                f(self.child)

        members["inject_func"] = inject_func
    p = type("Part", (cls,), members)(world, name, child)
    p.asks = asks
    return p


class Source(Base):
    conf = None

    async def start(self, handler, queue, *predicates):
        w = self.world
        w.log.append((now(), "start", self, handler, queue, predicates))
        for p in [self, handler, *predicates]:
            w.check_injected(p, f"when {self} was started")
        duration, fail, adds = self.conf
        w.starting += 1

        async def feed(n, after):
            await pause(after)
            key = reconcile.Request(reconcile.NamespacedName(self.name, f"r{n}"))
            w.added.append((queue, key))
            if w.starting:
                w.labels.add("while_starting")
            await queue.add(key)

        first = [feed(n, a) for n, a in enumerate(adds) if a < 0]
        rest = [asyncio.ensure_future(feed(n, a)) for n, a in enumerate(adds) if a >= 0]
        w.background.update(rest)
        for f in first:
            await f
        try:
            await pause(duration)
            if fail:
                w.error = w.error or pick(ERRORS, duration)(f"{self} cannot start")
                raise w.error
        finally:
            w.starting -= 1
            w.log.append((now(), "started", self, handler, queue, predicates))


class Reconciler(Base):
    async def reconcile(self, request):
        self.world.reconciles.append((now(), self, request))
        self.world.check_injected(self, "when it reconciled")
        return reconcile.Result()


class Runnable(Base):
    async def start(self):
        self.world.check_injected(self, "when it was started")
        self.world.ran.append(self)
        await asyncio.sleep(1e9)


class World:
    def __init__(self, ctx, mgr):
        self.ctx, self.mgr = ctx, mgr
        self.log, self.added, self.reconciles, self.ran = [], [], [], []
        self.labels, self.background = set(), set()
        self.starting = 0
        self.error = None

    def check_injected(self, p, when):
        for x in p.parts():
            if "c" in x.asks and (not x.caches or any(c is not self.mgr.get_cache() for c in x.caches)):
                self.ctx.fail(f"{x} has been given the caches {x.caches} {when}")
            if "f" in x.asks and not x.funcs:
                self.ctx.fail(f"{x} has not been given the injecting function {when}")
            if "f" not in x.asks:
                break  # nobody told it to pass anything on to its child


def run(case):
    async def main():
        ctx = Ctx()
        mgr = manager.new()
        w = World(ctx, mgr)
        shared = {}

        def make(conf, name, cls=Base):
            asks, inner = conf
            child = part(w, name + "'s part", inner) if inner is not None else None
            return part(w, name, asks, child, cls)

        cs = []
        watches = []  # per controller
        for i, c in enumerate(case["controllers"]):
            r = make(c["reconciler"], f"reconciler {i}", Reconciler)
            k = controller.new(mgr, reconciler=r)
            w.check_injected(r, "when its controller was made")
            cs.append((k, r))
            watches.append([])
        for j, (i, s_conf, s_how, h_conf, p_confs, reuse) in enumerate(case["watches"]):
            i %= len(cs)
            src = make(s_conf, f"source-{j}", Source)
            src.conf = s_how
            h = shared.get("h") if reuse and "h" in shared else make(h_conf, f"handler {j}")
            ps = shared.get("p") if reuse and "p" in shared else [make(p, f"predicate {j}.{n}") for n, p in enumerate(p_confs)]
            shared.update(h=h, p=ps)
            await cs[i][0].watch(src, h, *ps)
            for p in [src, h, *ps]:
                w.check_injected(p, "when the controller had been told to watch")
            watches[i].append((src, h, tuple(ps)))
        others = []
        for n, conf in enumerate(case["others"]):
            o = make(conf, f"runnable {n}", Runnable)
            mgr.add(o)
            others.append(o)
        t = asyncio.ensure_future(mgr.start())
        await asyncio.sleep(30)
        ctx.raise_if_any()
        # sources: each once, in the order given, with what was given
        queues = []
        failed = w.error is not None
        for (k, r), ws in zip(cs, watches):
            starts = [e for e in w.log if e[1] == "start" and e[2] in [s for s, _, _ in ws]]
            got = [(e[2], e[3], tuple(e[5])) for e in starts]
            n = len(got)
            if any(a is not b or c is not d or len(e) != len(f) or any(x is not y for x, y in zip(e, f))
                   for (a, c, e), (b, d, f) in zip(got, ws)) or n > len(ws) or n < len(ws) and not failed:
                raise Violation(f"started {got}, expected {ws}")
            qs = {id(e[4]): e[4] for e in starts}
            if len(qs) > 1:
                raise Violation("the sources of a controller were given different queues")
            queues.append(next(iter(qs.values()), None))
            first = min([x[0] for x in w.reconciles if x[1] is r], default=None)
            if first is not None:
                ends = [e[0] for e in w.log if e[1] == "started" and e[2] in [s for s, _, _ in ws]]
                if len(ends) < len(ws) or max(ends) > first + 1e-9:
                    raise Violation(f"{r} reconciles at {first}, its sources have started at {ends}")
        if len({id(q) for q in queues if q is not None}) != len([q for q in queues if q is not None]):
            raise Violation("two controllers share a queue")
        if failed:
            if not t.done() or t.exception() is not w.error:
                raise Violation(f"{w.error}, but {t!r}")
            w.labels.add("failed")
        else:
            if t.done():
                raise Violation(f"the manager ended: {t!r}")
            if sorted(map(str, w.ran)) != sorted(map(str, others)):
                raise Violation(f"started {w.ran}, expected {others}")
            # every request is reconciled, by the right reconciler
            for (k, r), q in zip(cs, queues):
                want = {key for qq, key in w.added if qq is q}
                have = [x[2] for x in w.reconciles if x[1] is r]
                if set(have) != want or len(have) != len(want):
                    raise Violation(f"{r} was asked for {have}, its sources added {want}")
            t.cancel()
            await asyncio.wait([t], timeout=1)
            if not t.cancelled():
                raise Violation(f"cancelled, but {t!r}")
        for b in w.background:
            b.cancel()
        n = len(w.reconciles)
        await asyncio.sleep(5)
        ctx.raise_if_any()
        if len(w.reconciles) != n:
            raise Violation("reconciles after the end")
        return "while_starting" in w.labels and len(case["watches"]) > 1, w.labels

    return vrun(main, max_time=1e5)


class SlowCache:
    """Stands for the cache of a manager: synced after a while, or never."""

    def __init__(self, ctx, after, ok):
        self.after, self.ok, self.asked = after, ok, 0
        self.synced_at = None

    async def wait_for_cache_sync(self):
        self.asked += 1
        await pause(self.after)
        if self.ok and self.synced_at is None:
            self.synced_at = now()
        return self.ok


class Manager:
    """A manager of somebody else's: injects its cache and collects what to run."""

    def __init__(self, cache):
        self.cache, self.runnables = cache, []

    def add(self, runnable):
        self.set_fields(runnable)
        self.runnables.append(runnable)

    def set_fields(self, i):
        if hasattr(i, "inject_cache"):
            i.inject_cache(self.cache)
        if hasattr(i, "inject_func"):
            i.inject_func(self.set_fields)

    def get_cache(self):
        return self.cache


def run_sync(case):
    async def main():
        ctx = Ctx()
        cache = SlowCache(ctx, case["after"], case["ok"])
        mgr = Manager(cache)
        w = World(ctx, mgr)
        rs, added = [], []
        for i, adds in enumerate(case["controllers"]):
            r = part(w, f"reconciler {i}", "c", None, Reconciler)
            k = controller.new(mgr, reconciler=r)
            if not mgr.runnables or mgr.runnables[-1] is not k:
                raise Violation(f"the manager was not given {k!r}")
            src = part(w, f"source {i}", "c", None, Source)
            src.conf = (case["duration"], False, adds)
            await k.watch(src, part(w, f"handler {i}", ""))
            rs.append((r, len(adds)))
        if len(mgr.runnables) != len(rs):
            raise Violation(f"{len(rs)} controllers, the manager was given {mgr.runnables}")
        ts = [asyncio.ensure_future(k.start()) for k in mgr.runnables]
        await asyncio.sleep(30)
        ctx.raise_if_any()
        starts = [e for e in w.log if e[1] == "start"]
        if len(starts) != len(rs):
            raise Violation(f"{len(rs)} sources, started: {starts}")
        early = [x for x in w.reconciles if cache.synced_at is None or x[0] < cache.synced_at - 1e-9]
        if early:
            raise Violation(f"reconciles {early} before the cache was synced (at {cache.synced_at})")
        for (r, n), t in zip(rs, ts):
            have = [x for x in w.reconciles if x[1] is r]
            if case["ok"]:
                if t.done():
                    raise Violation(f"the controller of {r} ended: {t!r}")
                if len(have) != n:
                    raise Violation(f"{r} reconciled {have}, {n} requests were made")
            elif not t.done() or t.cancelled() or t.exception() is None:
                raise Violation(f"the cache cannot be synced, but the controller of {r} did not fail: {t!r}")
            t.cancel()
        await asyncio.wait(ts, timeout=5)
        for b in w.background:
            b.cancel()
        if not all(t.done() for t in ts):
            raise Violation("a cancelled controller goes on")
        return bool(w.added) and case["after"] > 0, [f"ok={case['ok']}"]

    return vrun(main, max_time=1e5)


sync = st.fixed_dictionaries(dict(
    after=st.sampled_from([0, 1, 10, 64, 200]), ok=st.sampled_from([True, True, False]), duration=st.sampled_from([-1, 0, 10, 64]),
    controllers=st.lists(st.lists(st.sampled_from([-1, 0, 1, 10, 64]), max_size=3), min_size=1, max_size=2)))

asks = st.sampled_from(["", "c", "f", "cf", "c", "cf"])
conf = st.tuples(asks, st.one_of(st.none(), asks)).map(list)
how = st.tuples(st.sampled_from([-1, -1, 0, 1, 10, 64]), st.sampled_from([False] * 11 + [True]),
                st.lists(st.sampled_from([-1, 0, 1, 10, 64, 200]), max_size=4)).map(list)
watches = st.lists(st.tuples(st.integers(0, 2), conf, how, conf, st.lists(conf, max_size=3), st.booleans()).map(list), max_size=5)
cases = st.fixed_dictionaries(dict(
    controllers=st.lists(st.fixed_dictionaries(dict(reconciler=conf)), min_size=1, max_size=3), watches=watches,
    others=st.lists(conf, max_size=2)))

TESTS = [Test("wiring", cases, run, quick=1500, thorough=60_000), Test("sync", sync, run_sync, quick=600, thorough=20_000)]

"""C54: the manager starts controllers after the cache is synced, and stops everything."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.failures import pick, variants
from vf.apiserver import Api
from vf.controllers import PODS, Reconciler, behaviours, build
from vf.fakes import plans, steps
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import manager

RULE = (
    "A case is a manager with up to two controllers and up to three other runnables (waiting, returning, failing at a "
    "generated time, slow to clean up) on the real API client over a faulty fake API server with pod changes, and the "
    "moment of a cancellation (time and scheduling steps) or of a failure. Non-trivial: the end came while a request "
    "or a reconcile was in progress, before the sync, or from a failing runnable."
)
ASSUMPTIONS = [
    "reconciles and other runnables end when they are cancelled, at most 0.4 s later",
    "the manager is cancelled once",
    "event handlers added to the informer take at most 0.4 s",
]


class Slow:
    """An event handler that takes its time."""

    def __init__(self, ticks):
        self.ticks, self.active = ticks, 0

    async def on_add(self, obj):
        self.active += 1
        try:
            await pause(self.ticks)
        finally:
            self.active -= 1

    async def on_update(self, old, new):
        await self.on_add(new)

    on_delete = on_add


class RunnableError(Exception):
    pass


ERRORS = variants(RunnableError)


class Runnable:
    """how: wait | return | fail, after `ticks`/64 s; when cancelled cleans up for `cleanup`/64 s."""

    def __init__(self, how, ticks, cleanup, on_start):
        self.how, self.ticks, self.cleanup, self.on_start = how, ticks, cleanup, on_start
        self.injected, self.started, self.ended = [], [], []
        self.error = None

    def inject_cache(self, cache):
        self.injected.append(cache)

    async def start(self):
        self.started.append(now())
        self.on_start()
        try:
            await (asyncio.sleep(1e9) if self.how == "wait" else pause(self.ticks))
            if self.how == "fail":
                self.error = pick(ERRORS, self.ticks)("runnable failed")
                raise self.error
        except asyncio.CancelledError:
            await pause(self.cleanup)
            raise
        finally:
            self.ended.append(now())


def run(case):
    async def main():
        ctx = Ctx()
        base = set(asyncio.all_tasks())
        api = Api(case["plan"], exc=case["exc"])
        srv = api.pods
        for k in case["initial"]:
            srv.put(k)
        mgr = manager.new()
        rs, others = [], []
        state = dict(snapshot=None)

        def deleted_after(rv):
            return {(o["metadata"].get("namespace", ""), o["metadata"]["name"]) for v, ty, o in srv.log if ty == "DELETED" and v > rv}

        def synced(who):
            lists = [c for c in srv.calls if c["kind"] == "list" and c["result"] not in (None, "error") and "t_end" in c]
            if not rs:
                return  # nothing to list
            if not lists:
                ctx.fail(f"{who} at {now()} although nothing was listed yet")
                return
            rv = lists[0]["result"]
            have = {(o.metadata.namespace or "", o.metadata.name) for o in informer.get_indexer().list()}
            listed = set()
            for v, ty, o in srv.log:
                if v <= rv:
                    k = (o["metadata"].get("namespace", ""), o["metadata"]["name"])
                    (listed.add if ty in ("ADDED", "MODIFIED") else listed.discard)(k)
            missing = listed - have - deleted_after(rv)
            if missing:
                ctx.fail(f"{who} while {missing} of the first list are not in the cache")

        class R(Reconciler):
            async def reconcile(self, req):
                if not self.calls:
                    synced(f"{self.name} started reconciling")
                return await super().reconcile(req)

        informer = None
        for i, c in enumerate(case["controllers"]):
            r = R(ctx, mgr.get_cache(), c["behaviour"], f"controller {i}", c["slow_read"], c["cleanup"])
            await build(mgr, r, c["workers"])
            rs.append(r)
        if rs:
            informer = await mgr.get_cache().get_informer(client.V1Pod)
            slow = Slow(case["slow_handler"])
            if case["slow_handler"] > 0:
                await informer.add_event_handler(slow)
        for how, ticks, cleanup in case["others"]:
            o = Runnable(how, ticks, cleanup, lambda: synced("a runnable was started"))
            others.append(o)
            mgr.add(o)
        for x in rs + others:
            if not x.injected or any(c is not mgr.get_cache() for c in x.injected):
                raise Violation(f"{x} got {x.injected} injected")
        t = asyncio.ensure_future(mgr.start())

        async def drive():
            for d, op in case["script"]:
                await pause(d)
                srv.do(op)

        driver = asyncio.ensure_future(drive())
        timer = asyncio.ensure_future(asyncio.sleep(case["stop"] / 64))
        await asyncio.wait([t, timer], return_when=asyncio.FIRST_COMPLETED)
        if timer.done():
            for _ in range(case["extra"]):
                await asyncio.sleep(0)
        timer.cancel()
        ctx.raise_if_any()
        labels = set()
        if any(c["result"] is None for c in srv.calls):
            labels.add("request_in_flight")
        if any(r.active for r in rs):
            labels.add("reconciling")
        if rs and slow.active:
            labels.add("handling")
        failed = [o.error for o in others if o.error is not None]
        if not rs and not others:
            labels.add("idle")
        elif not any(r.calls for r in rs) and not any(o.started for o in others):
            labels.add("before_sync")
        end = now()
        if not t.done():
            t.cancel()
            labels.add("cancelled")
        await asyncio.wait([t], timeout=0.5)
        if not t.done():
            raise Violation(f"the manager has not ended 0.5 s after its end began at {end}")
        if t.cancelled():
            if "cancelled" not in labels:
                raise Violation("the manager ended as if cancelled")
        elif t.exception() is None:
            if rs or any(o.how != "return" for o in others) or "cancelled" in labels:
                raise Violation("the manager ended by itself")
        else:
            failed = [o.error for o in others if o.error is not None]
            if t.exception() not in failed:
                raise Violation(f"the manager ended with {t.exception()!r}, runnables failed with {failed}")
            labels.add("failed")
        if rs and slow.active:
            raise Violation("the manager has ended while an event handler is running")
        driver.cancel()
        await settle()
        calls, requests = [len(r.calls) for r in rs], len(api.requests)
        if any(r.active for r in rs):
            raise Violation("the manager has ended while a reconcile is running")
        for o in others:
            if len(o.started) != len(o.ended):
                raise Violation("the manager has ended while a runnable is running")
            if len(o.started) > 1:
                raise Violation("a runnable was started twice")
        if srv.open_watches():
            raise Violation("a watch was left open")
        left = [x for x in asyncio.all_tasks() if x not in base and x is not driver and not x.done()]
        if left:
            raise Violation(f"left behind: {left}")
        if any(not p.closed for p in api.pools):
            raise Violation(f"{sum(not p.closed for p in api.pools)} of {len(api.pools)} API clients were left open")
        srv.put(PODS[0])
        await asyncio.sleep(1500)
        if [len(r.calls) for r in rs] != calls:
            raise Violation("a reconcile was started after the manager had ended")
        if len(api.requests) != requests:
            raise Violation("the server was asked after the manager had ended")
        for o in others:
            if o.how == "fail" and o.error is not None and "failed" not in labels and "cancelled" not in labels:
                raise Violation("the failure of a runnable was lost")
        ctx.raise_if_any()
        return bool(labels & {"request_in_flight", "reconciling", "before_sync", "failed"}), labels

    return vrun(main, max_time=1e5)


pods = st.sampled_from(PODS)
change = weighted((2, st.tuples(st.just("put"), pods).map(list)), (1, st.tuples(st.just("delete"), pods).map(list)))
op = weighted((8, change), (1, st.just(["expire", None])))
controllers = st.fixed_dictionaries(dict(
    workers=st.sampled_from([0, 0, 1, 2, 3]), behaviour=behaviours, slow_read=st.sampled_from([-1, -1, 0, 10]),
    cleanup=st.sampled_from([-1, -1, 0, 5, 20])))
others = st.tuples(st.sampled_from(["wait", "wait", "return", "fail"]), st.sampled_from([-1, 0, 1, 7, 30, 100, 200]),
                   st.sampled_from([-1, -1, 0, 5, 20])).map(list)
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), exc=st.integers(0, 5), initial=st.lists(pods, max_size=4),
    controllers=st.lists(controllers, min_size=0, max_size=2), others=st.lists(others, max_size=3),
    script=history(st.tuples(steps, op).map(list), 12, lo=0),
    slow_handler=st.sampled_from([-1, -1, 1, 5, 20]),
    stop=st.one_of(st.just(0), st.integers(0, 12), st.integers(5, 100), st.integers(60, 400)),
    extra=st.one_of(st.just(0), st.integers(0, 12), st.integers(12, 60))))

ALONE = ["lifecycle"]
TESTS = [Test("lifecycle", cases, run, quick=1500, thorough=60_000)]

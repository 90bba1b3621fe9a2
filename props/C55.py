"""C55: caches resync, and controllers reconcile again, each period, within ten percent."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.apiserver import Api
from vf.controllers import PODS, Reconciler, build
from vf.gen import history
from vf.resyncs import caches, run_cache
from vf.runner import Test

import asyncio
import random

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import cache, manager

RULE = (
    "A case is a cache with a resync period from 0 to 10 hours (or the default), a seed or extreme value of the random "
    "jitter, one to three handlers registered at generated times, and pod changes. Non-trivial: a period that is not "
    "zero and at least two cached pods. The second test runs managers with up to two controllers for several "
    "periods with pod changes and failing reconciles. Non-trivial: an object was reconciled without having changed. The "
    "third registers handlers on the informer and through Kind sources, before and after the start, while pods change and lists "
    "and watches fail; then several periods must pass in which nothing but resyncs happens. Non-trivial: an object and a period."
)
ASSUMPTIONS = [
    "the informer's documented minimum of one second applies to shorter periods",
    "the wall clock does not run slower than the timers",
]
DEFAULT = 36000


def run(case):
    async def main():
        asyncio.get_running_loop().rate = 1 + 1e-7
        period = case["period"]
        api = Api()
        srv = api.pods
        for k in case["initial"]:
            srv.put(k)
        if case["u"] is not None:
            real, random.random = random.random, lambda: case["u"]
        try:
            if period is None:
                c, period = cache.new(), DEFAULT
            else:
                c = cache.new(resync=period)
            inf = await c.get_informer(client.V1Pod)
        finally:
            if case["u"] is not None:
                random.random = real
        hs = []

        class H:
            def __init__(self):
                self.since = now()
                self.resyncs = []  # (time, key, cached keys)
                hs.append(self)

            async def on_add(self, o):
                pass

            async def on_delete(self, o):
                pass

            async def on_update(self, old, new):
                if old.metadata.resource_version == new.metadata.resource_version:
                    self.resyncs.append((now(), (new.metadata.namespace or "", new.metadata.name)))

        handlers = sorted(case["handlers"])
        unit = period or 100
        for at in handlers:
            if at <= 0:
                await inf.add_event_handler(H())
        t = asyncio.ensure_future(c.start())

        async def later():
            last = 0
            for at in handlers:
                if at > 0:
                    await asyncio.sleep((at - last) * unit)
                    last = at
                    await inf.add_event_handler(H())

        changed = []

        async def changes():
            for d, what, key in case["changes"]:
                await asyncio.sleep(d * unit)
                srv.do([what, key])
                changed.append(now())

        tasks = [asyncio.ensure_future(later()), asyncio.ensure_future(changes())]
        await asyncio.sleep(unit * 8)
        for x in tasks:
            x.cancel()
        end = now()
        low, high = 0.9 * period, 1.1 * period
        if period < 1.12:
            high = max(1, high) + high  # the minimum may move it to the next check
        eps = 1e-6 * (period + 1)
        n = 0
        for h in hs:
            if not period:
                if h.resyncs:
                    raise Violation(f"resynced at {h.resyncs[0]} although the period is zero")
                continue
            # one round is what comes within a hundredth of the period
            rounds = []
            for x in h.resyncs:
                if rounds and x[0] - rounds[-1][0] < period / 100:
                    rounds[-1][1].append(x[1])
                else:
                    rounds.append((x[0], [x[1]]))
            n += len(rounds)
            previous = h.since
            for at, keys in rounds:
                if len(set(keys)) != len(keys):
                    raise Violation(f"resync at {at} delivered {keys}")
                if at < previous + low - eps:
                    raise Violation(f"resync at {at}, less than 0.9 periods of {period} after {previous}")
                previous = at
            if case["initial"] and not case["changes"]:
                want = {tuple(k) for k in case["initial"]}
                # the first one may be due just after a check
                bounds = [h.since + 2 * high] + [at + high for at, _ in rounds]
                late = 0
                for (at, keys), bound in zip(rounds + [(end, want)], bounds):
                    if at > bound + eps and bound < end - eps:
                        # a check that comes at the very moment it is due may just miss
                        # it (the clock has a resolution): it is then due by the next
                        late += 1
                        if at > bound + high + eps or late > len(rounds) / 2:
                            raise Violation(f"resync due by {bound} came at {at}; period {period}")
                    if set(keys) != want:
                        raise Violation(f"resync at {at} delivered {keys}, cached are {want}")
        if t.done():
            raise Violation(f"the cache ended: {t!r}")
        labels = {"zero" if not period else "short" if period < 1.12 else "long" if period > 1000 else "medium"}
        if n:
            labels.add("resynced")
        return bool(period) and len(set(map(tuple, case["initial"]))) > 1, labels

    return vrun(main, seed=case["seed"], max_time=1e7)


def run_controller(case):
    """Each object is reconciled again every period."""
    async def main():
        asyncio.get_running_loop().rate = 1 + 1e-7
        ctx = Ctx()
        api = Api()
        api.honor = False  # watches last
        srv = api.pods
        born = {}

        def do(op):
            key = tuple(op[1])
            srv.do(op)
            if op[0] == "put":
                born.setdefault(key, now())
                changed.setdefault(key, []).append(now())
            else:
                born.pop(key, None)

        changed = {}
        for k in case["initial"]:
            do(["put", k])
        real, random.random = random.random, random.random if case["u"] is None else lambda: case["u"]
        mine, new = cache.new(resync=case["period"]), cache.new
        try:
            cache.new = lambda: mine
            mgr = manager.new()
            period = case["period"] if mgr.get_cache() is mine else DEFAULT
            rs = []
            for i, (workers, behaviour) in enumerate(case["controllers"]):
                r = Reconciler(ctx, mgr.get_cache(), behaviour, f"controller {i}")
                await build(mgr, r, workers)
                rs.append(r)
        finally:
            random.random, cache.new = real, new
        t = asyncio.ensure_future(mgr.start())
        for d, what, key in case["changes"]:
            await asyncio.sleep(d * period)
            do([what, key])
        await asyncio.sleep(case["periods"] * period)
        ctx.raise_if_any()
        if t.done():
            raise Violation(f"the manager ended: {t!r}")
        t.cancel()
        await asyncio.wait([t], timeout=5)
        end = now()
        low, high = 0.9 * period, 1.1 * period
        again = False
        for r in rs:
            for key, since in born.items():
                calls = [c for c in r.calls if c["key"] == key and c["t"] >= since]
                times = [c["t"] for c in calls]
                previous = None
                for x in times + [end]:
                    # the first resync of the cache may be due just after a check
                    late = 2 * high if previous is None or previous < 2 * high else high
                    if previous is not None and x > previous + late + 10:
                        raise Violation(f"{r.name}: {key} was reconciled at {times} and not before {x}")
                    previous = x
                if not times:
                    raise Violation(f"{r.name}: {key}, which exists since {since}, was never reconciled")
                for i, (a, b) in enumerate(zip(calls, calls[1:])):
                    if any(not isinstance(c["outcome"], str) for c in calls[:i + 1]):
                        break  # what was asked for after a time comes even if there was a reconcile since
                    if a["outcome"] == "ok" and not any(a["t"] - 1 <= c <= b["t"] for c in changed[key]):
                        again = True
                        if b["t"] < low - 10:
                            raise Violation(f"{r.name}: {key}, changed at {changed[key]}, was reconciled at {times}")
        return again, {"again"} if again else set()

    return vrun(main, seed=case["seed"], max_time=1e7)


controllers = st.fixed_dictionaries(dict(
    u=st.one_of(st.none(), st.sampled_from([0.0, 0.5, 0.999999])), seed=st.integers(0, 2**20),
    initial=st.lists(st.sampled_from(PODS), min_size=1, max_size=4, unique_by=tuple),
    controllers=st.lists(st.tuples(st.sampled_from([0, 0, 1, 3]), st.lists(st.tuples(
        st.sampled_from([-1, 1, 64]), st.sampled_from(["ok", "ok", "raise", "requeue", 64 * 30])).map(list), max_size=4)),
        min_size=1, max_size=2),
    period=st.sampled_from([100, 300, 777]), periods=st.sampled_from([0.5, 1.2, 2.4, 4]), changes=st.lists(st.tuples(
        st.sampled_from([0, 0.01, 0.4, 0.9, 1.3]), st.sampled_from(["put", "put", "delete"]), st.sampled_from(PODS)).map(list),
        max_size=5)))


cases = st.fixed_dictionaries(dict(
    period=st.one_of(st.sampled_from([0, None, 0.5, 1.2, 36000]), st.integers(2, 5000), st.floats(1.12, 300)),
    u=st.one_of(st.none(), st.sampled_from([0.0, 0.5, 0.999999]), st.floats(0, 0.9999999)),
    seed=st.integers(0, 2**20), initial=st.lists(st.sampled_from(PODS), max_size=4),
    handlers=st.lists(st.sampled_from([0, 0, 0.3, 1.7, 2.2]), min_size=1, max_size=3),
    changes=st.one_of(st.just([]), st.lists(st.tuples(
        st.sampled_from([0, 0.1, 0.37, 1.3]), st.sampled_from(["put", "put", "delete"]), st.sampled_from(PODS)).map(list),
        max_size=6))))

ALONE = ["period", "controllers", "disturbed"]
TESTS = [Test("period", cases, run, quick=1200, thorough=40_000),
         Test("controllers", controllers, run_controller, quick=500, thorough=20_000),
         Test("disturbed", caches, run_cache, quick=400, thorough=20_000)]

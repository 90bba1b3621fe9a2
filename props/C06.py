"""C06: synced is reported only when the whole initial list has been processed."""
from vf.env import Ctx, Violation, each_step, now, pause, settle, vrun
from vf.failures import CLASSES, pick
from vf.fakes import KEYS, Res, Server, key_of, plans, rv_of, scripts
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import controller, delta_fifo, fifo, index, shared_informer, store

RULE = (
    "queue: an initial replacement (with repeated keys) followed by other writes, with poppers of generated speed "
    "and outcome, has_synced sampled at every scheduling step; informer: shared and basic informers against a "
    "faulty fake server, slow handlers, handlers registered meanwhile and wait_for_cache_sync; wait: "
    "wait_for_cache_sync on flags turning on at generated times, given up or with a cache that raises. Non-trivial: the initial list was non-empty, or "
    "several flags."
)
ASSUMPTIONS = ["nothing is written to the queue before the first list", "processing of initial items may fail "
               "(which ends it) but does not ask for requeueing"]


class Obj:
    def __init__(self, key, n):
        self.key, self.n = key, n


def run_queue(case):
    async def main():
        ctx = Ctx()
        known = store.new_store(lambda o: o.key) if case["known"] else None
        q = delta_fifo.DeltaFIFO(lambda o: o.key, known)
        left = set(case["initial"])  # initial keys whose processing has not finished
        listed, was = False, False
        n = 0
        done_at = None

        def sample():
            nonlocal was
            s = bool(q.has_synced())
            if s:
                ctx.check(listed, "synced before anything was listed")
                ctx.check(not left, f"synced while {sorted(left)} of the initial list are not processed")
            ctx.check(s or not was, "synced was reported and then withdrawn")
            was = was or s

        async def popper(script):
            i = 0
            while True:
                outcome, d1, d2 = script[i % len(script)]
                i += 1

                async def process(deltas):
                    try:
                        sample()
                        await pause(d1)
                        sample()
                        if outcome:
                            raise pick(CLASSES, i)("failed")
                        if known is not None:
                            for d in deltas:
                                if d.type is delta_fifo.DeltaType.DELETED:
                                    await known.delete(deltas[0].object)
                                else:
                                    await known.update(d.object)
                        sample()
                    finally:
                        left.discard(q.key_of(deltas))

                try:
                    await q.pop(process)
                except fifo.ProcessError:
                    pass
                sample()
                await pause(d2)

        each_step(sample)
        pops = [asyncio.ensure_future(popper(p)) for p in case["poppers"]] if case["early"] else []
        await settle()
        objs = []
        for k in case["initial"]:
            n += 1
            objs.append(Obj(k, n))
        listed = True
        await q.replace(objs, "1")
        if not case["early"]:
            sample()
            if not objs and not q.has_synced():
                raise Violation("empty initial list, but not synced")
            pops = [asyncio.ensure_future(popper(p)) for p in case["poppers"]]
        for kind, k, d in case["ops"]:
            await pause(d)
            n += 1
            if kind == "resync":
                await q.resync()
            else:
                await getattr(q, kind)(Obj(k, n))
        await asyncio.sleep(600)
        each_step(None)
        for t in pops:
            if t.done():
                t.result()
        ctx.raise_if_any()
        if left:
            raise Violation(f"{left} never processed")
        if not q.has_synced():
            raise Violation("all initial items processed, but synced is not reported")
        return bool(case["initial"]), ["dups"] if len(set(case["initial"])) < len(case["initial"]) else []

    return vrun(main, max_time=1e5)


key = st.sampled_from(["a", "b", "c", "d"])
popscript = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), delays, delays), min_size=1, max_size=4)
queue_cases = st.fixed_dictionaries(dict(
    known=st.booleans(), early=st.booleans(), initial=st.lists(key, max_size=6),
    poppers=st.lists(popscript, min_size=1, max_size=3),
    ops=st.lists(st.tuples(st.sampled_from(["add", "update", "delete", "resync"]), key, delays), max_size=8)))


def run_informer(case):
    async def main():
        ctx = Ctx()
        srv = Server(case["plan"])
        for k in case["initial"]:
            srv.put(k)
        first = {}

        class H:
            def __init__(self, ds):
                self.ds, self.i, self.done = ds, 0, {}

            async def on_add(self, o):
                self.i += 1
                await pause(self.ds[self.i % len(self.ds)])
                self.done[key_of(o)] = rv_of(o)

            async def on_update(self, old, o):
                await self.on_add(o)

            async def on_delete(self, o):
                o = getattr(o, "obj", o)
                await self.on_add(o)

        h = H(case["handler"])
        basic = case["basic"]
        if basic:
            indexer, inf = controller.new_informer(srv, Res, 0, h)
        else:
            inf = shared_informer.new_shared_index_informer(srv, Res, 0, index.Indexers())
            indexer = inf.get_indexer()
            await inf.add_event_handler(h)
        was = False

        def initial_ok():
            """Every listed object, or a successor state, is in the cache (and, basic informer, was handled)."""
            if not listed():
                return "no list has completed"
            call = next(c for c in srv.calls if c["kind"] == "list" and c["result"] not in (None, "error"))
            rv = call["result"]
            state = {}
            for v, t, o in srv.log:
                if v <= rv:
                    if t == "DELETED":
                        state.pop(key_of(o))
                    elif t != "BOOKMARK":
                        state[key_of(o)] = v
            have = {key_of(o): rv_of(o) for o in indexer.list()}
            for k, v in state.items():
                if k in have:
                    if have[k] < v:
                        return f"{k} is in the cache at {have[k]}, listed was {v}"
                elif not any(t == "DELETED" and key_of(o) == k and r > v for r, t, o in srv.log):
                    return f"{k}@{v} was listed but is not in the cache"
                elif not was and not any(k == x for x in h.done) and basic:
                    return f"{k}@{v} was listed but never handled"
                if basic and h.done.get(k, 0) < v:
                    return f"{k}@{v} is not handled yet"
            return None

        def listed():
            return any(c["kind"] == "list" and c["result"] not in (None, "error") for c in srv.calls)

        def sample():
            nonlocal was
            s = bool(inf.has_synced())
            if s and not was:
                p = initial_ok()
                if p:
                    ctx.fail(f"synced although {p}")
            ctx.check(s or not was, "synced was reported and then withdrawn")
            was = was or s

        waited = []

        async def waiter():
            ok = await shared_informer.wait_for_cache_sync(inf.has_synced)
            waited.append(now())
            ctx.check(ok is True, f"wait_for_cache_sync returned {ok!r}")
            p = initial_ok()
            if p:
                ctx.fail(f"wait_for_cache_sync returned although {p}")

        each_step(sample)
        w = asyncio.ensure_future(waiter())
        r = asyncio.ensure_future(inf.run())
        others = []

        async def adders():
            for d, hd in case["late"]:
                await pause(d)
                if not basic:
                    await inf.add_event_handler(H(hd))

        others.append(asyncio.ensure_future(adders()))
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
        await asyncio.sleep(5)
        srv.heal()
        await asyncio.sleep(60)
        for t in others:
            if not t.done():
                raise Violation("add_event_handler did not return")
            t.result()
        ctx.raise_if_any()
        if not inf.has_synced():
            raise Violation("the server has been healthy for a minute, but synced is not reported")
        if not waited:
            raise Violation("synced is reported, but wait_for_cache_sync has not returned")
        w.result()
        each_step(None)
        r.cancel()
        await asyncio.wait([r], timeout=100)
        return bool(case["initial"]), ["basic" if basic else "shared"] + (["faults"] if srv.faults else [])

    return vrun(main, max_time=1e6)


hdelays = st.lists(st.one_of(st.just(-1), st.just(0), st.integers(1, 40)), min_size=1, max_size=3)
informer_cases = st.fixed_dictionaries(dict(
    basic=st.booleans(), plan=plans, initial=st.lists(st.sampled_from(KEYS), max_size=4),
    handler=hdelays, script=scripts, late=st.lists(st.tuples(delays, hdelays), max_size=3)))


def run_wait(case):
    """caches that sync at given moments; one may raise (as a broken cache would), and the wait may be given up."""
    times, ends, gone = case["times"], case["ends"], case["raises"]

    async def main():
        calls = 0

        def flag(t):
            def f():
                nonlocal calls
                calls += 1
                if gone is not None and now() >= gone / 64 - 1e-9:
                    raise RuntimeError("the cache is broken")
                return now() >= t / 64 - 1e-9

            return f

        t0 = now()
        last = max(times, default=0) / 64
        w = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*(flag(t) for t in times)))
        await asyncio.wait([w], timeout=None if ends is None else ends / 64)
        took = now() - t0
        early = took < last - 1e-6
        if not w.done():
            w.cancel()
            await asyncio.wait([w], timeout=5)
            if not w.done():
                raise Violation("wait_for_cache_sync was cancelled and goes on")
            if early and not w.cancelled() and not w.exception() and w.result() is True:
                raise Violation("a wait that was cancelled reported the caches synced, which they were not")
            if took > last + 1.1:
                raise Violation(f"not returned after {took}, all caches had synced at {last}")
            return len(times) > 1, ["given up"]
        if gone is not None and took >= gone / 64 - 1e-6:
            if early and not w.cancelled() and not w.exception() and w.result() is True:
                raise Violation("a cache raised before it had synced, and the caches were reported synced")
            return True, ["raises"]
        ok = w.result()
        if ok is not True:
            raise Violation(f"returned {ok!r}")
        if took < last - 1e-6:
            raise Violation(f"returned after {took} although a cache synced only at {last}")
        if took > last + 1.1:
            raise Violation(f"returned after {took}, all caches had synced at {last}")
        return len(times) > 1, []

    return vrun(main)


often_none = lambda s: weighted((3, st.none()), (1, s))  # noqa: E731
wait_cases = st.fixed_dictionaries(dict(
    times=st.lists(st.integers(0, 700), max_size=5), ends=often_none(st.integers(0, 500)),
    raises=often_none(st.integers(0, 500))))


TESTS = [
    Test("queue", queue_cases, run_queue, quick=2000, thorough=40_000),
    Test("informer", informer_cases, run_informer, quick=1500, thorough=20_000),
    Test("wait", wait_cases, run_wait, quick=600, thorough=10_000),
]

"""C15: each handler is resynced at its own period."""
from vf.env import Violation, now, vrun
from vf.fakes import KEYS, Res, Server, key_of, rv_of
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import index, shared_informer

RULE = (
    "A case is an informer default period, handlers registered before and after the start with generated periods "
    "(default, zero, sub-second, longer or shorter than the check period), watches that end quietly, and a "
    "duration. Non-trivial: some handler with a period was due at least twice."
)
ASSUMPTIONS = [
    "the informer's default period is not zero (as in client-go, zero disables resyncing for all its handlers)",
    "handlers return promptly, nothing changes and nothing is relisted (watches may end and be renewed)",
]
EPS = 0.05


class Log:
    def __init__(self, on_sync=None):
        self.events, self.on_sync, self.syncs = [], on_sync, 0

    async def on_add(self, obj):
        self.events.append((now(), "add", key_of(obj)))

    async def on_update(self, old, new):
        same = key_of(old) == key_of(new) and rv_of(old) == rv_of(new)
        self.events.append((now(), "sync" if same else "update", key_of(new)))
        self.syncs += same
        if same and self.on_sync:
            self.on_sync(self.syncs)

    async def on_delete(self, obj):
        self.events.append((now(), "delete", key_of(obj)))


def run(case):
    async def main():
        srv = Server({"list": [["ok", case["slow_list"], -1]],
                      "watch": [["close", -1, 99, t, -1] for t in case["watches"]]})
        for k in case["initial"]:
            srv.put(k)
        d = case["default"] / 64
        inf = shared_informer.new_shared_index_informer(srv, Res, d, index.Indexers())
        hs = []  # handler, effective period, registration time
        early = [d if h["period"] is None else h["period"] / 64 for h in case["handlers"] if h["at"] < 0]
        early = [max(p, 1) for p in early if p]
        check = min([d] + early)

        def on_sync(n):
            for h in case["during"]:
                if h["n"] == n:
                    during.append(asyncio.ensure_future(in_resync(h)))

        async def in_resync(h):
            for _ in range(h["steps"]):
                await asyncio.sleep(0)
            await register(dict(period=h["period"], at=0, during=True))

        during = []

        async def register(h):
            log = Log(None if hs else on_sync)
            kw = {} if h["period"] is None else {"resync_period": h["period"] / 64}
            p = d if h["period"] is None else h["period"] / 64
            if p:
                p = max(p, 1)
            if h["at"] >= 0 and p:
                p = max(p, check)
            hs.append((log, p, now(), h))
            await inf.add_event_handler(log, **kw)

        for h in case["handlers"]:
            if h["at"] < 0:
                await register(h)
        await asyncio.sleep(case["before"] / 64)
        t0 = now()
        t = asyncio.ensure_future(inf.run())
        for h in sorted((h for h in case["handlers"] if h["at"] >= 0), key=lambda h: h["at"]):
            await asyncio.sleep(max(t0 + h["at"] / 64 - now(), 0))
            if case["odd"]:
                await asyncio.sleep(1e-3)
            await register(h)
        last = max([p for _, p, _, _ in hs])
        await asyncio.sleep(min(max(3 * last, 5 * check) + case["extra"] / 64, 200) + case["slow_list"] / 64 + 1)
        end = now()
        for x in during:
            if x.done():
                x.result()
            else:
                raise Violation("registering a handler during a resync has not returned")
        if t.done():
            raise Violation(f"the informer ended: {t!r}")
        t.cancel()
        await asyncio.wait([t], timeout=100)
        if any(c["result"] == "error" for c in srv.calls) or len([c for c in srv.calls if c["kind"] == "list"]) > 1:
            raise Violation("listed again although every watch ended in good order")
        keys = sorted({"/".join(k) if k[0] else k[1] for k in map(tuple, case["initial"])})
        running = next((c["t"] for c in srv.calls if c["kind"] == "watch"), end)
        twice = False
        for log, p, reg, h in hs:
            what = f"handler {h} (period {p}, check {check}, registered at {reg}, started at {t0})"
            for k in keys:
                ev = [(a, b) for a, b, key in log.events if key == k]
                if [b for a, b in ev][:1] != ["add"] or any(b != "sync" for a, b in ev[1:]):
                    raise Violation(f"{what} was told {ev} about {k}")
                times = [a for a, b in ev[1:]]
                if not p:
                    if times:
                        raise Violation(f"{what} was resynced at {times}")
                    continue
                prev, first = reg, max(reg, running)
                for x in times + [None]:
                    if x is None:
                        x, lim = end, "not resynced"
                    else:
                        lim = "resynced"
                        if x < prev + p - EPS:
                            raise Violation(f"{what}: {k} resynced at {times}: sooner than the period")
                    if x > (first if prev == reg else prev) + p + check + EPS:
                        raise Violation(f"{what}: {k} {lim} at {x}: later than period plus check; all {times}")
                    prev = x
                twice |= len(times) >= 2
        labels = {"during"} if during else set()
        labels |= {("late" if h["at"] >= 0 else "early") + ("_zero" if not p else "") for _, p, _, h in hs}
        if len(srv.watches) > 1:
            labels.add("watches_renewed")
        return twice, labels

    return vrun(main, max_time=1e5)


period = st.one_of(st.sampled_from([None, 0, 20, 64, 100, 128, 200, 320, 640]), st.integers(1, 700))
handler = st.fixed_dictionaries(dict(period=period, at=st.one_of(st.just(-1), st.just(-1), st.integers(0, 900))))
cases = st.fixed_dictionaries(dict(
    default=st.one_of(st.sampled_from([64, 128, 320, 640]), st.integers(16, 700)),
    handlers=st.lists(handler, min_size=1, max_size=5), initial=st.lists(st.sampled_from(KEYS), min_size=1, max_size=3),
    during=st.one_of(st.just([]), st.lists(st.fixed_dictionaries(dict(
        period=period, n=st.integers(1, 6), steps=st.sampled_from([0, 0, 1, 2, 3, 5, 8]))), max_size=3)),
    slow_list=st.sampled_from([-1, -1, 10, 300]), before=st.sampled_from([0, 0, 10, 200]),
    watches=st.lists(st.sampled_from([70, 100, 300, 1000]), max_size=5), extra=st.integers(0, 200), odd=st.booleans()))

TESTS = [Test("periods", cases, run, quick=1500, thorough=60_000)]

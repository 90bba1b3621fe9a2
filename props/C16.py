"""C16: stopping an informer or reflector is clean at any moment."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.fakes import KEYS, RecStore, Res, Server, plans, scripts, steps
from vf.gen import history, weighted
from vf.informers import Recorder, contents
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import controller, index, reflector, shared_informer

RULE = (
    "A case is a shared informer, basic informer or reflector on a faulty server, with slow, blocked and raising "
    "handlers and registrations in flight, and the moment of the cancellation (a time, then a number of scheduling "
    "steps). Non-trivial: something was going on at the cancellation: a request in flight, an open watch, a busy or "
    "just failed handler, a registration, or notifications still undelivered."
)
ASSUMPTIONS = [
    "a request, store write or (for the basic informer) handler call in flight stops when it is cancelled",
    "the informer is cancelled once",
]


class Quiet(Ctx):
    """Histories are judged elsewhere."""

    def fail(self, msg):
        pass


async def steps_(n):
    for _ in range(n):
        await asyncio.sleep(0)


def run(case):
    async def main():
        srv = Server(case["plan"], exc=case["exc"])
        for k in case["initial"]:
            srv.put(k)
        writes = []
        hs, regs = [], []
        kind = case["kind"]
        base = set(asyncio.all_tasks())
        gate = asyncio.Event()

        def recorder(h):
            r = Recorder(Quiet(), f"handler {len(hs)}", h["delays"], raises=h["raises"],
                         gate=gate if h["blocked"] else None)
            hs.append(r)
            return r

        cached = lambda: ()
        if kind == "shared":
            inf = shared_informer.new_shared_index_informer(srv, Res, case["resync"], index.Indexers())
            cached = lambda: sorted(contents(inf.get_indexer()).items())
            for h in case["handlers"]:
                await inf.add_event_handler(recorder(h))
        elif kind == "basic":
            store, inf = controller.new_informer(srv, Res, case["resync"], recorder(case["handlers"][0]))
            cached = lambda: sorted(contents(store).items())
        else:
            rec = RecStore(case["handlers"][0]["delays"])
            inf = reflector.Reflector(srv, Res, rec, case["resync"])
            cached = lambda: len(rec.ops)
        t = asyncio.ensure_future(inf.run())

        async def drive():
            for d, op in case["script"]:
                await pause(d)
                if op[0] == "register":
                    if kind == "shared":
                        regs.append(asyncio.ensure_future(inf.add_event_handler(recorder(op[1]))))
                else:
                    srv.do(op)

        driver = asyncio.ensure_future(drive())
        await asyncio.sleep(case["stop"] / 64)
        await steps_(case["extra"])
        if t.done():
            raise Violation(f"the informer ended: {t!r}")
        end = now()
        labels = {kind}
        if any(c["result"] is None for c in srv.calls):
            labels.add("request_in_flight")
        if srv.open_watches():
            labels.add("watching")
        if any(h.active for h in hs):
            labels.add("busy_handler")
        if any(n < len(h.events) - h.active and h.ended and end - h.ended[-1] < 70 for h in hs for n in h.raises):
            labels.add("raised")
        if any(not r.done() for r in regs):
            labels.add("registering")
        if len({len(h.events) for h in hs}) > 1:
            labels.add("lagging_handler")
        nontrivial = len(labels) > 1
        t.cancel()
        if case["step_after"]:
            await steps_(case["step_after"])
            if kind == "shared":
                regs.append(asyncio.ensure_future(inf.add_event_handler(recorder(case["handlers"][0]))))
                labels.add("register_while_stopping")
        if case["change_after"]:
            srv.put(KEYS[0])
        done, _ = await asyncio.wait([t], timeout=6)
        if not done and not any(h.active for h in hs):
            raise Violation("not finished 6 s after the cancellation although no handler call is running")
        opened = now()
        gate.set()
        if not done:
            await asyncio.wait([t], timeout=6)
        if not t.done():
            raise Violation("not finished 6 s after the last handler call was released")
        finish = now()
        last = max([end, opened if opened - end >= 6 else end] +
                   [e for h in hs for e in h.ended if e <= finish + 1e-4])
        if finish > last + 0.5:
            raise Violation(f"finished at {finish}; cancelled at {end}, handler calls had ended by {last}")
        if not t.cancelled():
            e = t.exception()
            raise Violation(f"a cancelled informer ended with {e!r}")
        calls, told, have = len(srv.calls), [len(h.events) for h in hs], cached()
        if any(h.active for h in hs):
            raise Violation("finished while a handler call is running")
        if srv.open_watches():
            raise Violation("a watch was left open")
        driver.cancel()
        await asyncio.sleep(1e-3)
        for a in regs:
            if not a.done():
                raise Violation("add_event_handler has not returned after the stop")
            a.result()
        left = [x for x in asyncio.all_tasks() if x not in base and x is not driver and not x.done()]
        if left:
            raise Violation(f"left behind: {left}")
        srv.put(KEYS[1])
        srv.delete(KEYS[2])
        await asyncio.sleep(200)
        told += [0] * (len(hs) - len(told))
        if len(srv.calls) != calls:
            raise Violation("the server was asked after the informer had finished")
        if [len(h.events) for h in hs] != told:
            raise Violation("a handler was called after the informer had finished")
        if cached() != have:
            raise Violation("the cache was written after the informer had finished")
        return nontrivial, labels

    return vrun(main, max_time=1e5)


handler = st.fixed_dictionaries(dict(
    delays=st.lists(st.sampled_from([-1, -1, 0, 1, 5, 40, 200]), min_size=1, max_size=3),
    raises=st.one_of(st.just([]), st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)),
    blocked=st.sampled_from([False, False, False, True])))
change = st.tuples(st.sampled_from(["put", "put", "delete"]), st.sampled_from(KEYS)).map(list)
op = weighted((5, change), (1, st.tuples(st.just("register"), handler).map(list)), (1, st.just(["expire", None])))
cases = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["shared", "shared", "shared", "basic", "reflector"]), plan=st.one_of(st.just({}), plans),
    exc=st.integers(0, 5), initial=st.lists(st.sampled_from(KEYS), max_size=4), resync=st.sampled_from([0, 0, 1]),
    handlers=st.lists(handler, min_size=1, max_size=3), script=history(st.tuples(steps, op).map(list), 12, lo=0),
    stop=st.one_of(st.just(0), st.integers(0, 30), st.integers(30, 400), st.sampled_from([64, 128, 10, 32, 74])),
    extra=st.one_of(st.just(0), st.integers(0, 12), st.integers(12, 60)),
    step_after=st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8]), change_after=st.booleans()))

ALONE = ["stop"]
TESTS = [Test("stop", cases, run, quick=2500, thorough=100_000)]

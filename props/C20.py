"""C20: work queue: no duplicates, no concurrent processing, nothing lost."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.wq import Model, fresh, make

import asyncio

from hypothesis import strategies as st

RULE = (
    "model: a sequence of adds, gets (also waiting ones), dones on a plain, delaying or rate-limiting queue, compared "
    "with a reference model after every operation; non-trivial: an item was added again while waiting or while being "
    "processed. concurrent: producers and consumers of generated speed, checked by invariants over the history; "
    "non-trivial: some item was handed out at least twice and two consumers were busy at once."
)
ASSUMPTIONS = ["a waiting get is not given up at the very moment it is being woken (C26 does that)"]


def run_model(case):
    async def main():
        q, m = make(case["kind"]), Model()
        waiting, held = [], []
        nontrivial, labels = False, {case["kind"]}

        async def check():
            await settle()
            # hand-outs due to waiting gets
            expected = []
            while len(expected) < len(waiting):
                r = m.get()
                if r is None:
                    break
                expected.append(r[0])
            got = [t.result() for t in waiting if t.done()]
            waiting[:] = [t for t in waiting if not t.done()]
            if sorted(x for x, _ in got) != sorted(expected) or any(d for _, d in got):
                raise Violation(f"waiting gets returned {got}, expected items {expected}")
            held.extend(expected)
            if len(q) != len(m.queue):
                raise Violation(f"length is {len(q)}, waiting are {m.queue}")
            if q.shutting_down():
                raise Violation("reports shutdown")

        for op, arg in case["ops"]:
            if op == "add":
                arg = fresh(arg)
                if arg in m.dirty or arg in m.processing:
                    nontrivial = True
                    labels.add("again_processing" if arg in m.processing else "again_waiting")
                m.add(arg)
                await q.add(fresh(arg[1]))
            elif op == "get":
                t = asyncio.ensure_future(q.get())
                r = m.get()
                if r is None:
                    waiting.append(t)
                    labels.add("get_waits")
                else:
                    await settle()
                    if not t.done() or t.result() != r:
                        raise Violation(f"get gives {t!r}, expected {r}")
                    held.append(r[0])
            elif op == "cancel_get":
                if waiting:
                    t = waiting.pop(arg % len(waiting))
                    t.cancel()
                    labels.add("cancelled_get")
            elif op == "done" and held:
                item = held.pop(arg % len(held))
                m.done(item)
                await q.done(fresh(item[1]))
            await check()
        while held:
            item = held.pop(0)
            m.done(item)
            await q.done(item)
            await check()
        for t in waiting:
            t.cancel()
        await settle()
        while m.queue:
            r = m.get()
            got = await asyncio.wait_for(q.get(), 5)
            if got != r:
                raise Violation(f"draining: got {got}, expected {r}")
            await q.done(r[0])
            m.done(r[0])
        if len(q):
            raise Violation("not empty after draining")
        return nontrivial, labels

    return vrun(main)


def run_concurrent(case):
    async def main():
        q = make(case["kind"])
        adds, gets = {}, {}  # item -> times/serials
        busy, most, serial = {}, 0, 0
        last_add, last_get = {}, {}
        ctx, idle = Ctx(), set()

        def look():
            if len(q) and idle:
                ctx.fail(f"consumers {idle} wait at {now()} though {len(q)} items are queued")

        def look_soon():
            asyncio.get_running_loop().call_later(0.004, look)  # when all that is going on now is over

        async def producer(steps):
            nonlocal serial
            for d, item in steps:
                await pause(d)
                adds[item] = adds.get(item, 0) + 1
                serial += 1
                last_add[item] = serial
                await q.add(fresh(item))
                look_soon()

        async def consumer(i, ds, rests):
            nonlocal most, serial
            n = 0
            while True:
                idle.add(i)
                item, down = await q.get()
                idle.discard(i)
                if down:
                    raise Violation("get reports shutdown")
                whole, item = item, item[1]
                if item in busy:
                    raise Violation(f"{item} handed to consumer {i} while consumer {busy[item]} processes it")
                if item not in adds:
                    raise Violation(f"{item} was never added")
                busy[item] = i
                most = max(most, len(busy))
                serial += 1
                last_get[item] = serial
                gets[item] = gets.get(item, 0) + 1
                if gets[item] > adds[item]:
                    raise Violation(f"{item} added {adds[item]} times, handed out {gets[item]} times")
                await pause(ds[n % len(ds)])
                n += 1
                del busy[item]
                await q.done(whole)
                look_soon()
                await pause(rests[n % len(rests)])

        consumers = [asyncio.ensure_future(consumer(i, *c)) for i, c in enumerate(case["consumers"])]
        await asyncio.wait_for(asyncio.gather(*[producer(p) for p in case["producers"]]), 1000)
        await asyncio.sleep(sum(adds.values()) * 6.4 + 1)
        for c in consumers:
            if c.done():
                c.result()
        ctx.raise_if_any()
        for item, s in last_add.items():
            if last_get.get(item, 0) < s:
                raise Violation(f"{item} was added but not handed out afterwards")
        if len(q) or busy:
            raise Violation(f"length {len(q)} although everything was handed out")
        return most > 1 and any(n > 1 for n in gets.values()), {case["kind"]}

    return vrun(main)


kinds = st.sampled_from(["plain", "plain", "delaying", "rate"])
items = st.integers(0, 4)
op = weighted(
    (5, st.tuples(st.just("add"), items).map(list)),
    (4, st.just(["get", 0])),
    (4, st.tuples(st.just("done"), st.integers(0, 3)).map(list)),
    (1, st.tuples(st.just("cancel_get"), st.integers(0, 3)).map(list)),
)
model_cases = st.fixed_dictionaries(dict(kind=kinds, ops=history(op, 40)))
concurrent_cases = st.fixed_dictionaries(dict(
    kind=kinds, producers=st.lists(st.lists(st.tuples(delays, items).map(list), min_size=1, max_size=15), min_size=1, max_size=4),
    consumers=st.lists(st.tuples(st.lists(delays, min_size=1, max_size=4),
                                 st.one_of(st.just([-1]), st.lists(delays, min_size=1, max_size=3))).map(list), min_size=1, max_size=4)))

TESTS = [Test("model", model_cases, run_model, quick=3000, thorough=200_000),
         Test("concurrent", concurrent_cases, run_concurrent, quick=2000, thorough=100_000)]

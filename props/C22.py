"""C22: shutting down a work queue releases consumers and drains what was queued."""
from vf.env import Violation, now, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test
from vf.wq import Model, make, promptly

import asyncio

from hypothesis import strategies as st

RULE = (
    "A case is a history of adds (plain, delayed, rate-limited), gets, dones and shutdowns on one of the three kinds "
    "of queue, with one or more shutdowns in the middle and waiting consumers. Non-trivial: at the first shutdown "
    "something was waiting, being processed, delayed, or a get was waiting."
)
ASSUMPTIONS = ["a delayed item whose deadline has not come by the shutdown is not handed out"]


def run(case):
    async def main():
        base = set(asyncio.all_tasks())
        kind = case["kind"]
        q, m = make(kind), Model()
        delayed = {}  # item -> deadline
        waiting, held = [], []
        labels, nontrivial = {kind}, False

        def fail(msg):
            raise Violation(msg)

        def due():
            for d, i in sorted((d, i) for i, d in delayed.items() if d <= now()):
                del delayed[i]
                m.add(i)

        async def check():
            await settle()
            due()
            got = [t.result() for t in waiting if t.done()]
            waiting[:] = [t for t in waiting if not t.done()]
            expected = []
            while len(expected) < len(got) + len(waiting):
                r = m.get()
                if r is None:
                    break
                expected.append(r)
            if sorted(map(str, got)) != sorted(map(str, expected)):
                raise Violation(f"waiting gets returned {got}, expected {expected}")
            held.extend(i for i, down in expected if not down)
            if len(q) != len(m.queue):
                raise Violation(f"length is {len(q)}, waiting are {m.queue}")
            if q.shutting_down() != m.down:
                raise Violation(f"shutting_down() is {q.shutting_down()}")

        for op, arg in case["ops"] + [["shut_down", 0]]:
            if op == "add":
                m.add(arg)
                await promptly(q.add(arg), "add", fail)
            elif op == "after" and kind != "plain":
                item, d = arg
                if d <= 0:
                    m.add(item)
                elif not m.down:
                    delayed[item] = min(delayed.get(item, 1e9), now() + d / 8 + item * 0.01)
                await promptly(q.add_after(item, d / 8 + item * 0.01 if d > 0 else d), "add_after", fail)
            elif op == "rate" and kind == "rate":
                d = min(60, 0.5 * 2 ** q.num_requeues(arg)) + 0.0
                if not m.down:
                    delayed[arg] = min(delayed.get(arg, 1e9), now() + d)
                await promptly(q.add_rate_limited(arg), "add_rate_limited", fail)
            elif op == "get":
                waiting.append(asyncio.ensure_future(q.get()))
            elif op == "done" and held:
                item = held.pop(arg % len(held))
                m.done(item)
                await promptly(q.done(item), "done", fail)
            elif op == "sleep":
                await check()
                await asyncio.sleep(arg / 8 + 0.0033)
            elif op == "shut_down":
                await check()
                if not m.down:
                    if waiting or held or m.queue or delayed:
                        nontrivial = True
                    for name, on in dict(gets_waiting=waiting, processing=held, queued=m.queue, delayed=delayed,
                                         readded=m.dirty & m.processing).items():
                        if on:
                            labels.add(name)
                else:
                    labels.add("again")
                m.down = True
                delayed.clear()
                await promptly(q.shut_down(), "shut_down", fail)
            await check()
        # everything that was queued comes out, then shutdown is reported for ever
        for item in list(held):
            m.done(item)
            await promptly(q.done(item), "done", fail)
            await check()
        for _ in range(len(m.queue)):
            r = m.get()
            got = await promptly(q.get(), "get", fail)
            if got != r:
                raise Violation(f"draining gives {got}, expected {r}")
            await promptly(q.done(r[0]), "done", fail)
            m.done(r[0])
        for _ in range(2):
            await promptly(q.add(1), "add", fail)
            if kind != "plain":
                await promptly(q.add_after(2, 1), "add_after", fail)
            if await promptly(q.get(), "get", fail) != (None, True):
                raise Violation("get does not report shutdown")
            await asyncio.sleep(0.01)
            left = [t for t in asyncio.all_tasks() if t not in base and not t.done()]
            if left:
                raise Violation(f"left behind after shutdown: {left}")
            await asyncio.sleep(100)
        if len(q):
            raise Violation("an item turned up after the queue was shut down and drained")
        return nontrivial, labels

    return vrun(main, max_time=1e5)


def run_blocked(case):
    """Shutdown while many adds and gets are under way."""
    async def main():
        base = set(asyncio.all_tasks())
        kind = case["kind"]
        q = make(kind)
        got = []

        async def consume(hold):
            while True:
                item, down = await q.get()
                if down:
                    return
                got.append(item)
                await asyncio.sleep(hold / 64)
                await q.done(item)

        cs = [asyncio.ensure_future(consume(h)) for h in case["consumers"]]
        adders = []
        added = 0
        for i in range(case["n"]):
            d = case["delays"][i % len(case["delays"])]
            c = q.add(i) if kind == "plain" or d <= 0 else q.add_after(i, d / 64)
            adders.append(asyncio.ensure_future(c))
        for _ in range(case["steps"]):
            await asyncio.sleep(0)
        await asyncio.sleep(case["wait"] / 64)
        before = [t.done() for t in adders]
        down = asyncio.ensure_future(q.shut_down())
        more = [asyncio.ensure_future(q.add("late"))]
        await asyncio.sleep(1e-3)
        for t in [down] + adders:
            if not t.done():
                raise Violation("shut_down or an add still blocks after shutdown")
            t.result()
        await asyncio.wait([down] + cs, timeout=case["n"] * 2)
        for c in cs:
            if not c.done():
                raise Violation("a consumer was not released")
            c.result()
        if len(set(got)) != len(got):
            raise Violation("something was handed out twice")
        if cs:
            due = [i for i in range(case["n"]) if before[i] and
                   (kind == "plain" or case["delays"][i % len(case["delays"])] <= 0)]
            missing = set(due) - set(got)
            if missing:
                raise Violation(f"queued before shutdown but not handed out: {sorted(missing)[:5]}")
            if len(q):
                raise Violation(f"{len(q)} items left waiting")
        left = [t for t in asyncio.all_tasks() if t not in base and not t.done()]
        if left:
            raise Violation(f"left behind after shutdown: {left[:5]}")
        return bool(got) or not all(before), {kind} | ({"adds_blocked"} if not all(before) else set())

    return vrun(main, max_time=1e5)


kinds = st.sampled_from(["plain", "delaying", "delaying", "rate", "rate"])
items = st.integers(0, 4)
op = weighted(
    (4, st.tuples(st.just("add"), items).map(list)),
    (4, st.tuples(st.just("after"), st.tuples(items, st.integers(-1, 90)).map(list)).map(list)),
    (2, st.tuples(st.just("rate"), items).map(list)),
    (3, st.just(["get", 0])),
    (3, st.tuples(st.just("done"), st.integers(0, 3)).map(list)),
    (1, st.tuples(st.just("sleep"), st.integers(0, 40)).map(list)),
    (1, st.just(["shut_down", 0])),
)
cases = st.fixed_dictionaries(dict(kind=kinds, ops=history(op, 30)))
blocked_cases = st.fixed_dictionaries(dict(
    kind=kinds, n=st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 40), st.integers(990, 1300)),
    delays=st.lists(st.sampled_from([0, -1, 1, 64, 300]), min_size=1, max_size=4), consumers=st.lists(st.sampled_from([0, 0, 3, 40]), max_size=3),
    steps=st.integers(0, 8), wait=st.sampled_from([0, 0, 1, 64])))

ALONE = ["history", "blocked"]
TESTS = [Test("history", cases, run, quick=2500, thorough=100_000),
         Test("blocked", blocked_cases, run_blocked, quick=300, thorough=10_000)]

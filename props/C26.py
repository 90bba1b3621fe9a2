"""C26: giving up a call on a queue loses neither items nor wake-ups."""
from vf.env import Violation, pause, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test
from vf.tasks import Mine

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import delta_fifo, fifo
from aiok8s.workqueue import delaying_queue, queue, rate_limiting_queue
from aiok8s.workqueue import default_rate_limiters

RULE = (
    "A case is a queue (work, delaying, rate limited, FIFO or delta queue, the latter with processing of generated "
    "length) and a script of additions (also delayed and rate limited) and takes, any of which is given up after a generated number of scheduling steps. "
    "Non-trivial: a call that had not returned was given up, and an item was added afterwards or waited then."
)
ASSUMPTIONS = [
    "an addition that is given up may or may not take effect",
    "a take given up while its item is processed has taken it",
]


class Work:
    def __init__(self, kind, hold):
        self.q = {"work": queue.new, "delaying": delaying_queue.new,
                  "rate": lambda: rate_limiting_queue.new(default_rate_limiters.default_controller_rate_limiter())}[kind]()
        self.taken = []

    async def add(self, i, how=0):
        # directly, after a delay, or limited
        if how and hasattr(self.q, "add_rate_limited") and i % 2:
            await self.q.add_rate_limited(i)
        elif how and hasattr(self.q, "add_after"):
            await self.q.add_after(i, how / 64 + 0.003)
        else:
            await self.q.add(i)

    async def take(self):
        item, down = await self.q.get()
        if down:
            raise Violation("get reports shutdown")
        self.taken.append(item)

    def left(self):
        return len(self.q)

    async def close(self):
        await self.q.shut_down()


class Fifo:
    def __init__(self, kind, hold):
        self.hold, self.taken = hold, []
        self.delta = kind == "delta"
        self.q = delta_fifo.DeltaFIFO(str) if self.delta else fifo.FIFO(str)

    async def add(self, i, how=0):
        await self.q.add(i)

    async def take(self):
        def process(item):
            self.taken.append(item)

        async def slow(deltas):
            self.taken.extend(d.object for d in deltas)
            await pause(self.hold)

        try:
            await self.q.pop(slow if self.delta else process)
        except fifo.FIFOClosedError:
            raise Violation("an open queue reports that it is closed")

    def left(self):
        return len(self.q.list_keys())

    async def close(self):
        await self.q.close()


def run(case):
    async def main():
        kind = case["kind"]
        mine = Mine()
        q = (Fifo if kind in ("fifo", "delta") else Work)(kind, case["hold"])
        n, sure = 0, set()
        adds, takes, labels = [], [], set()

        async def add(i, how):
            await q.add(i, how)
            sure.add(i)

        await settle()
        idle = len(await mine.left())

        async def steps(k):
            for _ in range(k):
                await asyncio.sleep(0)

        for op, arg, k in case["ops"]:
            if op == "add":
                n += 1
                adds.append(asyncio.ensure_future(add(n, arg)))
                if "given_up" in labels:
                    labels.add("added_later")
            elif op == "take":
                takes.append(asyncio.ensure_future(q.take()))
            elif op == "wait":
                await pause(arg)
            else:
                calls = [t for t in (takes if op == "give_up_take" else adds) if not t.done()]
                if calls:
                    t = calls[arg % len(calls)]
                    if q.left():
                        labels.add("while_pending")
                    t.cancel()
                    labels.add("given_up")
            await steps(k)
        if case["hold"] > 0:
            await asyncio.sleep(10 * len(takes))
        await asyncio.sleep(5)
        await settle()
        for t in adds + takes:
            if t.done() and not t.cancelled():
                t.result()
        if any(not t.done() for t in adds):
            raise Violation("an addition does not return")
        waiting = [t for t in takes if not t.done()]
        if waiting and q.left():
            raise Violation(f"{q.left()} items wait, and so do {len(waiting)} takes")
        for t in waiting:
            t.cancel()
        await settle()
        while q.left():
            await asyncio.wait_for(q.take(), 100)
        await settle()
        left = await mine.left()
        if len(left) > idle + 2:
            raise Violation(f"{len(left)} tasks run at the end, {idle} did at first: {left}")
        if len(q.taken) != len(set(q.taken)):
            raise Violation(f"taken twice: {q.taken}")
        if not sure <= set(q.taken) <= set(range(1, n + 1)):
            raise Violation(f"added {sorted(sure)} (of {n}), taken {q.taken}")
        await q.close()
        await asyncio.sleep(5)
        await mine.check("the queue was shut down, and every call had returned or was given up")
        return "given_up" in labels and bool(labels & {"added_later", "while_pending"}), labels | {kind}

    return vrun(main, max_time=1e5)


k = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 6])
op = weighted(
    (4, st.tuples(st.just("add"), st.sampled_from([0, 0, 1, 9]), k).map(list)),
    (4, st.tuples(st.just("take"), st.just(0), k).map(list)),
    (4, st.tuples(st.sampled_from(["give_up_take", "give_up_add"]), st.integers(0, 3), k).map(list)),
    (1, st.tuples(st.just("wait"), st.sampled_from([-1, 0, 1, 5]), k).map(list)),
)
cases = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["work", "work", "delaying", "rate", "fifo", "delta", "delta"]),
    hold=st.sampled_from([-1, -1, 0, 2]), ops=history(op, 24)))

TESTS = [Test("given_up", cases, run, quick=3000, thorough=150_000)]

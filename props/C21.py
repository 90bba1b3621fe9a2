"""C21: delayed adds fire once, never early, promptly, at the earliest deadline."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test
from vf.wq import Model, fresh, make

import asyncio

from hypothesis import strategies as st

from aiok8s.util import clock
from aiok8s.workqueue import delaying_queue

RULE = (
    "consumers: immediate and delayed adds of few items over virtual time with enough consumers of generated speed; "
    "every hand-out time is compared with a per-item reference. backlog: nobody takes anything for a while, then "
    "everything is taken and the order compared; also with a fake clock moved in steps. flood: up to 2500 delayed "
    "adds at once. moved: a fake clock is moved while items are being added. Non-trivial: some item had two delays pending at once, or two deadlines passed in one step."
)
ASSUMPTIONS = ["if the fake clock is moved while the queue is busy, 11 s of the clock may pass before the queue notices"]
EPS = 1e-4


class Delayed(Model):
    """deadline: item -> earliest pending deadline."""

    def __init__(self):
        super().__init__()
        self.deadline = {}
        self.merged = False

    def add_after(self, item, delay, t):
        if self.down:
            return
        if delay <= 0:
            self.add(item)
        elif item in self.deadline:
            self.merged = True
            self.deadline[item] = min(self.deadline[item], t + delay)
        else:
            self.deadline[item] = t + delay

    def advance(self, t):
        """Make due items available; returns those whose order is not determined (same deadline)."""
        due = sorted((d, i) for i, d in self.deadline.items() if d <= t)
        for d, i in due:
            del self.deadline[i]
            self.add(i)
        return due


def run_consumers(case):
    """Every item has a consumer at hand, so that items do not influence each other."""
    async def main():
        q = make(case["kind"])
        handed, adds = [], []
        holds = {}

        async def consumer():
            while True:
                item, down = await q.get()
                if down:
                    raise Violation("get reports shutdown")
                whole, item = item, item[1]
                handed.append((now(), item))
                n = sum(i == item for _, i in handed) - 1
                h = case["holds"][(n + item) % len(case["holds"])]
                holds[item, n] = h
                await asyncio.sleep(h / 64)
                await q.done(whole)

        cs = [asyncio.ensure_future(consumer()) for _ in range(6)]
        await settle()
        for gap, item, delay in case["ops"]:
            await asyncio.sleep(gap / 64 + 3.1e-4)  # no two things at the same instant
            t0 = now()
            adds.append((t0, item, delay))
            if delay is None:
                await q.add(fresh(item))
            else:
                await q.add_after(fresh(item), delay)
            if now() > t0 + EPS:
                raise Violation(f"add_after took {now() - t0} s")
        longest = max([d or 0 for _, _, d in case["ops"]])
        await asyncio.sleep(longest + sum(h for h in holds.values()) / 64 + max(case["holds"]) / 16 + 30)
        for c in cs:
            if c.done():
                c.result()
        # per-item reference
        nontrivial = False
        for item in {i for _, i, _ in adds}:
            mine = [(t, d) for t, i, d in adds if i == item]
            events = [(t, 0, d) for t, d in mine]
            deadline, free, dirty, expect = None, 0.0, False, []
            idx = 0
            while events or deadline is not None or dirty:
                t_add = events[0][0] if events else float("inf")
                t_dl = deadline if deadline is not None else float("inf")
                t_free = free if dirty else float("inf")
                t = min(t_add, t_dl, t_free)
                if dirty and t == t_free and t_free <= min(t_add, t_dl):
                    pass
                elif t == t_dl:
                    deadline, dirty = None, True
                else:
                    _, _, d = events.pop(0)
                    if d is None or d <= 0:
                        dirty = True
                    else:
                        if deadline is not None:
                            nontrivial = True
                        deadline = t + d if deadline is None else min(deadline, t + d)
                if dirty and free <= t:
                    expect.append(t)
                    free = t + case["holds"][(len(expect) - 1 + item) % len(case["holds"])] / 64
                    dirty = False
            got = [t for t, i in handed if i == item]
            if len(got) != len(expect) or any(abs(a - b) > EPS for a, b in zip(got, expect)):
                raise Violation(f"item {item} handed out at {got}, expected {expect}; adds {mine}")
        if len(q):
            raise Violation("queue is not empty in the end")
        return nontrivial, {case["kind"]}

    return vrun(main, max_time=1e5)


def run_backlog(case):
    async def main():
        fake = clock.FakeClock(1000.0) if case["fake"] else None
        q = delaying_queue._DelayingType(fake) if fake else make("delaying")
        time = fake.now if fake else now
        m = Delayed()
        held = []
        two = False
        await settle()

        async def drain(n):
            """Take up to n items and compare."""
            for _ in range(n):
                if len(q) != len(m.queue):
                    raise Violation(f"length is {len(q)}, expected waiting {m.queue}")
                if not m.queue:
                    return
                r = m.get()
                t = asyncio.ensure_future(q.get())
                await settle()
                if not t.done() or t.result() != r:
                    raise Violation(f"get gives {t!r}, expected {r}")
                held.append(r[0])

        for op, a, b in case["ops"]:
            if op == "after":
                d = (b[0] if fake else min(b[0], 1000)) / 8 + b[1] * 1e-3
                m.advance(time())
                m.add_after(a, d, time())
                await q.add_after(a, d)
                if d <= 0 and len(q) != len(m.queue):
                    raise Violation(f"right after add_after without a delay the length is {len(q)}, expected {m.queue}")
            elif op == "add":
                m.advance(time())
                m.add(a)
                await q.add(a)
            elif op == "wait":
                d = a / 8 + b[1] * 1e-3
                if fake:
                    await fake.step(d)
                else:
                    await asyncio.sleep(d)
            elif op == "take":
                await drain(a + 1)
            elif op == "done" and held:
                i = held.pop(a % len(held))
                m.advance(time())
                m.done(i)
                await q.done(i)
            await settle()
            due = m.advance(time())
            times = [round(d, 4) for d, _ in due]
            two |= len(due) > 1
            if len(set(times)) < len(times):
                # equal deadlines: any order among them
                tail = m.queue[-len(due):]
                if len(q) != len(m.queue):
                    raise Violation(f"length is {len(q)}, expected waiting {m.queue}")
                return two or m.merged, {"tie"}
            if len(q) != len(m.queue):
                raise Violation(f"at {time()} length is {len(q)}, expected waiting {m.queue}")
        while m.queue or m.deadline:
            await drain(10)
            while held:
                i = held.pop()
                m.done(i)
                await q.done(i)
                await settle()
            if m.deadline:
                t = min(m.deadline.values())
                for x in (t - 0.0015, t + 0.0015):
                    if x > time():
                        if fake:
                            await fake.step(x - time())
                        else:
                            await asyncio.sleep(x - time())
                    await settle()
                    due = m.advance(time())
                    if len(due) > 1:
                        if len(q) != len(m.queue):
                            raise Violation(f"length is {len(q)}, expected waiting {m.queue}")
                        return two or m.merged, {"tie"}
                    if len(q) != len(m.queue):
                        raise Violation(f"at {time()} length is {len(q)}, expected waiting {m.queue}")
        if len(q):
            raise Violation("queue is not empty in the end")
        return two or m.merged, {"fake" if fake else "real"}

    return vrun(main, max_time=1e5)


def run_moved(case):
    """Delayed adds at once, with the fake clock moved in the middle of things; nobody takes anything."""
    async def main():
        fake = clock.FakeClock(1000.0)
        q = delaying_queue._DelayingType(fake)
        due = {}
        nontrivial = False
        await settle()

        def never_early(when):
            ready = sum(t <= fake.now() for t in due.values())
            if len(q) > ready:
                raise Violation(f"{len(q)} items are available {when}, but only {ready} are due")

        for adds, ticks, step, rest in case["rounds"]:
            ts = []
            for item, d in adds:
                async def add(item=item, d=d):
                    await pause(d % 3 - 1 if case["spread"] else -1)
                    due[item] = min(due.get(item, float("inf")), fake.now() + d / 8)
                    await q.add_after(item, d / 8)

                ts.append(asyncio.ensure_future(add()))
            for _ in range(ticks):
                await asyncio.sleep(0)
                never_early("while items are being added")
            await fake.step(step / 8)
            nontrivial |= any(not t.done() for t in ts) or step > 0 and ticks < 6
            if rest:
                await settle()
                never_early("at rest")
            await asyncio.gather(*ts)
        await settle()
        never_early("at rest")
        for i in range(4):
            await fake.step(11)
            await settle()
            never_early("at rest")
        got = []
        while len(q):
            item, _ = await q.get()
            got.append(item)
            await q.done(item)
        if len(set(got)) != len(got):
            raise Violation(f"handed out twice: {got}")
        for item, t in due.items():
            if t <= fake.now() - 11 and item not in got:
                raise Violation(f"item {item}, due at {t}, is not available at {fake.now()}")
            if t > fake.now() and item in got:
                raise Violation(f"item {item} comes early")
        return nontrivial and bool(got), {"spread" if case["spread"] else "together"}

    return vrun(main, max_time=1e5)


def run_flood(case):
    async def main():
        q = make(case["kind"])
        n, ds = case["n"], case["delays"]
        due = {}
        started = now()

        async def add(i):
            d = ds[i % len(ds)] / 16
            due[i] = now() + max(d, 0)
            await q.add_after(i, d)

        if case["together"]:
            await asyncio.gather(*[add(i) for i in range(n)])
        else:
            for i in range(n):
                await add(i)
        if now() > started + 1:
            raise Violation("adding takes long")
        got = []

        async def consumer():
            while len(got) < n:
                item, _ = await q.get()
                got.append((now(), item))
                await q.done(item)

        c = asyncio.ensure_future(consumer())
        await asyncio.sleep(max(max(ds), 0) / 16 + 12)
        if len(got) != n or len(set(i for _, i in got)) != n:
            raise Violation(f"{n} items added, {len(got)} handed out, {len(set(i for _, i in got))} distinct")
        for t, i in got:
            if t < due[i] - EPS or t > due[i] + EPS:
                raise Violation(f"item {i} handed out at {t}, due at {due[i]}")
        if not c.done():
            raise Violation("something was handed out twice or never")
        return n > 1000 or len(set(ds)) > 1, {"over_1000"} if n > 1000 else {"less"}

    return vrun(main, max_time=1e5)


moved_cases = st.fixed_dictionaries(dict(spread=st.booleans(), rounds=st.lists(st.tuples(
    st.lists(st.tuples(st.integers(0, 9), st.integers(-1, 40)).map(list), max_size=5), st.integers(0, 12),
    st.sampled_from([0, 1, 4, 8, 41, 100]), st.booleans()).map(list), min_size=1, max_size=6)))
kinds = st.sampled_from(["delaying", "delaying", "rate"])
delay = st.one_of(st.none(), st.sampled_from([0, -1, -0.5]), st.integers(1, 200).map(lambda x: x / 64),
                  st.sampled_from([0.0007, 0.004, 0.015625, 0.5, 1.0, 2.0, 9.99, 10.0, 10.5, 25.0, 61.0]))
consumers_cases = st.fixed_dictionaries(dict(
    kind=kinds, holds=st.lists(st.sampled_from([0, 0, 1, 7, 33, 100]), min_size=1, max_size=4),
    ops=history(st.tuples(st.sampled_from([0, 0, 1, 3, 10, 64, 700]), st.integers(0, 3), delay).map(list), 20)))
fine = st.tuples(st.integers(0, 90), st.integers(0, 3)).map(list)
far = st.tuples(st.sampled_from([3000, 30_000, 700_000, 10_000_000]), st.integers(0, 3)).map(list)
b_op = weighted(
    (6, st.tuples(st.just("after"), st.integers(0, 6), fine).map(list)),
    (1, st.tuples(st.just("after"), st.integers(0, 6), st.sampled_from([[0, 0], [-1, 0]])).map(list)),
    (1, st.tuples(st.just("after"), st.integers(0, 6), far).map(list)),
    (1, st.tuples(st.just("add"), st.integers(0, 6), st.none()).map(list)),
    (3, st.tuples(st.just("wait"), st.one_of(st.integers(0, 20), st.integers(0, 120)), fine).map(list)),
    (1, st.tuples(st.just("take"), st.integers(0, 3), st.none()).map(list)),
    (1, st.tuples(st.just("done"), st.integers(0, 3), st.none()).map(list)),
)
backlog_cases = st.fixed_dictionaries(dict(fake=st.booleans(), ops=history(b_op, 25)))
flood_cases = st.fixed_dictionaries(dict(
    kind=kinds, n=st.one_of(st.integers(2, 60), st.integers(2, 60), st.integers(2, 60), st.integers(900, 2500)), together=st.booleans(),
    delays=st.lists(st.integers(-1, 200), min_size=1, max_size=9)))

TESTS = [Test("consumers", consumers_cases, run_consumers, quick=1500, thorough=80_000),
         Test("backlog", backlog_cases, run_backlog, quick=1500, thorough=80_000),
         Test("moved", moved_cases, run_moved, quick=1000, thorough=60_000),
         Test("flood", flood_cases, run_flood, quick=80, thorough=2_000)]

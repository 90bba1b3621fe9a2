"""C25: rate-limited adds become available exactly after their limiter's delay."""
from vf.env import Violation, now, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.workqueue import default_rate_limiters as rl
from aiok8s.workqueue import rate_limiting_queue

MaxOf = type(rl.default_controller_rate_limiter())

RULE = (
    "A case is a history of rate-limited, delayed and immediate adds and forgets of few items at generated times, on "
    "a queue with a default, exponential, combined or scripted limiter, and consumers of generated speed. Hand-out "
    "times are compared with a per-item reference that asks a limiter of our own. Non-trivial: an item was "
    "rate-limited at least twice, and an item was added in two ways or forgotten."
)
ASSUMPTIONS = ["an immediate add leaves a pending delayed or rate-limited add in force (as in client-go)"]
EPS = 1e-4


class Scripted:
    """A limiter of our own: the delays are given, zero and negative ones included."""

    def __init__(self, delays):
        self.delays, self.n, self.forgotten = delays, {}, []

    def when(self, item):
        n = self.n[item] = self.n.get(item, 0) + 1
        return self.delays[(n - 1) % len(self.delays)]

    def forget(self, item):
        self.n.pop(item, None)
        self.forgotten.append(item)

    def num_requeues(self, item):
        return self.n.get(item, 0)


def build(spec):
    if spec[0] == "default":
        return rl.default_controller_rate_limiter()
    if spec[0] == "exp":
        return rl.ItemExponentialFailureRateLimiter(spec[1], spec[2])
    if spec[0] == "bucket":
        return MaxOf(rl.ItemExponentialFailureRateLimiter(0.05, 5), rl.BucketRateLimiter(2, 2))
    return Scripted(spec[1])


class RefExp:
    def __init__(self, base, cap):
        self.base, self.cap, self.n = base, cap, {}

    def when(self, item):
        n = self.n[item] = self.n.get(item, 0) + 1
        return min(self.base * 2.0 ** (n - 1), self.cap)

    def forget(self, item):
        self.n.pop(item, None)

    def num_requeues(self, item):
        return self.n.get(item, 0)


class RefBucket:
    """Reservations of tokens, which come at `rate` a second up to `burst`."""

    def __init__(self, rate, burst):
        self.rate, self.burst, self.tokens, self.t = rate, burst, burst, now()

    def when(self, item):
        self.tokens = min(self.burst, self.tokens + (now() - self.t) * self.rate) - 1
        self.t = now()
        return max(0.0, -self.tokens / self.rate)

    def forget(self, item):
        pass

    def num_requeues(self, item):
        return 0


class RefMax:
    def __init__(self, *limiters):
        self.limiters = limiters

    def when(self, item):
        return max([l.when(item) for l in self.limiters])

    def forget(self, item):
        [l.forget(item) for l in self.limiters]

    def num_requeues(self, item):
        return max(l.num_requeues(item) for l in self.limiters)


def reference(spec):
    if spec[0] == "default":
        return RefMax(RefExp(0.005, 1000), RefBucket(10, 100))
    if spec[0] == "exp":
        return RefExp(spec[1], spec[2])
    if spec[0] == "bucket":
        return RefMax(RefExp(0.05, 5), RefBucket(2, 2))
    return Scripted(spec[1])


def run(case):
    async def main():
        if case["spec"][0] == "default" and case["implicit"]:
            q = rate_limiting_queue.new()
        else:
            q = rate_limiting_queue.new(build(case["spec"]))
        copy = reference(case["spec"])
        handed, events = [], []
        holds = case["holds"]
        busy = set()

        async def consumer():
            while True:
                item, down = await q.get()
                if down:
                    raise Violation("get reports shutdown")
                if item in busy:
                    raise Violation(f"{item} handed out while being processed")
                busy.add(item)
                n = sum(i == item for _, i in handed)
                handed.append((now(), item))
                await asyncio.sleep(holds[(n + item) % len(holds)] / 64)
                busy.discard(item)
                await q.done(item)

        cs = [asyncio.ensure_future(consumer()) for _ in range(6)]
        await settle()
        limited, ways, forgot = {}, {}, False
        longest = 0
        for gap, op, item, x in case["ops"]:
            await asyncio.sleep(gap / 64 + 3.1e-4)  # no two things at the same instant
            t = now()
            if op == "rate":
                d = copy.when(item)
                limited[item] = limited.get(item, 0) + 1
                await q.add_rate_limited(item)
            elif op == "after":
                d = x / 8
                await q.add_after(item, d)
            elif op == "add":
                d = 0
                await q.add(item)
            else:
                q.forget(item)
                copy.forget(item)
                forgot = True
            if op != "forget":
                events.append((t, item, d))
                longest = max(longest, d)
                ways.setdefault(item, set()).add(op)
            if now() > t + EPS:
                raise Violation(f"{op} took {now() - t} s")
            for i in range(3):
                if q.num_requeues(i) != copy.num_requeues(i):
                    raise Violation(f"requeue count of {i} is {q.num_requeues(i)}, the limiter's is {copy.num_requeues(i)}")
        await asyncio.sleep(longest + (len(case["ops"]) + 1) * max(holds) / 64 + 30)
        for c in cs:
            if c.done():
                c.result()
        for item in range(3):
            mine = [(t, d) for t, i, d in events if i == item]
            todo, deadline, free, dirty, expect = list(mine), None, 0.0, False, []
            while todo or deadline is not None or dirty:
                t = min(todo[0][0] if todo else 1e18, 1e18 if deadline is None else deadline, free if dirty else 1e18)
                if dirty and free <= t:
                    pass
                elif deadline is not None and deadline <= t:
                    deadline, dirty = None, True
                else:
                    d = todo.pop(0)[1]
                    if d <= 0:
                        dirty = True
                    else:
                        deadline = t + d if deadline is None else min(deadline, t + d)
                if dirty and free <= t:
                    expect.append(t)
                    free = t + holds[(len(expect) - 1 + item) % len(holds)] / 64
                    dirty = False
            got = [t for t, i in handed if i == item]
            if len(got) != len(expect) or any(abs(a - b) > EPS for a, b in zip(got, expect)):
                raise Violation(f"item {item} handed out at {got}, expected {expect}; adds {mine}")
        if len(q):
            raise Violation("queue is not empty in the end")
        mixed = any(len(w) > 1 for w in ways.values())
        labels = {case["spec"][0]} | ({"mixed"} if mixed else set()) | ({"forgot"} if forgot else set())
        return any(n > 1 for n in limited.values()) and (mixed or forgot), labels

    return vrun(main, max_time=1e6)


spec = st.one_of(
    st.just(["default"]),
    st.tuples(st.just("exp"), st.sampled_from([0.005, 0.1, 1]), st.sampled_from([0.5, 10, 1000])).map(list),
    st.just(["bucket"]),
    st.lists(st.sampled_from([0, -1, 0.25, 0.5, 2.0, 7.75]), min_size=1, max_size=4).map(lambda x: ["script", x]))
op = st.tuples(
    st.sampled_from([0, 0, 1, 3, 10, 64, 700]),
    st.sampled_from(["rate", "rate", "rate", "after", "add", "forget"]), st.integers(0, 2), st.integers(-2, 60)).map(list)
cases = st.fixed_dictionaries(dict(
    spec=spec, implicit=st.booleans(), holds=st.lists(st.sampled_from([0, 0, 1, 7, 33, 100]), min_size=1, max_size=4),
    ops=history(op, 25)))

TESTS = [Test("limited", cases, run, quick=2500, thorough=120_000)]

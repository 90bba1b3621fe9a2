"""C42: periodic loops and polls run on schedule and stop when told."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import weighted
from vf.runner import Test
from vf.tasks import Mine, nothing_left

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import shared_informer
from aiok8s.util import wait

RULE = (
    "loop: loop, jitter_loop, until and jitter_until with generated periods, jitter factors, call durations, and the "
    "moment of cancellation or of setting the stop event. poll: the four poll functions and the cache-sync wait with "
    "generated results, condition durations, exceptions and timeouts. Non-trivial: at least three calls."
)
ASSUMPTIONS = ["periods, intervals and timeouts are positive"]
EPS = 1e-6


def run_loop(case):
    async def main():
        mine = Mine()
        period, jf = case["period"] / 64, case["jitter"]
        kind = case["kind"]
        sliding = True if kind in ("loop", "until") else case["sliding"]
        if kind in ("loop", "until"):
            jf = 0
        starts, ends, raised = [], [], []
        active = 0

        async def f():
            nonlocal active
            if active:
                raise Violation("a call starts while another is running")
            active = 1
            n = len(starts)
            starts.append(now())
            try:
                await asyncio.sleep(case["calls"][n % len(case["calls"])] / 64)
                if n == case["boom"]:
                    raised.append(failure(case["seed"]))
                    raise raised[0]
            finally:
                active = 0
                ends.append(now())

        stop = asyncio.Event()
        has_event = kind in ("until", "jitter_until")
        if has_event and case["already"]:
            stop.set()
        coro = {"loop": lambda: wait.loop(f, period), "jitter_loop": lambda: wait.jitter_loop(f, period, jf, sliding),
                "until": lambda: wait.until(f, period, stop),
                "jitter_until": lambda: wait.jitter_until(f, period, jf, sliding, stop)}[kind]()
        t = asyncio.ensure_future(coro)
        await asyncio.sleep(case["stop"] / 64 + 3.3e-4)
        at = now()
        boom = len(ends) > case["boom"] >= 0
        if boom:
            if not t.done() or t.cancelled() or t.exception() is not raised[0]:
                raise Violation(f"a call raised, but {t!r}")
            at = ends[-1]
            await mine.check("a call raised")
        if has_event and case["already"]:
            if not t.done() or starts:
                raise Violation("called although the stop event was already set" if starts else "does not return")
            t.result()
            return False, {"already_stopped"}
        if t.done() and not boom:
            raise Violation(f"ended by itself: {t!r}")
        if not starts or starts[0] > EPS:
            raise Violation(f"first call at {starts[:1]}")
        busy = active
        if boom:
            pass
        elif has_event and not case["cancel"]:
            stop.set()
            await asyncio.wait([t], timeout=max(case["calls"]) / 64 + 0.01)
            if busy and t.done() and not t.cancelled() and raised and t.exception() is raised[0]:
                return True, {"raised_while_stopping"}
            if not t.done():
                raise Violation("does not return although the stop event was set")
            t.result()
            if not busy and now() > at + 1e-3 or busy and now() > ends[-1] + 1e-3:
                raise Violation(f"returned {now() - at} s after the stop event was set")
        else:
            t.cancel()
            await asyncio.wait([t], timeout=0.01)
            if not t.cancelled():
                raise Violation(f"cancelled, but {t!r}")
        await mine.check("it has ended")
        n = len(starts)
        if n > len([s for s in starts if s <= at]):
            raise Violation("called again after being told to stop")
        for i in range(1, n):
            ref = ends[i - 1] if sliding else starts[i - 1]
            gap = starts[i] - ref
            low = period
            high = period * (1 + jf) if jf > 0 else period
            if not sliding:
                d = ends[i - 1] - starts[i - 1]
                low, high = max(low, d), max(high, d)
            if gap < low - EPS or gap > high + EPS:
                raise Violation(f"call {i} comes {gap} s after the {'end' if sliding else 'start'} of the one before, "
                                f"period {period}, jitter {jf}")
        if jf >= 0.05 and n >= 4:
            # each round draws its own jitter
            waits = [b - a for a, b in zip(ends if sliding else starts, starts[1:])]
            if (sliding or max(case["calls"]) / 64 < period) and max(waits) - min(waits) < 1e-9:
                raise Violation(f"with jitter {jf} the waits were all the same: {waits}")
        ref = ends[-1] if sliding else starts[-1]
        high = period * (1 + max(jf, 0))
        if not busy:
            due = ref + high if sliding else max(ref + high, ends[-1])
            if at > due + EPS:
                raise Violation(f"no call between {ref} and {at}, period {period}")
        await asyncio.sleep(3 * high + 1)
        if len(starts) != n:
            raise Violation("called again after it had stopped")
        return n >= 3, {kind}

    return vrun(main, max_time=1e6, seed=case["seed"])


class Boom(Exception):
    pass


FAILURES = [Boom, ValueError, KeyError, TimeoutError, OSError, RuntimeError, asyncio.QueueEmpty, wait.WaitTimeoutError, LookupError,
            AssertionError, AttributeError]


def failure(i):
    return FAILURES[i % len(FAILURES)]("failed")


def run_poll(case):
    async def main():
        mine = Mine()
        interval, timeout = case["interval"] / 64, case["timeout"] and case["timeout"] / 64 + 1.7e-4
        kind = case["kind"]
        starts, ends, raised = [], [], []

        async def condition():
            n = len(starts)
            starts.append(now())
            r, d = case["results"][n] if n < len(case["results"]) else [case["rest"], 0]
            try:
                await asyncio.sleep(d / 64)
            finally:
                ends.append(now())
            if r == "raise":
                raised.append(failure(case["failure"]))
                raise raised[0]
            if r == "timeout":
                raise TimeoutError("from the condition")
            return r == "true"

        fn = dict(poll=lambda: wait.poll(interval, timeout, condition),
                  poll_immediate=lambda: wait.poll_immediate(interval, timeout, condition),
                  poll_infinite=lambda: wait.poll_infinite(interval, condition),
                  poll_immediate_infinite=lambda: wait.poll_immediate_infinite(interval, condition))[kind]
        t = asyncio.ensure_future(fn())
        # reference: when does each test start, and how does it all end?
        immediate, limited = "immediate" in kind, "infinite" not in kind
        clock, n, exp_starts, outcome, end = 0.0, 0, [], None, None
        deadline = None if immediate or not limited else timeout
        if not immediate:
            clock += interval
        while outcome is None:
            if deadline is not None and clock > deadline:
                outcome, end = "deadline", deadline
                break
            if n >= 60:
                break
            exp_starts.append(clock)
            r, d = case["results"][n] if n < len(case["results"]) else [case["rest"], 0]
            n += 1
            if deadline is not None and clock + d / 64 > deadline:
                outcome, end = "deadline", deadline
                break
            clock += d / 64
            if r != "false":
                outcome, end = r, clock
                break
            if limited and deadline is None:
                deadline = clock + timeout
            clock += interval
        await asyncio.wait([t], timeout=(end if end is not None else clock) + 0.5 if outcome else clock - interval / 2)
        if outcome is None:
            if t.done():
                raise Violation(f"ended by itself: {t!r}")
            t.cancel()
            await asyncio.wait([t], timeout=1)
            await mine.check("cancelled")
        elif not t.done():
            raise Violation(f"not done {0.5} s after it should have ended ({outcome})")
        if len(starts) != len(exp_starts) or any(abs(a - b) > 1e-5 for a, b in zip(starts, exp_starts)):
            raise Violation(f"tested at {starts}, expected {exp_starts}")
        if outcome is not None:
            e = t.exception()
            good = {"true": e is None, "raise": raised and e is raised[0], "timeout": type(e) is TimeoutError,
                    "deadline": isinstance(e, wait.WaitTimeoutError)}[outcome]
            if not good:
                raise Violation(f"outcome {outcome} is reported as {e!r}")
        await mine.check("it has ended")
        m = len(starts)
        await asyncio.sleep(3 * interval + 1)
        if len(starts) != m:
            raise Violation("tested again after the end")
        return m >= 3, {outcome or "endless"}

    # the end is judged by the time at which the task ended
    return vrun(main, max_time=1e6)


def run_poll_end(case):
    """Exactly when a poll gives up."""
    async def main():
        interval, timeout = case["interval"] / 64, case["timeout"] / 64 + 1.7e-4
        t_end = []

        active = 0

        async def condition():
            nonlocal active
            active += 1
            try:
                await asyncio.sleep(case["d"] / 64)
            finally:
                active -= 1
            return False

        async def call():
            try:
                if case["immediate"]:
                    await wait.poll_immediate(interval, timeout, condition)
                else:
                    await wait.poll(interval, timeout, condition)
            except wait.WaitTimeoutError:
                t_end.append(now())
                if active:
                    raise Violation("gave up, but its condition still runs")

        await asyncio.wait_for(call(), 1e5)
        want = timeout + (case["d"] / 64 if case["immediate"] else 0)
        if not t_end or abs(t_end[0] - want) > 1e-5:
            raise Violation(f"gave up at {t_end}, expected at {want}")
        return timeout > interval, set()

    return vrun(nothing_left(main), max_time=1e6)


def run_sync(case):
    """wait_for_cache_sync waits for all of them."""
    async def main():
        ready = case["ready"]
        funcs = [(lambda at=at: now() >= at / 64) for at in ready]
        if case["raises"] >= 0:
            n = [0]

            def bad():
                n[0] += 1
                if n[0] > case["raises"]:
                    raise Boom()
                return False

            funcs.append(bad)
        t = asyncio.ensure_future(shared_informer.wait_for_cache_sync(*funcs))
        last = max(ready or [0]) / 64
        if case["raises"] >= 0:
            await asyncio.wait([t], timeout=last + 10)
            if not t.done() or t.result() is not False:
                raise Violation(f"a sync function raised, but {t!r}")
            return False, {"raises"}
        while not t.done() and now() < last + 5:
            if t.done() and now() < last:
                raise Violation("reports synced too early")
            await asyncio.sleep(1 / 64)
        if not t.done() or t.result() is not True:
            raise Violation(f"all are synced since {last}, but {t!r}")
        if now() < last - 1e-9:
            raise Violation(f"reports synced at {now()}, the last one is at {last}")
        if now() > last + 0.2:
            raise Violation(f"reports synced at {now()}, all were at {last}")
        return len(ready) > 1, set()

    return vrun(nothing_left(main), max_time=1e6)


seeds = st.integers(0, 10**6)
loops = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["loop", "jitter_loop", "until", "jitter_until", "jitter_until"]), period=st.one_of(st.integers(1, 200), st.just(64)),
    jitter=st.one_of(st.sampled_from([0, 0, -1, 0.1, 1]), st.floats(0, 2)), sliding=st.booleans(),
    calls=st.lists(st.sampled_from([0, 0, 1, 30, 64, 100, 300]), min_size=1, max_size=4), boom=st.sampled_from([-1, -1, -1, -1, 0, 1, 3]), already=st.sampled_from([False] * 9 + [True]),
    cancel=st.booleans(), stop=st.one_of(st.integers(0, 100), st.integers(0, 2000)), seed=seeds))
outcomes = weighted((8, st.just("false")), (1, st.just("true")), (1, st.just("raise")), (1, st.just("timeout")))
polls = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["poll", "poll", "poll_immediate", "poll_immediate", "poll_infinite", "poll_immediate_infinite"]),
    interval=st.integers(1, 100), timeout=st.one_of(st.integers(0, 100), st.integers(1, 1000), st.integers(0, 1)), failure=st.integers(0, 10),
    results=st.lists(st.tuples(outcomes, st.sampled_from([0, 0, 0, 1, 30, 200])).map(list), max_size=12), rest=st.sampled_from(["false", "true"])))
ends = st.fixed_dictionaries(dict(immediate=st.booleans(), interval=st.integers(1, 100), timeout=st.integers(1, 1000), d=st.sampled_from([0, 0, 1, 77])))
syncs = st.fixed_dictionaries(dict(ready=st.lists(st.integers(0, 300), max_size=4), raises=st.sampled_from([-1, -1, -1, 0, 3])))

TESTS = [Test("loop", loops, run_loop, quick=1500, thorough=80_000),
         Test("poll", polls, run_poll, quick=1500, thorough=80_000),
         Test("poll_end", ends, run_poll_end, quick=300, thorough=10_000),
         Test("sync", syncs, run_sync, quick=300, thorough=10_000)]

"""C40: fake clock fires timers and tickers exactly when due (and the real clock does so in real time)."""
from vf.env import Violation, now, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test
from vf.watching import finish

import asyncio

from hypothesis import strategies as st

from aiok8s.util import clock

RULE = (
    "fake: a history of steps (also long and backward settings), timers and tickers with generated durations, reads, "
    "stops and resets, compared with a reference after every operation. real: timers and tickers of the real clock "
    "over virtual time. Non-trivial: a timer and a ticker were alive at once, and a stop or reset hit a pending timer."
)
ASSUMPTIONS = ["ticker intervals are positive"]
U = 64


def run_fake(case):
    async def main():
        t = case["start"]
        c = clock.FakeClock(t / U)
        timers = []  # [timer, target, pending, unread value]
        tickers = []  # [ticker, next, interval, unread value]
        both = hit = False
        labels = set()

        async def move(to):
            nonlocal t
            t = to
            for x in timers:
                if x[2] and x[1] <= t:
                    x[2], x[3] = False, t
            for x in tickers:
                if x[1] <= t:
                    if x[3] is None:
                        x[3] = t
                    while x[1] <= t:
                        x[1] += x[2]

        for op, a, b in case["ops"]:
            if op == "timer":
                timers.append([c.new_timer(a / U), t + a, True, None])
            elif op == "ticker":
                tickers.append([c.new_ticker(max(a, 1) / U), t + max(a, 1), max(a, 1), None])
            elif op == "step":
                await finish([asyncio.ensure_future(c.step(a / U))], 1, "step")
                await move(t + a)
            elif op == "set":
                await finish([asyncio.ensure_future(c.set_time((t + b) / U))], 1, "set_time")
                await move(t + b)
                if b < 0:
                    labels.add("backward")
            elif op == "stop" and timers:
                x = timers[a % len(timers)]
                hit |= x[2]
                if bool(x[0].stop()) != x[2]:
                    raise Violation(f"stop of a timer reports {not x[2]}, pending was {x[2]}")
                x[2] = False
            elif op == "reset" and timers:
                x = timers[a % len(timers)]
                d = abs(b)
                hit |= x[2]
                if bool(x[0].reset(d / U)) != x[2]:
                    raise Violation(f"reset of a timer reports {not x[2]}, pending was {x[2]}")
                if x[2]:
                    x[1] = t + d
            elif op == "stop_ticker" and tickers:
                tickers[a % len(tickers)][0].stop()  # documented to do nothing
                labels.add("ticker_stopped")
            elif op == "read":
                xs = timers + tickers
                for x in xs:
                    if x[3] is not None and (b + a) % 3:
                        v = x[0].c().get_nowait()
                        if v != x[3] / U:
                            raise Violation(f"fired with {v}, expected {x[3] / U}")
                        x[3] = None
            for x in timers + tickers:
                n = x[0].c().qsize()
                if n != (x[3] is not None):
                    raise Violation(f"at {t}: {n} unread firings of {'timer' if x in timers else 'ticker'} "
                                    f"due at {x[1]}, expected {x[3]}")
            if c.now() != t / U or c.since(case["start"] / U) != (t - case["start"]) / U:
                raise Violation(f"shows {c.now()}, expected {t / U}")
            alive = any(x[2] for x in timers) or bool(tickers)
            if bool(c.has_waiters()) != alive:
                raise Violation(f"has_waiters() is {c.has_waiters()}, expected {alive}")
            both |= bool(tickers) and any(x[2] for x in timers)
        p = clock.FakePassiveClock(1.0)
        await p.set_time(t / U)
        if p.now() != t / U or p.since(0) != t / U:
            raise Violation("a passive clock does not show the time set")
        return both and hit, labels

    return vrun(main)


def run_real(case):
    async def main():
        base = set(asyncio.all_tasks())
        c = clock.RealClock()
        loop = asyncio.get_running_loop()
        await asyncio.sleep(case["start"] / U)
        timers, tickers = [], []  # [obj, created, d, stopped at, reads]
        for op, a, b in case["ops"]:
            if op == "timer":
                timers.append([c.new_timer(a / U), now(), a / U, None, []])
            elif op == "ticker":
                tickers.append([c.new_ticker(max(a, 1) / U), now(), max(a, 1) / U, None, []])
            elif op in ("step", "set"):
                t0 = c.now()
                await asyncio.sleep(abs(a) / U + 1.7e-4)  # no two things at the same instant
                if abs(c.since(c.now() + 5) + 5) > 1e-5:
                    raise Violation(f"{c.since(c.now() + 5)} s since 5 s from now")
                if abs(c.since(t0) - abs(a) / U - 1.7e-4) > 1e-5 or abs(c.now() - loop.wall()) > 1e-5:
                    raise Violation("now() or since() is wrong")
            elif op == "stop" and timers or op == "stop_ticker" and tickers:
                xs = timers if op == "stop" else tickers
                x = xs[a % len(xs)]
                x[0].stop()
                if x[3] is None:
                    x[3] = now()
            elif op == "read":
                await settle()
                for x in timers + tickers:
                    while not x[0].c().empty():
                        x[4].append((now(), x[0].c().get_nowait()))
            await settle()
            for x in timers:
                n = x[0].c().qsize() + len(x[4])
                due = now() >= x[1] + x[2] + 1e-4 and (x[3] is None or x[3] > x[1] + x[2])
                early = now() < x[1] + x[2] or x[3] is not None and x[3] < x[1] + x[2]
                if n > 1 or due and n != 1 or early and n:
                    raise Violation(f"timer of {x[2]} s started at {x[1]}, stopped at {x[3]}, fired {n} times by {now()}")
            for x in tickers:
                end = now() if x[3] is None else x[3]
                ticks = int((end - x[1] + 1e-5) / x[2])
                n = x[0].c().qsize()
                last = x[4][-1][0] if x[4] else x[1]
                missed = int((end - x[1] + 1e-4) / x[2]) - int((last - x[1] - 1e-4) / x[2]) if last < end else 0
                if n > 1 or n and not ticks:
                    raise Violation(f"ticker of {x[2]} s started at {x[1]} has {n} ticks waiting at {now()}")
                if missed > 1 and not n:
                    raise Violation(f"ticker of {x[2]} s started at {x[1]} has no tick waiting at {now()}, last read {last}")
                if len(x[4]) + n > ticks:
                    raise Violation(f"ticker of {x[2]} s started at {x[1]} ticked {len(x[4]) + n} times by {end}")
        for x in timers + tickers:
            x[0].stop()
        await settle()
        if [t for t in asyncio.all_tasks() if t not in base and not t.done()]:
            raise Violation("a stopped timer or ticker leaves a task behind")
        return bool(timers) and bool(tickers), set()

    return vrun(main, max_time=1e6)


ticks = st.one_of(st.integers(0, 10), st.integers(0, 200), st.sampled_from([64, 128]))
op = st.tuples(
    st.sampled_from(["timer", "timer", "ticker", "step", "step", "step", "set", "stop", "reset", "stop_ticker", "read", "read"]),
    ticks, st.one_of(st.integers(-20, 300), st.integers(0, 10))).map(list)
cases = st.fixed_dictionaries(dict(start=st.integers(0, 1000), ops=history(op, 30)))

ALONE = ["real"]
TESTS = [Test("fake", cases, run_fake, quick=2500, thorough=150_000),
         Test("real", cases, run_real, quick=800, thorough=40_000)]

"""C11: the reflector resyncs its store every period, and only when asked."""
from vf.env import Violation, now, pause, settle, vrun
from vf.failures import CLASSES, pick
from vf.fakes import KEYS, RecStore, Res, Server, key_of, rv_of, small, watch_step
from vf.gen import history
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import reflector

RULE = (
    "A case is a resync period, a script of should-resync answers (or failures), resync failures and slow writes, fault plans "
    "for lists and watches, server changes and a cancellation time. Non-trivial: at least two resyncs were due."
)
ASSUMPTIONS = ["a request or store write that is in flight when the reflector is cancelled stops when cancelled"]

EPS = 0.02


def run(case):
    async def main():
        p = case["period"] / 64
        srv = Server(case["plan"])
        for k in case["initial"]:
            srv.put(k)
        asks, raised, resyncs, cycles = [], [], [], []  # cycles: [start, end or None]
        answers, fails = list(case["answers"]), list(case["fails"])

        class S(RecStore):
            async def replace(self, items, rv):
                await super().replace(items, rv)
                cycles.append([now(), None])

            async def resync(self):
                me = [now(), None, bool(fails and fails.pop(0))]
                resyncs.append(me)
                await self._rec("resync")
                me[1] = now()
                if me[2]:
                    raise pick(CLASSES, len(resyncs))("resync failed")

        s = S(case["delays"])
        r = reflector.Reflector(srv, Res, s, p)

        def should():
            a = answers.pop(0) if answers else True
            asks.append((now(), bool(a)))
            if a is None:
                raised.append(now())
                raise pick(CLASSES, len(asks))("should_resync failed")
            return a

        if case["pred"]:
            r.should_resync = should
        base = set(asyncio.all_tasks())
        t = asyncio.ensure_future(r.run())
        stop_at = case["stop"] / 64
        for d, op in case["script"]:
            if now() + 0.7 * 3 > stop_at:
                break
            await pause(d)
            srv.do(op)
        await asyncio.sleep(max(stop_at - now(), 0))
        if t.done():
            raise Violation(f"the reflector ended: {t!r}")
        end = now()
        t.cancel()
        await asyncio.wait([t], timeout=5)
        n = len(srv.calls), len(s.ops), len(asks)
        if not t.done():
            raise Violation("still running 5 s after being cancelled")
        if now() > end + 1:
            raise Violation(f"took {now() - end} s to stop")
        await settle()
        left = [x for x in asyncio.all_tasks() if x not in base and not x.done()]
        if left:
            raise Violation(f"left behind: {left}")
        if srv.open_watches():
            raise Violation("a watch was left open")
        srv.put(KEYS[0])
        await asyncio.sleep(3 * p + 5)
        if n != (len(srv.calls), len(s.ops), len(asks)):
            raise Violation("requests, writes or resyncs after the reflector was cancelled")

        # judge the resync times of every list-and-watch cycle
        labels = set()
        if not case["pred"]:
            asks = [(a, True) for a, _, _ in resyncs]
        if not p and (asks and case["pred"] or resyncs):
            raise Violation("resync without a period")
        due = 0
        lists = [c["t"] for c in srv.calls if c["kind"] == "list"]
        # a resync happens exactly when the predicate agrees
        yes = [a for a, ok in asks if ok]
        if len(yes) != len(resyncs) or any(abs(a - b[0]) > EPS for a, b in zip(yes, resyncs)):
            raise Violation(f"asked at {asks}, resynced at {resyncs}")
        for i, (start, _) in enumerate(cycles):
            nxt = next((x for x in lists if x > start), None)
            # the time until which a watch of this cycle is known to have been running
            stop = max([start] + [w.t_end if w.t_end is not None else end for w in srv.watches
                                  if start <= w.t0 and (nxt is None or w.t0 < nxt)])
            mine = [a for a in asks if start <= a[0] < (nxt if nxt is not None else end + 1)]
            prev, slack = start, 0.0
            for a, ok in mine:
                if a < prev + p - EPS:
                    raise Violation(f"asked to resync at {a}, {a - prev} after the previous time; period {p}")
                if a > prev + p + slack + EPS:
                    raise Violation(f"asked to resync at {a}, {a - prev} after the previous time; period {p}")
                prev, slack = a, 0.0
                for b0, b1, _ in resyncs:
                    if abs(b0 - a) < 1e-9:
                        slack = (b1 if b1 is not None else end) - b0
                due += 1
            # one that failed (or whose predicate did) may end the watch
            failed = [b0 for b0, _, f in resyncs if f] + [x for x in raised if nxt is not None and nxt < x + 2.5]
            if p and stop - prev > p + slack + EPS and not any(abs(x - prev) < 1e-9 for x in failed):
                raise Violation(f"no resync between {prev} and {stop}, period {p}")
        # a failing resync ends the watch and leads to a new list
        for b0, b1, f in resyncs:
            if f and b1 is not None and b1 + 2.5 < end:
                labels.add("failed_resync")
                if not any(b1 <= x <= b1 + 2.5 for x in lists):
                    raise Violation(f"resync failed at {b1}, but nothing was listed by {b1 + 2.5}; lists {lists}")
        labels.add("zero" if not p else "pred" if case["pred"] else "always")
        if srv.faults:
            labels.add("faults")
        if raised:
            labels.add("predicate_failed")
        if len(cycles) > 1:
            labels.add("relisted")
        return due >= 2, labels

    return vrun(main, max_time=1e5)


wstep = st.one_of(
    st.tuples(st.just("close"), st.just(-1), st.integers(1, 3), st.sampled_from([70, 100, 300, 1000]),
              st.sampled_from([-1, 3])).map(list), watch_step)
op = st.tuples(st.sampled_from([-1, 5, 32, 64]), st.tuples(st.sampled_from(["put", "put", "delete"]),
                                                           st.sampled_from(KEYS)).map(list)).map(list)
lstep = st.one_of(st.just(["ok", -1, -1]), st.just(["error", -1]))
cases = st.fixed_dictionaries(dict(
    period=st.sampled_from([32, 64, 100, 150, 0, 640]), pred=st.booleans(),
    answers=st.lists(st.sampled_from([True, True, False, False, None]), max_size=6), fails=st.lists(st.sampled_from([False, False, True]), max_size=5),
    delays=st.lists(st.sampled_from([-1, -1, 0, 2, 20]), max_size=3),
    plan=st.fixed_dictionaries(dict(list=st.lists(lstep, max_size=3), watch=st.lists(wstep, max_size=6))),
    initial=st.lists(st.sampled_from(KEYS), max_size=2), script=st.lists(op, max_size=10),
    stop=st.one_of(st.integers(1, 200), st.integers(300, 2000), st.integers(800, 2500))))

ALONE = ["resync"]
TESTS = [Test("resync", cases, run, quick=2500, thorough=100_000)]

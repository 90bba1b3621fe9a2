"""C35: broadcaster calls that are given up have no lasting effect."""
from vf.env import Violation, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.tasks import nothing_left
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.watch import mux

RULE = (
    "A case is a broadcaster (waiting or dropping, of any queue length) and a script of sends, watches (with or without "
    "a prefix) and a shutdown, any of which may be given up (cancelled) after a generated number of scheduling steps or "
    "time, with consumers of generated speed. Non-trivial: a call was given up before it returned, and something was "
    "sent afterwards."
)
ASSUMPTIONS = ["sends are issued one after the other", "a send given up may or may not take effect, but for all watchers alike"]


def run(case):
    async def main():
        wait_mode = case["wait"]
        b = mux.Broadcaster(case["length"], mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL if wait_mode
                            else mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
        begun = 0
        sent, dropped = set(), set()  # completed; given up
        consumers, labels = [], set()
        watching = []

        async def give_up(aw, patience):
            """None: for ever; [steps, ticks]"""
            t = asyncio.ensure_future(aw)
            if patience is None:
                await finish([t], 4000, "a call")
                return t
            steps, ticks = patience
            if ticks:
                await asyncio.wait([t], timeout=ticks / 64)
            for _ in range(steps):
                if not t.done():
                    await asyncio.sleep(0)
            if not t.done():
                t.cancel()
                await asyncio.wait([t], timeout=1)
                if not t.done():
                    raise Violation("a call that is cancelled goes on")
                labels.add("given_up")
            return t

        async def watch(prefix, spec, patience):
            lo = max(sent, default=-1) + 1
            events = [{"type": "ADDED", "object": -j} for j in range(prefix or 0, 0, -1)]
            t = await give_up(b.watch() if prefix is None else b.watch_with_prefix(list(events)), patience)
            if not t.cancelled():
                consumers.append((Consumer(t.result(), spec), events, lo, begun))

        n_given_up = 0
        for d, op, arg, spec, patience in case["script"]:
            await pause(d)
            if op == "send":
                for _ in range(arg):
                    i = begun
                    begun += 1
                    t = await give_up(b.action("MODIFIED", i), patience)
                    (dropped if t.cancelled() else sent).add(i)
                    if not t.cancelled():
                        t.result()
                if n_given_up:
                    labels.add("sent_later")
            elif op == "watch":
                t = asyncio.ensure_future(watch(None if arg > 3 else arg, spec, patience))
                watching.append(t)
                if d < 0:
                    await settle()
            if "given_up" in labels:
                n_given_up = 1
        await finish(watching, 5000, "watch")
        if case["down"] is not None:
            t = await give_up(b.shutdown(), case["down"])
            if t.cancelled():
                labels.add("shutdown_given_up")
        if case["down"] is None or t.cancelled():
            await finish([asyncio.ensure_future(b.shutdown())], 5000, "shutdown")
        for c, _, _, _ in consumers:
            await finish([c.task], 4000, "the stream of a watcher")
        missing = []  # per watcher: (first received, given-up events it has not received)
        for c, prefix, lo, hi in consumers:
            got = c.numbers()
            n = len(prefix)
            if c.got[:n] != prefix:
                raise Violation(f"prefix events {prefix}, but received {c.got}")
            got = got[n:]
            if got != sorted(set(got)) or got and got[0] < lo:
                raise Violation(f"watching since event {lo}..{hi}, but received {got}")
            if wait_mode:
                # all that was sent from some point on
                must = [i for i in range(begun) if i in sent and i >= hi]
                may = [i for i in range(begun) if i in sent and i >= lo]
                have = [i for i in got if i in sent]
                if have != may[len(may) - len(have):] or len(have) < len(must):
                    raise Violation(f"watching since event {lo}..{hi}, sent {sorted(sent)}, but received {got}")
                missing.append((hi, {i for i in dropped if i >= hi and i not in got}))
        for hi, m in missing:
            for hi2, m2 in missing:
                if {i for i in m if i >= hi2} != {i for i in m2 if i >= hi}:
                    raise Violation(f"watchers differ in the given-up sends they have received: {missing}")
        return {"given_up", "sent_later"} <= labels, labels | {"wait" if wait_mode else "drop"}

    return vrun(nothing_left(main), max_time=1e5)


patience = st.one_of(st.none(), st.tuples(st.integers(0, 4), st.sampled_from([0, 0, 0, 1, 5, 20])).map(list))
impatient = st.tuples(st.integers(0, 4), st.sampled_from([0, 0, 1, 5, 20])).map(list)
op = weighted(
    (3, st.tuples(delays, st.just("send"), st.one_of(st.integers(1, 4), st.integers(1, 40)), st.just([]), st.none()).map(list)),
    (1, st.tuples(delays, st.just("send"), st.one_of(st.integers(1, 4), st.integers(1, 40)), st.just([]), impatient).map(list)),
    (2, st.tuples(delays, st.just("watch"), st.integers(0, 6), waits, st.none()).map(list)),
    (2, st.tuples(delays, st.just("watch"), st.integers(0, 6), waits, impatient).map(list)),
)
cases = st.fixed_dictionaries(dict(
    wait=st.sampled_from([True, True, False]), length=st.sampled_from([0, 1, 1, 2, 3, 10]),
    script=history(op, 14), down=st.one_of(st.none(), st.none(), impatient)))

TESTS = [Test("given_up", cases, run, quick=1500, thorough=60_000)]

"""C30: a waiting broadcaster delivers every event to every watcher in order."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.tasks import nothing_left
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.watch import mux

RULE = (
    "A case is a buffer length and a script of sends, watches (some with prefix events, some registered while sends "
    "are under way) and pauses, ended by a shutdown; consumers have generated speed and patience. Non-trivial: at "
    "least two watchers, or more events than the buffer holds."
)
ASSUMPTIONS = ["events are sent one after the other; nothing is sent and nobody starts watching after the shutdown"]
TYPES = ["ADDED", "MODIFIED", "DELETED", "ERROR"]


def run(case):
    async def main():
        b = mux.Broadcaster(case["length"], mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        sent = []
        begun = 0
        consumers = []  # consumer, prefix, lo, hi
        pending = []

        async def send():
            nonlocal begun
            i = begun
            begun += 1
            await b.action(TYPES[i % 4], i)
            sent.append(i)

        async def watch(prefix, spec):
            lo = len(sent)
            if prefix is None:
                w = await b.watch()
                events = []
            else:
                events = [{"type": TYPES[k % 4], "object": f"p{k}"} for k in range(prefix)]
                w = await b.watch_with_prefix(list(events))
            consumers.append((Consumer(w, spec), events, lo, begun))

        sending = None
        for op, a, spec in case["script"]:
            if op == "pause":
                await pause(a)
            elif op == "send":
                for _ in range(a):
                    if sending is not None:
                        await finish([sending], 5000, "a send")
                    sending = asyncio.ensure_future(send())
                    if not case["overlap"]:
                        await finish([sending], 5000, "a send")
            elif op == "watch":
                t = asyncio.ensure_future(watch(a, spec))
                if case["overlap"]:
                    pending.append(t)
                    await asyncio.sleep(0)
                else:
                    await finish([t], 5000, "watch")
        await finish(pending, 5000, "watch")
        if sending is not None:
            await finish([sending], 5000, "a send")
        await finish([asyncio.ensure_future(b.shutdown())], 5000, "shutdown")
        for c, prefix, _, _ in consumers:
            # what is not received yet is at least waiting for the consumer
            left = len(prefix) + len(sent) - len(c.got)
            room = max(case["length"], len(prefix) + 1 if prefix else 0) + 1
            lo = next(x[2] for x in consumers if x[0] is c)
            hi = next(x[3] for x in consumers if x[0] is c)
            if left - hi > room:
                raise Violation(f"shutdown has returned while a watcher since event {lo}..{hi} of {len(sent)} has received "
                                f"{len(c.got)} and has room for {room}")
        await asyncio.sleep(1)
        for c, _, _, _ in consumers:
            await finish([c.task], 2000, "the stream of a watcher")
        # after the end, the stream stays ended
        for c, prefix, lo, hi in consumers:
            try:
                e = await asyncio.wait_for(c.w.__anext__(), 1)
                raise Violation(f"got {e} after the end of the stream")
            except StopAsyncIteration:
                pass
            except asyncio.TimeoutError:
                raise Violation("iterating an ended stream blocks")
            got = c.got[:len(prefix)]
            if got != prefix:
                raise Violation(f"prefix events {prefix}, but received {c.got}")
            rest = [e["object"] for e in c.got[len(prefix):]]
            if not any(rest == sent[k:] for k in range(lo, hi + 1)):
                raise Violation(f"watching since event {lo}..{hi} of {len(sent)}, but received {rest}")
            if any(e["type"] != TYPES[e["object"] % 4] for e in c.got[len(prefix):]):
                raise Violation(f"event types are mixed up: {c.got}")
        labels = set()
        if any(c.gave_up for c, _, _, _ in consumers):
            labels.add("gave_up")
        if any(p for _, p, _, _ in consumers):
            labels.add("prefix")
        return len(consumers) > 1 or bool(consumers) and len(sent) > case["length"] + 1, labels

    return vrun(nothing_left(main), max_time=1e5)


op = weighted(
    (4, st.tuples(st.just("send"), st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 40)), st.none()).map(list)),
    (2, st.tuples(st.just("watch"), st.one_of(st.none(), st.integers(0, 5)), waits).map(list)),
    (1, st.tuples(st.just("pause"), delays, st.none()).map(list)),
)
cases = st.fixed_dictionaries(dict(length=st.one_of(st.integers(0, 4), st.sampled_from([10, 100])),
                                   overlap=st.booleans(), script=history(op, 14)))

TESTS = [Test("deliver", cases, run, quick=1500, thorough=60_000)]

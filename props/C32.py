"""C32: stopping a watcher at any time neither blocks nor disturbs the others."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.tasks import nothing_left
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.watch import mux

RULE = (
    "A case is a broadcaster (waiting or dropping), a stream of sends running in the background, consumers that are "
    "prompt, slow or never take anything, watchers (with or without a prefix) added meanwhile, and stops (once, repeatedly, concurrently, by leaving the context) at "
    "generated moments, before, while and after shutting down. Non-trivial: a watcher was stopped while a send was "
    "held up, or while another watcher was receiving."
)
ASSUMPTIONS = ["an unbuffered broadcaster hands over an event to all watchers before it takes the next one"]


def run(case):
    async def main():
        wait_mode = case["wait"]
        b = mux.Broadcaster(case["length"], mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL if wait_mode
                            else mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
        sent = []
        begun = 0
        ws = []  # [watcher, consumer, kind, lo, hi, stopped]
        stops = []
        labels = set()
        for spec in case["watchers"]:
            w = await b.watch()
            ws.append([w, None if spec["kind"] == "idle" else Consumer(w, [[-1, -1]] if spec["kind"] == "prompt" else spec["waits"]),
                       spec["kind"], False, 0, 0, 0])

        async def send_all():
            nonlocal begun
            for d, n in case["sends"]:
                await pause(d)
                for _ in range(n):
                    begun += 1
                    await b.action("ADDED", begun - 1)
                    sent.append(begun - 1)

        async def by_context(w):
            async with w as same:
                if same is not w and not hasattr(same, "__aiter__"):
                    raise Violation(f"a watcher as a context is {same!r}")

        sender = asyncio.ensure_future(send_all())
        down = None
        nontrivial = False

        async def stop(x, how):
            t = [asyncio.ensure_future(by_context(x[0]) if how == 1 else x[0].stop()) for _ in range(1 + (how == 2))]
            stops.extend(t)
            await asyncio.wait(t, timeout=1e-3)
            for s in t:
                if not s.done():
                    raise Violation(f"stopping a {x[2]} watcher blocks")
                s.result()
            x[3] = True

        adding = []

        async def add(kind, n):
            lo = len(sent)
            w = await (b.watch_with_prefix([{"type": "ADDED", "object": -j} for j in range(n, 0, -1)]) if n else b.watch())
            ws.append([w, None if kind == "idle" else Consumer(w, [[-1, -1]] if kind == "prompt" else case["waits"]), kind, False, lo, begun, n])

        for d, op, i, how in case["script"]:
            await pause(d)
            if op == "watch" and down is None:
                if any(x[3] for x in ws):
                    labels.add("added_after_stop")
                adding.append(asyncio.ensure_future(add(["prompt", "slow", "idle"][how], i)))
            if op == "stop" and ws:
                await settle()
                x = ws[i % len(ws)]
                if wait_mode and begun > len(sent):
                    labels.add("send_held_up")
                    nontrivial = True
                if not x[3] and any(y[1] and not y[3] and y is not x for y in ws):
                    nontrivial = True
                if x[3]:
                    labels.add("again")
                if down is not None:
                    labels.add("while_down" if down.done() else "while_shutting_down")
                await stop(x, how)
            elif op == "shutdown" and sender.done() and down is None and all(t.done() for t in adding):
                down = asyncio.ensure_future(b.shutdown())
        # stop those who take nothing: everything else must come to an end by itself
        for _ in range(len(adding) + 1):
            for x in list(ws):
                if x[2] == "idle" and not x[3]:
                    await settle()
                    if wait_mode and begun > len(sent):
                        labels.add("send_held_up")
                    await stop(x, 0)
            if adding:
                await asyncio.wait(adding, timeout=500)
        for t in adding:
            if not t.done():
                raise Violation("adding a watcher is held up although every watcher consumes or was stopped")
            t.result()
        await asyncio.wait([sender], timeout=3000)
        if not sender.done():
            raise Violation("a send is held up although every watcher consumes or was stopped")
        sender.result()
        if down is None:
            down = asyncio.ensure_future(b.shutdown())
        await asyncio.wait([down], timeout=3000)
        if not down.done():
            raise Violation("shutdown does not complete although every watcher consumes or was stopped")
        down.result()
        for x in ws:
            await stop(x, case["last"]) if x[3] else None
        await asyncio.sleep(1)
        for w, c, kind, stopped, lo, hi, prefix in ws:
            if c:
                await finish([c.task], 3000, f"the stream of a {'stopped ' if stopped else ''}watcher")
                got = c.numbers()
                if got != sorted(set(got)):
                    raise Violation(f"not in order or duplicated: {got}")
                first = list(range(-prefix, 0))
                if got[:prefix] != first[:len(got)]:
                    raise Violation(f"a watcher with a prefix of {prefix} received {got}")
                got = got[prefix:]
                if got and (wait_mode and not lo <= got[0] <= hi or got[0] < 0):
                    raise Violation(f"first received {got[0]}, added when between {lo} and {hi} had been sent")
                if wait_mode and got and got != list(range(got[0], got[0] + len(got))):
                    raise Violation(f"missed events before it was stopped: {got}")
                if not stopped and wait_mode and got[-1:] != [begun - 1] and hi < begun:
                    raise Violation(f"sent {begun} events, a watcher that stayed received {got}")
            n = 0
            while True:
                try:
                    await asyncio.wait_for(w.__anext__(), 1)
                except StopAsyncIteration:
                    break
                except asyncio.TimeoutError:
                    raise Violation("iterating the stream of a stopped watcher blocks")
                n += 1
                if n > max(case["length"], prefix + 1) + (begun if not case["length"] else 0):
                    raise Violation("the stream of a stopped watcher does not end")
        return nontrivial, labels | {"wait" if wait_mode else "drop"}

    return vrun(nothing_left(main), max_time=1e5)


watcher = st.fixed_dictionaries(dict(kind=st.sampled_from(["prompt", "slow", "idle"]), waits=waits))
cases = st.fixed_dictionaries(dict(
    wait=st.sampled_from([True, True, False]), length=st.sampled_from([0, 1, 1, 2, 3, 10]),
    watchers=st.lists(watcher, min_size=1, max_size=4),
    sends=history(st.tuples(delays, st.one_of(st.integers(1, 3), st.integers(1, 30))).map(list), 8),
    script=history(st.tuples(delays, st.sampled_from(["stop", "stop", "stop", "watch", "watch", "shutdown"]), st.integers(0, 3),
                             st.integers(0, 2)).map(list), 10, lo=0),
    waits=waits, last=st.integers(0, 2)))

TESTS = [Test("stop", cases, run, quick=1500, thorough=60_000)]

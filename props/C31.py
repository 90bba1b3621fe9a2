"""C31: a dropping broadcaster never waits, and drops only for full watchers."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.tasks import nothing_left
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.watch import mux

RULE = (
    "A case is a buffer length and a script of (bursts of) sends, watches, stops, pauses and a shutdown; consumers are "
    "prompt, slow, impatient or abandon the watcher. Non-trivial: some event was dropped while another watcher "
    "received it."
)
ASSUMPTIONS = ["the buffer length is positive", "a watcher with n prefix events has at least n+1 places (as in client-go)"]


def run(case):
    async def main():
        length = case["length"]
        b = mux.Broadcaster(length, mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL)
        sent = []  # times at which each send began
        cs = []  # consumer, prefix, capacity, first, stopped at

        async def timely(coro, what):
            t0 = now()
            r = await asyncio.wait_for(asyncio.ensure_future(coro), 50)
            if now() > t0 + 1e-3:
                raise Violation(f"{what} took {now() - t0} s")
            return r

        for op, a, spec in case["script"]:
            if op == "pause":
                await pause(a)
            elif op == "settle":
                await asyncio.sleep(1e-4)
            elif op == "send":
                for _ in range(a):
                    sent.append(now())
                    await timely(b.action("ADDED", len(sent) - 1), "a send")
            elif op == "watch":
                if a is None:
                    w, p = await timely(b.watch(), "watch"), 0
                else:
                    p = a
                    w = await timely(b.watch_with_prefix([{"type": "ADDED", "object": f"p{k}"} for k in range(p)]), "watch")
                cs.append([Consumer(w, spec["waits"], limit=spec["limit"]), p, max(length, p + 1 if a is not None else 0),
                           len(sent), None])
            elif op == "stop" and cs:
                x = cs[a % len(cs)]
                await timely(x[0].w.stop(), "stop")
                if x[4] is None:
                    x[4] = len(sent)
        await timely(b.shutdown(), "shutdown")
        await finish([c.task for c, *_ in cs], 3000, "the stream of a watcher")
        await asyncio.sleep(60)
        dropped = received = False
        for c, p, cap, first, stopped in cs:
            got = c.numbers()
            if not c.task.done():
                raise Violation("a stream has not ended")
            if got[:p] != [f"p{k}" for k in range(p)][:len(got)]:
                raise Violation(f"prefix of {p} events, but received {got}")
            rest, taken = got[p:], c.taken[p:]
            if any(not isinstance(x, int) for x in rest) or rest != sorted(set(rest)):
                raise Violation(f"not in order or duplicated: {got}")
            if rest and (rest[0] < first or stopped is not None and rest[-1] >= stopped):
                raise Violation(f"watched events {first}..{stopped}, received {rest}")
            if c.limit is not None and len(got) >= c.limit:
                # abandoned: what it has taken by then must still be justified
                due = range(first, (rest[-1] if rest else first - 1) + 1)
            else:
                due = range(first, stopped if stopped is not None else len(sent))
            have = set(rest)
            for e in due:
                if e in have:
                    continue
                # events before e that were taken later than e was sent
                held = sum(1 for x, t in zip(rest, taken) if x < e and t >= sent[e]) + \
                    sum(1 for t in c.taken[:p] if t >= sent[e])
                if held < cap:
                    raise Violation(f"event {e} (sent at {sent[e]}) was dropped although only {held} of {cap} places "
                                    f"were taken; received {rest} at {taken}")
                dropped = True
            received |= bool(rest)
        return dropped and received and len(cs) > 1, {"dropped"} if dropped else set()

    return vrun(nothing_left(main), max_time=1e5)


spec = st.fixed_dictionaries(dict(
    waits=st.one_of(st.just([[-1, -1]]), waits), limit=st.one_of(st.none(), st.none(), st.none(), st.integers(0, 5))))
op = weighted(
    (5, st.tuples(st.just("send"), st.one_of(st.just(1), st.integers(1, 4), st.integers(1, 40)), st.none()).map(list)),
    (2, st.tuples(st.just("watch"), st.one_of(st.none(), st.integers(0, 5)), spec).map(list)),
    (1, st.tuples(st.just("stop"), st.integers(0, 3), st.none()).map(list)),
    (2, st.tuples(st.just("settle"), st.none(), st.none()).map(list)),
    (2, st.tuples(st.just("pause"), delays, st.none()).map(list)),
)
cases = st.fixed_dictionaries(dict(length=st.one_of(st.integers(1, 4), st.sampled_from([10, 100])), script=history(op, 16)))

TESTS = [Test("drop", cases, run, quick=2000, thorough=80_000)]

"""C33: a fake watcher hands over each event synchronously and in order."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import delays, history
from vf.runner import Test
from vf.tasks import nothing_left
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.watch import watch

RULE = (
    "A case is a series of rounds on one fake watcher, each with concurrent senders and consumers of generated speed "
    "and patience, ended by a stop (and reset for the next round). Non-trivial: at least two senders overlapped, or a "
    "consumer gave up a wait, or a second round."
)
ASSUMPTIONS = ["the watcher is reset when its consumers have come to an end and no send is under way"]
KINDS = ["add", "modify", "delete", "error"]
TYPE = dict(add="ADDED", modify="MODIFIED", delete="DELETED", error="ERROR")


def run(case):
    async def main():
        w = watch.new_fake()
        labels = set()
        nontrivial = False
        serial = 0
        for r, rnd in enumerate(case["rounds"]):
            if r:
                await asyncio.wait_for(w.reset(), 10)
                nontrivial = True
                labels.add("reset")
            if w.is_stopped():
                raise Violation("is_stopped() before the stop")
            log = []  # (number, begin, end, sender)
            cs = [Consumer(w, spec) for spec in rnd["consumers"]]

            async def sender(i, steps):
                nonlocal serial
                for d, k in steps:
                    await pause(d)
                    serial += 1
                    me = serial
                    rec = [me, now(), None, i, KINDS[k], None]
                    log.append(rec)
                    await getattr(w, KINDS[k])(("obj", me))
                    rec[2] = now()
                    rec[5] = len(log)
                    if not any(e["object"] == ("obj", me) for c in cs for e in c.got):
                        raise Violation(f"sending event {me} returned before anybody took it")

            ss = [asyncio.ensure_future(sender(i, s)) for i, s in enumerate(rnd["senders"])]
            await finish(ss, 3000, "a send")
            leave = rnd["how"]
            if leave == "context":
                async with w as same:
                    if same is not w and not hasattr(same, "__aiter__"):
                        raise Violation(f"a watcher as a context is {same!r}")
            else:
                # a last event is handed in but not taken before the stop
                await asyncio.wait_for(w.stop(), 1)
                if leave == "twice":
                    await asyncio.wait_for(w.stop(), 1)
            if not w.is_stopped():
                raise Violation("is_stopped() is false after the stop")
            await finish([c.task for c in cs], 3000, "iteration of a stopped watcher")
            got = [e for c in cs for e in c.got]
            want = {("obj", m): TYPE[k] for m, _, _, _, k, _ in log}
            if len(got) != len(want) or {e["object"]: e["type"] for e in got} != want:
                raise Violation(f"sent {want}, received {got}")
            when = {e["object"][1]: t for c in cs for e, t in zip(c.got, c.taken)}
            for a in log:
                if a[2] > when[a[0]] + 1e-6:
                    raise Violation(f"event {a[0]} was taken at {when[a[0]]}, its send returned at {a[2]}")
            for a in log:
                for b in log:
                    # b was sent after a had returned
                    if a[0] < b[0] and (a[3] == b[3]):
                        if when[a[0]] > when[b[0]]:
                            raise Violation(f"event {b[0]} taken before event {a[0]}, which was sent first")
            for c in cs:
                mine = [e["object"][1] for e in c.got]
                by = {m: s for m, _, _, s, _, _ in log}
                for s in set(by.values()):
                    x = [m for m in mine if by[m] == s]
                    if x != sorted(x):
                        raise Violation(f"one sender's events arrive as {x}")
                if len(rnd["senders"]) == 1 and mine != sorted(mine):
                    raise Violation(f"events arrive as {mine}")
            if len(rnd["senders"]) > 1:
                nontrivial = True
                labels.add("senders_overlap")
            if any(c.gave_up for c in cs):
                nontrivial = True
                labels.add("gave_up")
        return nontrivial, labels

    return vrun(nothing_left(main), max_time=1e5)


def run_stopped(case):
    """Nobody consumes: sends wait; after the stop, what was handed in is still delivered and then iteration ends."""
    async def main():
        w = watch.new_fake()
        early = [asyncio.ensure_future(w.add(i)) for i in range(case["sends"])]
        await pause(case["d"])
        await settle()
        if any(t.done() for t in early):
            raise Violation("a send returned although nobody took the event")
        if case["stop_first"]:
            await asyncio.wait_for(w.stop(), 1)
        c = Consumer(w, case["waits"])
        if not case["stop_first"]:
            await pause(case["d2"])
            await asyncio.wait_for(w.stop(), 1)
        await finish([c.task], 3000, "iteration of a stopped watcher")
        if c.numbers() != list(range(len(c.got))):
            raise Violation(f"received {c.numbers()}")
        if case["sends"] and not c.got:
            raise Violation("the event handed in before the stop was not delivered")
        await settle()
        done = [t.done() for t in early]
        if done[:len(c.got)] != [True] * len(c.got):
            raise Violation("a send whose event was taken has not returned")
        if any(done[len(c.got):]):
            raise Violation("a send whose event was not taken has returned")
        # sends nobody waits for any more leave nothing behind after a reset
        for t in early:
            t.cancel()
        await asyncio.gather(*early, return_exceptions=True)
        await asyncio.wait_for(w.reset(), 10)
        c = Consumer(w, case["waits"])
        for i in range(2):
            await asyncio.wait_for(w.modify(["new", i]), 500)
        await asyncio.wait_for(w.stop(), 1)
        await finish([c.task], 3000, "iteration of a stopped watcher")
        if [e["object"] for e in c.got] != [["new", 0], ["new", 1]]:
            raise Violation(f"sent two new events after a reset, received {c.got}")
        return case["sends"] > 0, {"stop_first"} if case["stop_first"] else set()

    return vrun(nothing_left(main), max_time=1e5)


rounds = st.fixed_dictionaries(dict(
    senders=st.lists(st.lists(st.tuples(delays, st.integers(0, 3)).map(list), min_size=1, max_size=6), min_size=1, max_size=3),
    consumers=st.lists(waits, min_size=1, max_size=3), how=st.sampled_from(["stop", "twice", "context"])))
cases = st.fixed_dictionaries(dict(rounds=st.lists(rounds, min_size=1, max_size=3)))
stopped_cases = st.fixed_dictionaries(dict(sends=st.integers(0, 3), d=delays, d2=delays, stop_first=st.booleans(), waits=waits))

TESTS = [Test("rounds", cases, run, quick=1500, thorough=60_000),
         Test("stopped", stopped_cases, run_stopped, quick=300, thorough=5_000)]

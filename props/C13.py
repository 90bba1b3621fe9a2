"""C13: a handler added late receives the current state once, then every change."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.fakes import KEYS, Res, Server, plans, rv_of, scripts, steps
from vf.gen import history, weighted
from vf.informers import Recorder, contents, deleted_after
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import index, shared_informer

RULE = (
    "A case interleaves server changes, faults, and registrations of handlers before the start, while running "
    "(at rest, in the middle of a burst of changes, several at once, from inside a callback), and after the stop. "
    "Non-trivial: a handler was registered on a running informer with a non-empty cache."
)
ASSUMPTIONS = ["handlers do not raise (C14)"]


def run(case):
    async def main():
        ctx = Ctx()
        srv = Server(case["plan"])
        for k in case["initial"]:
            srv.put(k)
        inf = shared_informer.new_shared_index_informer(srv, Res, case["resync"], index.Indexers())
        idx = inf.get_indexer()
        hs, tasks = [], []
        labels = set()
        nontrivial = False

        def recorder(delays, on_call=None):
            h = Recorder(ctx, f"handler {len(hs)}", delays, cache=lambda: contents(idx),
                         deleted_after=deleted_after(srv), on_call=on_call)
            hs.append(h)
            return h

        async def nested(h, n):
            """Register another handler from inside a callback."""
            if n == case["nest"]:
                labels.add("nested")
                await inf.add_event_handler(recorder([-1]), resync_period=0)

        await inf.add_event_handler(recorder(case["first"], on_call=nested if case["nest"] >= 0 else None),
                                    resync_period=0)
        t = asyncio.ensure_future(inf.run())
        for d, op in case["script"]:
            await pause(d)
            if op[0] == "register":
                n_before = len(idx.list())
                nontrivial |= n_before > 0
                h = recorder(op[1])
                tasks.append(asyncio.ensure_future(inf.add_event_handler(h, resync_period=0)))
                labels.add("register")
            elif op[0] == "register_now":
                # at rest: exactly one add per cached object, nobody else is told anything
                await settle()
                before = [len(h.events) for h in hs]
                rv, cached = srv.rv, contents(idx)
                others = list(hs)
                h = recorder([-1])
                await asyncio.wait_for(inf.add_event_handler(h, resync_period=0), 300)
                await settle()
                nontrivial |= bool(cached)
                if srv.rv == rv and contents(idx) == cached:
                    labels.add("at_rest")
                    if sorted(h.seq()) != sorted(("add", k, v) for k, v in cached.items()):
                        raise Violation(f"cache has {cached}, the new handler was told {h.seq()}")
                    if all(x == [-1] for x in [case["first"]]) and [len(h.events) for h in others] != before and \
                            not tasks and not any(x.active for x in others):
                        raise Violation("registering a handler made others be told something")
            elif op[0] == "burst":
                for o in op[1]:
                    srv.do(o)
            else:
                srv.do(op)
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(20)
        for a in tasks:
            if not a.done():
                raise Violation("add_event_handler has not returned")
            a.result()
        await asyncio.sleep(sum(len(h.events) for h in hs) * 0.7 + 20)
        ctx.raise_if_any()
        if t.done():
            raise Violation(f"the informer ended: {t!r}")
        want = srv.state()
        for h in hs:
            if h.versions() != want:
                raise Violation(f"{h.name} was told {h.seq()}, which replays to {h.versions()}; server has {want}")
        if contents(idx) != want:
            raise Violation(f"cache has {contents(idx)}, server has {want}")
        t.cancel()
        await asyncio.wait([t], timeout=100)
        if not t.done():
            raise Violation("the informer does not stop")
        h = recorder([-1])
        await asyncio.wait_for(inf.add_event_handler(h), 10)
        srv.put(KEYS[0])
        await asyncio.sleep(10)
        if h.events:
            raise Violation(f"registered after the stop, but told {h.seq()}")
        return nontrivial, labels

    return vrun(main, max_time=1e5)


hdelays = st.lists(st.sampled_from([-1, -1, 0, 1, 5, 40]), min_size=1, max_size=3)
one = st.tuples(st.sampled_from(["put", "put", "delete"]), st.sampled_from(KEYS)).map(list)
op = weighted(
    (4, one),
    (2, st.tuples(st.just("burst"), st.lists(one, min_size=1, max_size=6)).map(list)),
    (2, st.tuples(st.just("register"), hdelays).map(list)),
    (1, st.just(["register_now", None])),
    (1, st.just(["expire", None])),
)
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), resync=st.sampled_from([0, 0, 1]), first=st.one_of(st.just([-1]), hdelays),
    nest=st.sampled_from([-1, 0, 1, 3]), initial=st.lists(st.sampled_from(KEYS), min_size=1, max_size=4),
    script=history(st.tuples(steps, op).map(list), 14), dwell=st.sampled_from([0, 3])))

TESTS = [Test("late", cases, run, quick=1500, thorough=60_000)]

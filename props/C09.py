"""C09: watches resume exactly where the store is: no gap, no duplicate."""
from vf.env import Violation, each_step, now, pause, vrun
from vf.fakes import KEYS, RecStore, Res, Server, key_of, list_step, make_dict, rv_of, small, steps
from vf.gen import history
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import reflector

RULE = (
    "A case is a script of server changes and bookmarks, and plans ending successive watches after generated "
    "numbers of events or times (closing, breaking, error events, expiry), with a store of generated speed that "
    "records every write. Non-trivial: events were spread over at least two watches."
)
ASSUMPTIONS = ["no foreign or malformed events (C10)"]

OPS = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}


def run(case):
    async def main():
        srv = Server(case["plan"], make=make_dict if case["dicts"] else Res)
        for k in case["initial"]:
            srv.put(k)
        s = RecStore(case["delays"])
        r = reflector.Reflector(srv, dict if case["dicts"] else Res, s, 0)
        seen_versions, ahead = [], []

        def sample():
            v = r.last_sync_resource_version()
            if not seen_versions or seen_versions[-1] != v:
                seen_versions.append(v)
                if v and v not in s.done and not any(str(n) == v and ty == "BOOKMARK" for n, ty, _ in srv.log):
                    ahead.append(v)

        srv.honor = True
        each_step(sample)
        t = asyncio.ensure_future(r.run())
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
        if case["heal"]:
            srv.heal()
        await asyncio.sleep(40)
        each_step(None)
        if t.done():
            raise Violation(f"the reflector ended: {t!r}")
        labels = set()
        n_calls = len(srv.calls)
        if case["long"]:
            srv.heal()
            await asyncio.sleep(10)
            n_lists, n_calls = sum(c["kind"] == "list" for c in srv.calls), len(srv.calls)
            await asyncio.sleep(4000)
            srv.put(KEYS[0])
            srv.delete(KEYS[1])
            await asyncio.sleep(5)
            if sum(c["kind"] == "list" for c in srv.calls) > n_lists:
                raise Violation("listed again although every watch ended in good order")
            if len(srv.calls) > n_calls + 40:
                raise Violation(f"{len(srv.calls) - n_calls} requests in 4000 s of quiet")
            if s.state() != srv.state():
                raise Violation(f"store has {s.state()}, server has {srv.state()} after 4000 s of quiet")
            labels.add("long")
        if ahead:
            raise Violation(f"version {ahead[0]} was reported as synced while the store was not yet given it")

        # 1. writes after each replacement are the server's changes after it, in order, each once
        cycles = []
        for op in s.ops:
            if op[1] == "replace":
                cycles.append((int(op[3]), op[2], []))
            elif not cycles:
                raise Violation(f"write {op} before any list")
            else:
                cycles[-1][2].append((op[1], op[2]))
        versions = ["", str(cycles[0][0])] if cycles else [""]
        for i, (rv, items, writes) in enumerate(cycles):
            want = [(OPS[ty], o) for v, ty, o in srv.log if v > rv and ty in OPS]
            if len(writes) > len(want) or any(
                    w[0] != x[0] or w[1] is not x[1] for w, x in zip(writes, want)):
                raise Violation(f"after the list at {rv} the store was given {writes}, the server's changes "
                                f"were {want}")
            if i == len(cycles) - 1 and (case["heal"] or case["long"]) and len(writes) != len(want):
                raise Violation(f"after the list at {rv} only {len(writes)} of {len(want)} changes arrived")
            state = {}
            for v, ty, o in srv.log:
                if v <= rv and ty in OPS:
                    state.pop(key_of(o), None) if ty == "DELETED" else state.update({key_of(o): v})
            if sorted(state.items()) != sorted((key_of(o), rv_of(o)) for o in items):
                raise Violation(f"replaced by {items}, listed at {rv} was {state}")

        # 2. every watch is requested from the last version received
        expect = None
        multi = 0
        for c, after in zip(srv.calls, srv.calls[1:] + [None]):
            if c["kind"] == "watch":
                timeout = c["options"].get("timeout_seconds")
                if not isinstance(timeout, (int, float)) or not 30 <= timeout <= 3600:
                    raise Violation(f"asked for a watch with the timeout {timeout!r}")
                w = c["result"]
                if after and w not in (None, "error") and w.ended == "close" and (w.sent or w.t_end - w.t0 >= 1.05):
                    if after["kind"] != "watch":
                        raise Violation(f"listed again although the watch ended in good order after {w.t_end - w.t0} s and "
                                        f"{len(w.sent)} events")
                    labels.add("resumed")
            if after:
                w = c["result"]
                ended = c.get("t_end") if w == "error" else w.t_end if c["kind"] == "watch" and w is not None and (
                    w.ended in ("raise", "error") or w.ended == "close" and not w.sent and w.t_end - w.t0 < 0.95) else None
                if ended is not None and after["t"] < ended + 0.5:
                    raise Violation(f"{c['kind']} failed, or ended at once, at {ended}, the next request came at {after['t']}")
        got_versions = [""]
        for c in srv.calls:
            if c["kind"] == "list":
                if c["result"] not in (None, "error"):
                    expect = str(c["result"])
                    got_versions.append(expect)
            else:
                if c["options"].get("resource_version") != expect:
                    raise Violation(f"watch requested from {c['options'].get('resource_version')}, "
                                    f"last received was {expect}")
                w = c["result"]
                if w in (None, "error"):
                    labels.add("watch_error")
                    continue
                if w.sent:
                    multi += 1
                    expect = w.sent[-1]["object"]["metadata"]["resourceVersion"] if case["dicts"] else \
                        w.sent[-1]["object"].metadata.resource_version
                    got_versions += [str(rv_of(e["object"])) for e in w.sent]

        # 3. the version reported is always that of the last list or event
        it = iter(got_versions)
        for v in seen_versions:
            if v not in it:  # consumes: seen_versions must be a subsequence
                raise Violation(f"reported versions {seen_versions} are not those received {got_versions}")
        if r.last_sync_resource_version() != expect and expect is not None:
            raise Violation(f"last synced version is {r.last_sync_resource_version()}, last received {expect}")
        if multi > 1:
            labels.add("several_watches")
        labels.add(f"lists_{min(len(cycles), 3)}")
        return multi > 1, labels

    return vrun(main, max_time=1e5)


wstep = st.one_of(
    st.tuples(st.just("close"), small, st.integers(1, 4), st.sampled_from([32, 70, 100, 300]),
              st.sampled_from([-1, -1, 0, 3])).map(list),
    st.tuples(st.sampled_from(["close", "close", "raise", "gone"]), small, st.integers(0, 4),
              st.sampled_from([32, 70, 100, 300]), st.sampled_from([-1, -1, 0, 3])).map(list),
    st.tuples(st.just("close"), small, st.integers(1, 2), st.just(300), st.just(-1)).map(list),
    st.tuples(st.just("close"), small, st.integers(1, 2), st.just(400), st.just(-1)).map(list),
    st.tuples(st.just("error"), small).map(list),
)
op = st.one_of(
    st.tuples(st.just("put"), st.sampled_from(KEYS)).map(list),
    st.tuples(st.sampled_from(["put", "delete"]), st.sampled_from(KEYS)).map(list),
    st.tuples(st.sampled_from(["put", "delete"]), st.sampled_from(KEYS)).map(lambda x: list(x)),
    st.sampled_from([["bookmark", None], ["bookmark", None], ["expire", None]]),
)
cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), heal=st.booleans(), long=st.sampled_from([False, False, True]), delays=st.lists(small, max_size=3),
    plan=st.fixed_dictionaries(dict(list=st.lists(list_step, max_size=3),
                                    watch=st.lists(wstep, min_size=1, max_size=8))),
    initial=st.lists(st.sampled_from(KEYS), max_size=4),
    script=history(st.tuples(steps, op).map(list), 24, lo=2)))

TESTS = [Test("resume", cases, run, quick=2500, thorough=120_000)]

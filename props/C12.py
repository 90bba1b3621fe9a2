"""C12: every handler's notifications replay to exactly the cache."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.fakes import KEYS, Res, Server, make_dict, labels, plans, scripts
from vf.informers import Recorder, contents, deleted_after
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import index, shared_informer
from aiok8s.runtime import schema

RULE = (
    "A case is a script of server changes and expirations, fault plans for lists and watches (which may call changes additions and the reverse), an informer resync "
    "period and handlers of generated speed, resync period and registration time. Every callback is checked "
    "against the handler's history so far and the cache; at the end all replays, the cache and the server are "
    "compared. Non-trivial: a fault forced a relist, or there were two handlers and an update or deletion."
)
ASSUMPTIONS = ["lists are not older than what was watched before", "handlers do not raise (C14)"]


def run(case):
    async def main():
        ctx = Ctx()
        dicts = case["dicts"]
        srv = Server(case["plan"], make=make_dict if dicts else Res, exc=case["exc"])
        srv.labels = case["labels"]
        for k in case["initial"]:
            srv.put(k)
        inf = shared_informer.new_shared_index_informer(
            srv, schema.GroupVersionKind("", "v1", "Res") if dicts else Res, case["resync"],
            index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}))
        idx = inf.get_indexer()
        hs = []
        adding = []

        async def register(h):
            r = Recorder(ctx, f"handler {len(hs)}", h["delays"], cache=lambda: contents(idx),
                         deleted_after=deleted_after(srv))
            hs.append(r)
            await inf.add_event_handler(r, resync_period=h["period"])

        async def later(h):
            await pause(h["at"])
            await register(h)

        for h in case["handlers"]:
            if h["at"] < 0:
                await register(h)
        t = asyncio.ensure_future(inf.run())
        for h in case["handlers"]:
            if h["at"] >= 0:
                adding.append(asyncio.ensure_future(later(h)))
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(15)
        for a in adding:
            if not a.done():
                raise Violation("add_event_handler has not returned")
            a.result()
        n = sum(len(h.events) for h in hs)
        await asyncio.sleep(n * 0.7 + 30)  # slow handlers catch up
        ctx.raise_if_any()
        if t.done():
            raise Violation(f"the informer ended: {t!r}")
        want = srv.state()
        if contents(idx) != want:
            raise Violation(f"cache has {contents(idx)}, server has {want}")
        for h in hs:
            if h.versions() != want:
                raise Violation(f"{h.name} was told {h.seq()}, which replays to {h.versions()}; server has {want}")
        if inf.last_sync_resource_version() != str(srv.rv):
            raise Violation(f"last synced {inf.last_sync_resource_version()}, server is at {srv.rv}")
        for ns in ("", "ns", None):
            got = sorted(map(id, await idx.by_index(index.NAMESPACE_INDEX, ns)))
            exp = sorted(id(o) for o in idx.list() if (o["metadata"].get("namespace") if dicts
                                                       else o.metadata.namespace) == ns)
            if got != exp:
                raise Violation(f"namespace index for {ns!r} is out of step with the cache")
        labels = {"tombstones"} if any(h.tombstones for h in hs) else set()
        lists = sum(c["kind"] == "list" and c["result"] not in (None, "error") for c in srv.calls)
        if lists > 1:
            labels.add("relisted")
        if any(h["at"] >= 0 for h in case["handlers"]):
            labels.add("late_handler")
        changed = any(e[0] != "add" for h in hs for e in h.events)
        return lists > 1 or len(hs) > 1 and changed, labels

    return vrun(main, max_time=1e5)


handler = st.fixed_dictionaries(dict(
    delays=st.lists(st.sampled_from([-1, -1, 0, 1, 5, 40]), max_size=3),
    period=st.sampled_from([None, 0, 0, 1, 2, 5]), at=st.sampled_from([-1, -1, -1, 0, 1, 64, 130])))
cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), exc=st.integers(0, 6), labels=labels, plan=plans, resync=st.sampled_from([0, 0, 1, 2, 3]),
    initial=st.lists(st.sampled_from(KEYS), max_size=4), handlers=st.one_of(st.lists(handler, min_size=1, max_size=3), st.lists(handler, min_size=4, max_size=9)),
    script=scripts, dwell=st.sampled_from([0, 3, 8])))

TESTS = [Test("histories", cases, run, quick=1500, thorough=60_000)]

"""C52: cached reads return the mirrored object, or say clearly that they cannot."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.apiserver import Api
from vf.controllers import PODS
from vf.fakes import plans
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import cache, reconcile

RULE = (
    "A case is a cache for all or one namespace on the real API client over a fake API server with generated faults; "
    "pod changes, the start of the cache, requests for the informer, waits for the sync and (possibly cancelled) reads "
    "come in generated order and spacing. Non-trivial: reads before and after the start, or while the first list was "
    "under way, and a pod present."
)
ASSUMPTIONS = ["a read in the same instant as the start may be refused or answered"]
ABSENT = [["ns1", "none"], ["", "a"], ["ns3", "a"]]


def run(case):
    async def main():
        ctx = Ctx()
        api = Api(case["plan"], exc=case["exc"], status_410=case["status_410"])
        srv = api.pods
        ns = case["ns"]
        for k in case["initial"]:
            srv.put(k)
        c = cache.new(namespace=ns, resync=case["resync"])
        informers, readers, syncs = set(), [], []
        state = dict(started=None, informer=None)
        labels = set()

        def mirrored():
            return {(o.metadata.namespace or "", o.metadata.name): o for o in state["informer"].get_indexer().list()}

        def on_server():
            return {k: int(o["metadata"]["resourceVersion"]) for k, o in srv.objs.items() if ns is None or k[0] == ns}

        def first_list():
            return min([x["t_end"] for x in srv.calls if x["result"] not in (None, "error") and "t_end" in x], default=None)

        async def get_informer():
            i = await c.get_informer(client.V1Pod)
            informers.add(id(i))
            state["informer"] = i

        async def read(key, patience):
            began, started = now(), state["started"]
            # objects without a namespace are named in either way
            nn = reconcile.NamespacedName(key[0] or (None if len(readers) % 2 else ""), key[1])
            aw = c.get(nn, client.V1Pod)
            try:
                got = await (aw if patience < 0 else asyncio.wait_for(aw, patience / 64))
            except cache.CacheNotStartedError:
                if started is not None and began > started:
                    ctx.fail(f"read of {key} at {began} says not started, started at {started}")
                labels.add("not_started")
                return "not started"
            except KeyError:
                got = None
            except asyncio.TimeoutError:
                labels.add("gave_up")
                return "gave up"
            else:
                if got is None:
                    ctx.fail(f"read of {key} gave nothing instead of a key error")
            if started is None:
                ctx.fail(f"read of {key} before the start gave {got!r}")
                return None
            if first_list() is None:
                ctx.fail(f"read of {key} gave {got!r} before the first list was there")
            if began < first_list():
                labels.add("waited_for_sync")
            if state["informer"] is None:
                await get_informer()
                # the informer is there, so this cannot have taken time
            want = mirrored().get(tuple(key))
            if got is not want:
                ctx.fail(f"read of {key} gave {got!r}, mirrored is {want!r}")
            if got is not None:
                labels.add("found")
            return got

        calm = not case["plan"]
        t = None
        for d, what, arg, patience in case["script"]:
            await pause(d)
            if what == "start":
                if t is None:
                    t = asyncio.ensure_future(c.start())
                    state["started"] = now()
            elif what == "informer":
                syncs.append(asyncio.ensure_future(get_informer()))
            elif what == "sync":
                async def sync():
                    known = state["informer"] is not None
                    if not await c.wait_for_cache_sync():
                        ctx.fail("wait_for_cache_sync gave a false value")
                    if known and first_list() is None:
                        ctx.fail("wait_for_cache_sync returned before the first list was there")

                syncs.append(asyncio.ensure_future(sync()))
            elif what == "read":
                readers.append(asyncio.ensure_future(read(arg, patience)))
            elif what == "check":
                # a quiet moment: what is read is exactly what the server has
                await settle()
                if calm and state["started"] is not None and first_list() is not None and now() > first_list() + 0.2:
                    for key in PODS + ABSENT:
                        got = await read(key, 64)
                        rv = int(got.metadata.resource_version) if isinstance(got, client.V1Pod) else got
                        if rv != on_server().get(tuple(key)):
                            raise Violation(f"read of {key} gave version {rv}, the server has {on_server()}")
                    labels.add("checked")
            else:
                srv.do([what, arg])
                calm = calm and what != "expire"
            ctx.raise_if_any()
        if t is None:
            t = asyncio.ensure_future(c.start())
            state["started"] = now()
        await asyncio.sleep(0.01)
        late = [asyncio.ensure_future(read(k, -1)) for k in PODS]
        await asyncio.sleep(1)
        srv.heal()
        await asyncio.sleep(12)
        ctx.raise_if_any()
        for r in readers + syncs + late:
            if not r.done():
                raise Violation(f"still waiting although the cache must have synced: {r!r}")
            r.result()
        if t.done():
            raise Violation(f"the cache ended: {t!r}")
        for key in PODS + ABSENT:
            got = await read(key, 64)
            rv = int(got.metadata.resource_version) if isinstance(got, client.V1Pod) else got
            if rv != on_server().get(tuple(key)):
                raise Violation(f"read of {key} gave version {rv}, the server has {on_server()}")
        await get_informer()
        ctx.raise_if_any()
        if len(informers) > 1:
            raise Violation("different informers for one type")
        path = "/api/v1/pods" if ns is None else f"/api/v1/namespaces/{ns}/pods"
        if {r[2] for r in api.requests} != {path}:
            raise Violation(f"requests for {sorted({r[2] for r in api.requests})}, expected {path}")
        if len(srv.open_watches()) != 1:
            raise Violation(f"{len(srv.open_watches())} open watches")
        if calm and sum(x["kind"] == "list" for x in srv.calls) != 1:
            raise Violation(f"{sum(x['kind'] == 'list' for x in srv.calls)} lists though nothing failed")
        if ns:
            labels.add("namespaced")
        return bool(labels & {"found"}) and bool(labels & {"not_started", "waited_for_sync"}), labels

    return vrun(main, max_time=1e5)


pods = st.sampled_from(PODS)
d = st.sampled_from([-1, -1, 0, 1, 2, 5, 10, 32])
op = weighted(
    (3, st.tuples(d, st.sampled_from(["put", "put", "delete"]), pods, st.just(0)).map(list)),
    (4, st.tuples(d, st.just("read"), st.sampled_from(PODS + ABSENT[:1] + ABSENT[1:2]), st.sampled_from([-1, -1, -1, 0, 3, 40])).map(list)),
    (3, st.tuples(d, st.just("check"), st.none(), st.just(0)).map(list)),
    (1, st.tuples(d, st.just("informer"), st.none(), st.just(0)).map(list)),
    (1, st.tuples(d, st.just("sync"), st.none(), st.just(0)).map(list)),
    (2, st.tuples(d, st.just("start"), st.none(), st.just(0)).map(list)),
    (1, st.tuples(d, st.sampled_from(["expire", "bookmark"]), st.none(), st.just(0)).map(list)),
)
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), exc=st.integers(0, 5), status_410=st.booleans(),
    ns=st.sampled_from([None, None, "ns1", "ns2"]), resync=st.sampled_from([0, 0, 36000, 3]),
    initial=st.lists(pods, max_size=4), script=history(op, 20)))

ALONE = ["reads"]
TESTS = [Test("reads", cases, run, quick=1500, thorough=60_000)]

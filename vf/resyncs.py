"""Resyncs of a cache after changes, faults and late registrations."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.apiserver import Api
from vf.controllers import PODS
from vf.fakes import plans
from vf.gen import history, weighted

import asyncio

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import cache, source
from aiok8s.workqueue import queue

class Log:
    """A handler of an informer."""

    def __init__(self):
        self.seen = []  # (time, kind, key, same version)

    async def on_add(self, obj):
        self.note("add", obj, None)

    async def on_update(self, old, new):
        self.note("update", new, old)

    async def on_delete(self, obj):
        obj = getattr(obj, "obj", obj)
        self.note("delete", obj, None)

    def note(self, kind, obj, old):
        m = obj.metadata
        self.seen.append((now(), kind, (m.namespace or "", m.name),
                          old is not None and old.metadata.resource_version == m.resource_version))


class SourceLog(Log):
    """A handler of a source, that also is a predicate."""

    async def create(self, event, queue):
        self.note("add", event.object, None)

    async def update(self, event, queue):
        self.note("update", event.object_new, event.object_old)

    async def delete(self, event, queue):
        self.note("delete", event.object, None)


class Yes:
    def create(self, event):
        return True

    update = delete = create


def judge(what, times, began, ended, r):
    """Announcements of one object that did not change from `began` to `ended`, with resync period about r."""
    if not r:
        if times:
            raise Violation(f"{what} is announced again at {times}, though the cache has no resync period")
        return
    gaps = list(zip([began] + times, times + [ended]))
    for a, b in gaps:
        if b - a > 2.25 * r + 5:
            raise Violation(f"{what} is not announced again between {a} and {b}, with resync period {r}")
    for a, b in gaps[1:-1]:
        if b - a < 0.8 * r:
            raise Violation(f"{what} is announced again at {a} and {b}, with resync period {r}")


def run_cache(case):
    async def main():
        ctx = Ctx()
        api = Api(case["plan"], exc=case["exc"], status_410=case["status_410"])
        srv = api.pods
        r, ns = case["resync"], case["ns"]
        c = cache.new(namespace=ns, resync=r)
        logs = []
        queues = []

        async def register(how):
            if how == "informer":
                log = Log()
                await (await c.get_informer(client.V1Pod)).add_event_handler(log)
            else:
                log, q, k = SourceLog(), queue.new(), source.Kind(client.V1Pod)
                queues.append(q)
                k.inject_cache(c)
                await k.start(log, q, *[Yes() for _ in range(how)])
            logs.append(log)

        for k in case["initial"]:
            srv.put(k)
        for how in case["early"]:
            await register(how)
        t = asyncio.ensure_future(c.start())
        late = []
        for d, what, arg in case["script"]:
            await pause(d)
            if what == "register":
                late.append(asyncio.ensure_future(register(arg)))
            else:
                srv.do([what, arg])
        await asyncio.sleep(1)
        srv.heal()
        # until everything that was listed or missed has been announced, and resync timers run undisturbed
        await asyncio.sleep(12)
        srv.put(["ns1", "a"])  # so that no watch is at a version that has expired
        await asyncio.sleep(3)
        if not all(x.done() for x in late):
            raise Violation("a handler is still not registered")
        for x in late:
            x.result()
        if not logs:
            await register("informer")
        await asyncio.sleep(1)
        began = now()
        calls = len(srv.calls)
        await asyncio.sleep(case["periods"] * (r or 1000))
        ended = now()
        if any(x["kind"] == "list" for x in srv.calls[calls:]):
            raise Violation("the cache lists again though nothing fails")
        here = [k for k in srv.objs if ns is None or k[0] == ns]
        for i, log in enumerate(logs):
            for t0, kind, key, same in log.seen:
                if t0 > began and (kind != "update" or not same or key not in here):
                    raise Violation(f"handler {i} is told {kind} of {key} at {t0}, though nothing changed")
            for key in here:
                judge(f"{key} to handler {i} of {case['early']}", [t0 for t0, _, k, _ in log.seen if k == key and t0 > began],
                      began, ended, r)
        for q in queues:
            await q.shut_down()
        t.cancel()
        await asyncio.gather(t, return_exceptions=True)
        ctx.raise_if_any()
        labels = {"resync" if r else "no_resync", "handlers", *(["faults"] if case["plan"] else []), *(["late"] if late else []),
                  *(["watches"] if sum(x["kind"] == "watch" for x in srv.calls) > 3 else [])}
        return bool(here and r and case["periods"] >= 3), labels

    return vrun(main, seed=case["seed"], max_time=1e6)


pods = st.sampled_from(PODS)
d = st.sampled_from([-1, -1, 0, 1, 5, 32, 100])
how = st.sampled_from(["informer", 0, 0, 1, 2])
op = weighted(
    (3, st.tuples(d, st.sampled_from(["put", "put", "delete"]), pods).map(list)),
    (1, st.tuples(d, st.sampled_from(["expire", "bookmark"]), st.none()).map(list)),
    (2, st.tuples(d, st.just("register"), how).map(list)),
)
caches = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), exc=st.integers(0, 5), status_410=st.booleans(),
    ns=st.sampled_from([None, None, "ns1"]), resync=st.sampled_from([0, 20, 20, 45.5, 45.5, 300, 300, 1000, 3600, 36000]),
    initial=st.lists(pods, max_size=4), early=st.lists(how, max_size=3), script=history(op, 12),
    periods=st.integers(3, 6), seed=st.integers(0, 99)))

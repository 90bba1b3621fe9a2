"""C53: event filters and request mapping are exact."""
from vf.env import Ctx, Violation, settle, vrun
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown
from aiok8s.controller import controller, event, handler, reconcile, source

RULE = (
    "A case is a list of events over typed, dict, tombstone and unusable objects and up to three predicates with "
    "generated answers, delivered to the event handler a Kind source registers with its informer (alone with a "
    "recording queue, or inside a running controller); a second test gives request handlers events with and without metadata. Non-trivial: some event was filtered or dropped and some other "
    "led to a request."
)
ASSUMPTIONS = ["unusable means without any metadata; a tombstone without final state may be mapped by its key or dropped"]
NAMES = ["a", "b"]
NAMESPACES = [None, "", "ns1", "ns2"]
BAD = [lambda: {}, lambda: {"metadata": None}, lambda: client.V1Pod(), lambda: object(), lambda: None, lambda: "text",
       lambda: {"kind": "Pod"}]


def make(spec):
    kind, name, ns = spec
    if kind == "bad":
        return BAD[name % len(BAD)]()
    name, ns = NAMES[name % 2], NAMESPACES[ns]
    if kind == "dict":
        m = {"name": name, "resourceVersion": "1"}
        if ns is not None:
            m["namespace"] = ns
        return {"apiVersion": "v1", "kind": "Pod", "metadata": m}
    return client.V1Pod(metadata=client.V1ObjectMeta(name=name, namespace=ns))


def key(spec):
    kind, name, ns = spec
    return None if kind == "bad" else (NAMESPACES[ns] or "", NAMES[name % 2])


def plain(req):
    if type(req) is not reconcile.Request or type(req.namespaced_name) is not reconcile.NamespacedName:
        raise Violation(f"requested {req!r}")
    return (req.namespaced_name.namespace or "", req.namespaced_name.name)


class Queue:
    def __init__(self):
        self.added = []

    async def add(self, item):
        await asyncio.sleep(0)
        self.added.append(item)


class Predicate:
    def __init__(self, answers, truthy):
        self.answers, self.truthy, self.asked = answers, truthy, []
        self.i = 0

    def _ask(self, what, e):
        self.asked.append((what, e))
        a = self.answers[self.i % len(self.answers)]
        return ([1] if a else []) if self.truthy else a

    def create(self, e):
        return self._ask("create", e)

    def update(self, e):
        return self._ask("update", e)

    def delete(self, e):
        return self._ask("delete", e)


class Informer:
    def __init__(self):
        self.handlers = []

    async def add_event_handler(self, h, **kw):
        self.handlers.append(h)


class Cache:
    def __init__(self):
        self.informer, self.types = Informer(), []

    async def get_informer(self, type_):
        self.types.append(type_)
        return self.informer

    async def wait_for_cache_sync(self):
        return True


class Manager:
    def __init__(self, cache):
        self.cache = cache

    def set_fields(self, i):
        if hasattr(i, "inject_cache"):
            i.inject_cache(self.cache)
        if hasattr(i, "inject_func"):
            i.inject_func(self.set_fields)

    def add(self, runnable):
        self.set_fields(runnable)

    def get_cache(self):
        return self.cache


def run(case):
    async def main():
        cache = Cache()
        preds = [Predicate(a, t) for a, t in case["predicates"]]
        queue = Queue()
        requests = queue.added
        if case["controller"]:
            requests = []

            class R:
                async def reconcile(self, req):
                    requests.append(req)
                    return reconcile.Result()

            c = controller.new(Manager(cache), reconciler=R())
            await c.watch(source.Kind(client.V1Pod), handler.EnqueueRequestForObject(), *preds)
            t = asyncio.ensure_future(c.start())
            await settle()
        else:
            s = source.Kind(client.V1Pod)
            s.inject_cache(cache)
            await s.start(handler.EnqueueRequestForObject(), queue, *preds)
        if cache.types != [client.V1Pod] or len(cache.informer.handlers) != 1:
            raise Violation(f"{len(cache.informer.handlers)} handlers registered with informers of {cache.types}")
        h = cache.informer.handlers[0]
        labels = set()
        led = filtered = False
        for i, (what, a, b, tomb) in enumerate(case["events"]):
            del requests[:]
            for p in preds:
                p.i = i
                p.asked = []
            obj, old = make(a), make(b)
            uncertain = False
            if what == "add":
                aw, keys, kind = h.on_add(obj), [key(a)], "create"
            elif what == "update":
                aw, keys, kind = h.on_update(old, obj), [key(b), key(a)], "update"
            else:
                arg = obj
                if tomb:
                    labels.add("tombstone")
                    arg = DeletedFinalStateUnknown("/".join(filter(None, key(a) or ("x",))), obj)
                    uncertain = key(a) is None
                aw, keys, kind = h.on_delete(arg), [key(a)], "delete"
            try:
                await aw
            except Exception as e:
                raise Violation(f"{what} event of {obj!r} raised {e!r}") from e
            await settle()
            if uncertain:
                continue
            got = [plain(r) for r in requests]
            if None in keys:
                want = []
                labels.add("unusable")
                filtered = True
            else:
                want = keys if all(p.answers[i % len(p.answers)] for p in preds) else []
                filtered |= not want
                led |= bool(want)
                for p in preds:
                    if want and len(p.asked) != 1 or len(p.asked) > 1:
                        raise Violation(f"a predicate was asked {p.asked} about one {what} event")
                    for m, e in p.asked:
                        if m != kind:
                            raise Violation(f"a predicate was asked {m} about an {what} event")
                        if kind == "update":
                            ok = (isinstance(e, event.UpdateEvent) and e.object_old is old and e.object_new is obj
                                  and (e.meta_old.namespace or "", e.meta_old.name) == key(b)
                                  and (e.meta_new.namespace or "", e.meta_new.name) == key(a))
                        else:
                            ok = (isinstance(e, event.CreateEvent if kind == "create" else event.DeleteEvent)
                                  and e.object is obj and (e.meta.namespace or "", e.meta.name) == key(a))
                        if not ok:
                            raise Violation(f"a predicate was asked about {e!r} for the {what} event of {obj!r}")
            if set(got) != set(want):
                raise Violation(f"{what} event of {b if what == 'update' else ''} {a}: requested {got}, expected {want}")
        labels.add("controller" if case["controller"] else "queue")
        if case["controller"]:
            if t.done():
                raise Violation(f"the controller ended: {t!r}")
        return led and filtered, labels

    return vrun(main)


class Meta:
    def __init__(self, namespace, name):
        self.namespace, self.name = namespace, name


def run_direct(case):
    async def main():
        h, queue = handler.EnqueueRequestForObject(), Queue()
        labels = set()
        for what, old, new in case["events"]:
            del queue.added[:]
            a, b = (None if x is None else Meta(NAMESPACES[x[1]], NAMES[x[0]]) for x in (old, new))
            if what == "update":
                e, metas = event.UpdateEvent(meta_old=a, object_old=object(), meta_new=b, object_new=object()), [a, b]
            elif what == "create":
                e, metas = event.CreateEvent(b, object()), [b]
            else:
                e, metas = event.DeleteEvent(b, object()), [b]
            try:
                await getattr(h, what)(e, queue)
            except Exception as x:
                raise Violation(f"{what} of {old}, {new} raised {x!r}") from x
            got = {plain(r) for r in queue.added}
            want = {(m.namespace or "", m.name) for m in metas if m is not None}
            if got != want:
                raise Violation(f"{what} of {old}, {new} requested {got}, expected {want}")
            if None in metas:
                labels.add("missing")
            if want:
                labels.add("requested")
        return len(labels) == 2, labels

    return vrun(main)


spec = weighted((3, st.tuples(st.just("typed"), st.integers(0, 1), st.integers(0, 3)).map(list)),
                (2, st.tuples(st.just("dict"), st.integers(0, 1), st.integers(0, 3)).map(list)),
                (1, st.tuples(st.just("bad"), st.integers(0, 6), st.just(0)).map(list)))
cases = st.fixed_dictionaries(dict(
    controller=st.booleans(),
    predicates=st.lists(st.tuples(st.lists(st.sampled_from([True, True, False]), min_size=1, max_size=6), st.booleans()).map(list),
                        max_size=3),
    events=history(st.tuples(st.sampled_from(["add", "update", "delete"]), spec, spec, st.booleans()).map(list), 10)))

meta = st.one_of(st.none(), st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list))
direct = st.fixed_dictionaries(dict(
    events=history(st.tuples(st.sampled_from(["create", "update", "delete"]), meta, meta).map(list), 6)))

TESTS = [Test("mapping", cases, run, quick=2500, thorough=100_000), Test("direct", direct, run_direct, quick=300, thorough=5000)]

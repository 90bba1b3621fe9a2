"""C57: the cache mirrors several kinds of objects, each by itself."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.apiserver import Api
from vf.controllers import PODS, Reconciler, behaviours, build
from vf.fakes import plans, steps
from vf.gen import history, weighted
from vf.kinds import TYPES
from vf.runner import Test
from vf.tasks import Mine

import asyncio

from hypothesis import strategies as st

from aiok8s.controller import cache as cache_module
from aiok8s.controller import manager, reconcile

RULE = (
    "A case is a manager with one controller of pods and up to three of further kinds (services, and nodes, which have no "
    "namespace; the objects of the kinds have names in common), and reads of any of the kinds at generated times, which "
    "are the first ones of kinds that nobody watches; the objects of all kinds change at generated times, and the lists and "
    "watches of all kinds but pods fail as generated. Non-trivial: changes of at least two kinds, and a fault or a kind that "
    "is first read after the start."
)
ASSUMPTIONS = [
    "kinds besides pods are defined like the library defines pods (a class that says how to list them)",
    "the controllers are started when the caches of all kinds that are known by then are synced",
    "eventually (300 s after the last change and the last fault of the server) is taken for in the end",
]
PLURALS = list(TYPES)


def keyed(kind, key):
    return ("" if kind == "nodes" else key[0], key[1])


def version(o):
    return int(o["metadata"]["resourceVersion"]) if o else None


def run(case):
    async def main():
        ctx = Ctx()
        mine = Mine()
        api = Api(None, exc=case["exc"], status_410=case["status_410"], plans=dict(zip(["services", "nodes"], case["plans"])))
        api.honor = False  # watches last
        history = {}  # (kind, key) -> [(time, version or None)]
        changed = set()

        def kind_of(i):
            return PLURALS[i % len(PLURALS)]

        def do(op, i, key):
            kind = kind_of(i)
            srv = api.servers[kind]
            if op in ("put", "delete"):
                key = keyed(kind, key)
                if op == "delete" and key not in srv.objs:
                    return
                srv.do([op, key])
                changed.add(kind)
                history.setdefault((kind, key), []).append((now(), version(srv.objs.get(key))))
            elif kind != "pods" or op == "bookmark":
                srv.do([op, None])

        for i, key in case["initial"]:
            do("put", i, key)
        mgr = manager.new()
        c = mgr.get_cache()
        used = set()

        async def read(i, key):
            """The version that the cache has."""
            kind = kind_of(i)
            used.add(kind)
            ns, name = keyed(kind, key)
            try:
                o = await c.get(reconcile.NamespacedName(ns, name), TYPES[kind])
            except KeyError:
                return None
            if type(o) is not TYPES[kind] or (o.metadata.namespace or "", o.metadata.name) != (ns, name):
                raise Violation(f"reading {ns}/{name} of {kind} gave {o!r}")
            v = int(o.metadata.resource_version)
            if v not in [x for _, x in history.get((kind, (ns, name)), [])]:
                raise Violation(f"reading {ns}/{name} of {kind} gave version {v}, had there only {history}")
            return v

        rs = []
        for n, (i, conf) in enumerate([(0, case["pods"])] + [tuple(x) for x in case["controllers"]]):
            kind = kind_of(i)
            used.add(kind)
            r = Reconciler(ctx, c, conf["behaviour"] if n else [], f"controller {n} of {kind}", conf["slow_read"] if n else -1,
                           type_=TYPES[kind])
            r.kind = kind
            r.workers = await build(mgr, r, conf["workers"])
            rs.append(r)
        for i in case["early"]:
            try:
                await read(i, PODS[0])
                raise Violation(f"reading {kind_of(i)} before the start gave something")
            except cache_module.CacheNotStartedError:
                pass
        watched = set(used)
        t = asyncio.ensure_future(mgr.start())
        labels = set()
        late = []
        reads = []

        def since_start():
            """When the controllers were started, if they were."""
            lists = [[x["t_end"] for x in api.servers[k].calls if x["result"] not in (None, "error") and "t_end" in x] for k in watched]
            return max(min(l) for l in lists) + 1 if all(lists) else None

        async def reader(d, i, key):
            await pause(d)
            kind, t0 = kind_of(i), now()
            started = since_start()
            if started is None or t0 < started:
                return  # the cache may not have been started, or wait for its first list
            if kind not in used:
                labels.add("read_late")
            first = kind not in used or (kind not in watched and not any(x[0] == kind and x[3] for x in reads))
            entry = [kind, t0, None, None]
            reads.append(entry)
            v = await read(i, key)
            entry[3] = now()
            if kind == "pods" and now() > t0 + 0.01:
                raise Violation(f"reading pods took from {t0} to {now()}")
            h = history.get((kind, keyed(kind, key)), [])
            # another read, still in progress, may have had the objects listed before
            t1 = min(x[1] for x in reads if x[0] == kind)
            before = [x for at, x in h if at <= t1][-1:] or [None]
            if first and v not in before + [x for at, x in h if at >= t1]:
                raise Violation(f"the first read of {kind}, {key}, from {t0} to {now()} gave {v}; its versions: {h}")

        late = [asyncio.ensure_future(reader(*x)) for x in case["reads"]]
        for d, (op, i, key) in case["script"]:
            await pause(d)
            do(op, i, key)
        await asyncio.sleep(3)
        for s in api.servers.values():
            s.heal()
        await asyncio.sleep(300)

        async def judge(when):
            ctx.raise_if_any()
            if t.done():
                raise Violation(f"the manager ended: {t!r}")
            for r in rs:
                srv = api.servers[r.kind]
                existed = {key for k, key in history if k == r.kind}
                for key in existed:
                    last, want = r.last(key), version(srv.objs.get(key))
                    if last is None:
                        if want is not None:
                            raise Violation(f"{r.name}: {key} was never reconciled {when}")
                    elif last["read"] != want:
                        raise Violation(f"{r.name}: the last reconcile of {key} {when} read {last['read']}, there is {want}")
                for x in r.calls:
                    if x["key"] not in existed:
                        raise Violation(f"{r.name}: reconciled {x['key']}, which never existed")
            for kind in used:
                for key in PODS:
                    have, want = await read(PLURALS.index(kind), key), version(api.servers[kind].objs.get(keyed(kind, key)))
                    if have != want:
                        raise Violation(f"{key} of {kind} is read as {have} {when}, there is {want}")
            for kind in PLURALS:
                srv = api.servers[kind]
                n = len(srv.open_watches())
                if n != (kind in used):
                    raise Violation(f"{n} watches of {kind} are open {when}")
                lists = len([x for x in srv.calls if x["kind"] == "list"])
                if kind not in used and srv.calls or kind in used and not srv.faults and lists > 1 and "expire" not in case_ops:
                    raise Violation(f"{lists} lists of {kind} {when}")

        case_ops = {op for _, (op, _, _) in case["script"]}
        for x in late:
            if not x.done():
                raise Violation("a read never ends")
            x.result()
        await judge("in the end")
        started = since_start()
        early = [(r.name, x["t"]) for r in rs for x in r.calls if x["t"] < started - 1 - 1e-9]
        if early:
            raise Violation(f"reconciles {early} before all of {watched} were listed, by {started - 1}")
        # whatever happened to the others: pods were reconciled at once
        for (kind, key), h in history.items():
            for at, v in h:
                if kind == "pods" and at > started and not any(at <= x["t"] <= at + 0.05 for x in rs[0].calls if x["key"] == key):
                    raise Violation(f"{key} of pods changed at {at}, reconciled at "
                                    f"{[x['t'] for x in rs[0].calls if x['key'] == key]}")
        counts = [len(r.calls) for r in rs]
        for r in rs:
            r.behaviour = []
        for i, kind in enumerate(sorted(used)):
            do("put", PLURALS.index(kind), PODS[i])
        await asyncio.sleep(1.5)
        await judge("after a late change of each kind")
        if any(b - a > 3 for a, b in zip(counts, [len(r.calls) for r in rs])):
            raise Violation(f"one late change of each kind: {counts} calls before, {[len(r.calls) for r in rs]} now")
        t.cancel()
        await asyncio.wait([t], timeout=5)
        if not t.cancelled():
            raise Violation(f"cancelled, but {t!r}")
        for kind, s in api.servers.items():
            if s.open_watches():
                raise Violation(f"a watch of {kind} is open after the manager has ended")
        if any(not p.closed for p in api.pools):
            raise Violation("a connection pool is open after the manager has ended")
        await mine.check("the manager has ended")
        if any(s.faults for s in api.servers.values()):
            labels.add("faults")
        labels.add(f"kinds={len(used)}")
        if len(rs) > len({r.kind for r in rs}):
            labels.add("shared")
        return len(changed) > 1 and bool(labels & {"faults", "read_late"}), labels

    return vrun(main, max_time=1e5)


kind = st.integers(0, 2)
key = st.sampled_from(PODS)
op = weighted((6, st.tuples(st.just("put"), kind, key)), (3, st.tuples(st.just("delete"), kind, key)),
              (1, st.tuples(st.sampled_from(["expire", "bookmark"]), kind, key)))
conf = st.fixed_dictionaries(dict(
    workers=st.sampled_from([0, 0, 1, 3]), behaviour=behaviours, slow_read=st.sampled_from([-1, -1, 0, 10])))
cases = st.fixed_dictionaries(dict(
    exc=st.integers(0, 5), status_410=st.booleans(), plans=st.lists(st.one_of(st.just({}), plans), min_size=2, max_size=2),
    initial=st.lists(st.tuples(kind, key).map(list), max_size=5), pods=conf,
    controllers=st.lists(st.tuples(kind, conf).map(list), max_size=3), early=st.lists(kind, max_size=1),
    reads=st.lists(st.tuples(st.sampled_from([10, 64, 70, 100, 200, 400, 1000]), kind, key).map(list), max_size=4),
    script=history(st.tuples(steps, op.map(list)).map(list), 16, lo=0)))

ALONE = ["kinds"]
TESTS = [Test("kinds", cases, run, quick=1200, thorough=50_000)]

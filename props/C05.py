"""C05: a relist makes the consumer's store equal the listed state."""
from vf.env import Ctx, Violation, pause, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import controller, delta_fifo, store
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown, DeltaType
from vf.fakes import Res, key_of, make_dict, rv_of

RULE = (
    "A case is a history of writes (adds, updates, deletions, resyncs, replacements) to a delta queue while a "
    "consumer of generated speed applies what it pops to its store, ending with a replacement and a full drain; at "
    "times looking up some of the known objects fails or finds nothing. "
    "Non-trivial: an object missing from a list was deleted, or a listed one was re-created after its deletion."
)
ASSUMPTIONS = ["the known objects given to the queue are the consumer's store", "processing does not fail"]

D = DeltaType.DELETED


class Known:
    """The consumer's store, some of whose objects cannot be looked up at times."""

    def __init__(self, clients):
        self.clients, self.blind, self.absent, self.hits = clients, set(), False, 0
        self.list_keys = clients.list_keys

    def get_by_key(self, key):
        if key in self.blind:
            self.hits += 1
            if self.absent:
                return None
            raise RuntimeError(f"cannot look up {key}")
        return self.clients.get_by_key(key)


KEYS = [["", "a"], ["", "b"], ["ns", "a"], ["ns", "c"]]


def run(case):
    async def main():
        make = make_dict if case["dicts"] else Res
        clients = store.new_store(controller.deletion_handling_meta_namespace_key_func)
        known = Known(clients)
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
        ctx = Ctx()
        rv = 0
        last = {}  # key -> last delivered delta
        labels = set()
        speeds = case["speeds"] or [-1]
        blinded = set()
        npop = 0

        def obj(k):
            nonlocal rv
            rv += 1
            return make(tuple(k), rv)

        async def process(deltas):
            nonlocal npop
            npop += 1
            await pause(speeds[npop % len(speeds)])
            for d in deltas:
                key = controller.deletion_handling_meta_namespace_key_func(d.object)
                prev = last.get(key)
                if isinstance(d.object, DeletedFinalStateUnknown):
                    labels.add("tombstone")
                    ctx.check(d.type is D, f"tombstone in a {d.type} change")
                    inner = d.object.obj
                    ctx.check(not isinstance(inner, DeletedFinalStateUnknown), f"tombstone in a tombstone: {d}")
                    if prev is None or prev.type is D:
                        ctx.fail(f"deletion of {key} announced again (or never existing): {d}, before {prev}")
                    elif inner is not prev.object and not (inner is None and key in blinded):
                        ctx.fail(f"tombstone carries {inner!r}, last known was {prev.object!r}")
                if d.type is D:
                    await clients.delete(d.object)
                else:
                    if prev is not None and prev.type is D:
                        labels.add("recreated")
                    await clients.update(d.object)
                last[key] = d

        async def consumer():
            while True:
                await q.pop(process)

        c = None
        if case["consume"]:
            c = asyncio.ensure_future(consumer())
        lists = 0
        listed = []
        for d, (kind, a) in case["ops"] + [[-1, ["replace", case["final"]]]]:
            await pause(d)
            if kind in ("add", "update"):
                await getattr(q, kind)(obj(a))
            elif kind == "delete":
                await q.delete(obj(a))
            elif kind == "resync":
                await q.resync()
            elif kind in ("blind", "absent"):
                known.absent = kind == "absent"
                known.blind = {key_of(make(tuple(k), 0)) for k in a}
                blinded |= known.blind
            elif kind == "replace":
                listed = [obj(k) for k in a]
                await q.replace(listed, str(rv))
                lists += 1
        if c is None:
            c = asyncio.ensure_future(consumer())
        for _ in range(400):
            await asyncio.sleep(1)
            if not q.list_keys():
                break
        await asyncio.sleep(5)
        if c.done():
            c.result()
        ctx.raise_if_any()
        got = sorted((key_of(o), rv_of(o)) for o in clients.list())
        want = sorted({key_of(o): rv_of(o) for o in listed}.items())
        if got != want:
            raise Violation(f"after the relist the store holds {got}, listed was {want}")
        if not q.has_synced():
            raise Violation("everything was consumed but the queue does not report synced")
        for key, d in last.items():
            if (d.type is D) != (key not in dict(want)):
                raise Violation(f"last change announced for {key} is {d}, listed was {want}")
        if known.hits:
            labels.add("lookup_failed")
        return bool(labels), labels

    return vrun(main)


key = st.sampled_from(KEYS)
lists = st.lists(key, max_size=4, unique_by=tuple)
op = weighted(
    (5, st.tuples(st.sampled_from(["add", "update", "delete"]), key).map(list)),
    (1, st.just(["resync", None])),
    (2, st.tuples(st.just("replace"), lists).map(list)),
    (1, st.tuples(st.sampled_from(["blind", "blind", "absent"]), lists).map(list)),
)
cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), consume=st.booleans(), speeds=st.lists(delays, max_size=4),
    ops=history(st.tuples(delays, op).map(list), 18, lo=0), final=lists))

TESTS = [Test("relist", cases, run, quick=3000, thorough=200_000)]

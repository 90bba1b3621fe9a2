"""C04: the delta queue delivers every change, complete and in order per key."""
from vf.answers import Answers
from vf.env import Ctx, HarnessError, Violation, pause, settle, vrun
from vf.failures import pick, variants
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio
from collections import Counter

from hypothesis import strategies as st

from aiok8s.cache import delta_fifo, fifo, store
from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown, DeltaType

RULE = (
    "history: random operations on one delta queue, with or without a set of known objects fed by the popper, "
    "compared after each with a model of the pending changes and waiting poppers; concurrent: producers and "
    "slow poppers with generated delays, judged by the sequence of accepted writes per key. Non-trivial: a key "
    "had two or more pending changes, a popper waited, a deletion was dropped or merged, or processing failed."
)
ASSUMPTIONS = ["of two adjacent real deletions of a key either may be kept",
               "all changes queued by one replacement or resync become pending together, the listed ones in order"]

A, U, D, S = DeltaType.ADDED, DeltaType.UPDATED, DeltaType.DELETED, DeltaType.SYNC


class Obj:
    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return f"{self.key}#{self.n}"


def key_func(o):
    if isinstance(o, DeletedFinalStateUnknown):
        return o.key
    if not isinstance(o, Obj):
        raise TypeError("not an object")
    return o.key


class Cause(Exception):
    pass


CAUSES = variants(Cause)


class Known:
    """A store of known objects that may fail to look some of them up."""

    def __init__(self, store):
        self.store, self.broken, self.failures = store, set(), 0

    def list_keys(self):
        return self.store.list_keys()

    def get_by_key(self, key):
        if key in self.broken:
            self.failures += 1
            raise pick(CAUSES, self.failures)("lookup")
        return self.store.get_by_key(key)


class Tomb:
    """Model of a tombstone: key and last known object."""

    def __init__(self, key, obj):
        self.key, self.obj = key, obj

    def __repr__(self):
        return f"Tomb({self.key},{self.obj})"


def same(entry, delta):
    """entry: (type, [acceptable objects]) of the model; delta: of the queue."""
    t, objs = entry
    if delta.type is not t:
        return False
    for o in objs:
        if isinstance(o, Tomb):
            d = delta.object
            if isinstance(d, DeletedFinalStateUnknown) and d.key == o.key and d.obj is o.obj:
                return True
        elif delta.object is o:
            return True
    return False


def same_list(entries, deltas):
    return len(entries) == len(deltas) and all(same(e, d) for e, d in zip(entries, deltas))


class Model:
    def __init__(self, known):
        self.known = known  # key -> obj, or None
        self.pending = {}  # key -> [(type, [objs])]
        self.place = {}
        self.tick = 0
        self.notes = set()
        self.initial = None  # keys left of what populated it

    def queue(self, key, t, o, place=None):
        if key not in self.pending:
            self.tick += 1
            self.pending[key] = []
            self.place[key] = place or (self.tick, self.tick)
        p = self.pending[key]
        if t is D and p and p[-1][0] is D:
            self.notes.add("merged")
            old, real = p[-1][1], not isinstance(o, Tomb)
            old_real = not isinstance(old[0], Tomb)
            if real and old_real or not real and not old_real:
                old.append(o)
            elif real:
                p[-1] = (D, [o])
        else:
            p.append((t, [o]))
        if len(p) > 1:
            self.notes.add("several")

    def touch(self):
        if self.initial is None:
            self.initial = set()

    def delete(self, o, key):
        if key in self.pending or self.known is not None and key in self.known:
            self.queue(key, D, o)
        else:
            self.notes.add("dropped")

    def newest(self, key):
        o = self.pending[key][-1][1][0]
        return o.obj if isinstance(o, Tomb) else o

    def replace(self, objs):
        lo = self.tick + 1
        keys = {o.key for o in objs}
        for o in objs:
            self.queue(o.key, S, o)
        gone = [(k, self.newest(k)) for k in self.pending if k not in keys]
        if self.known is not None:
            gone += [(k, o) for k, o in self.known.items() if k not in keys and k not in self.pending]
        hi = self.tick + len(gone) + 1
        for k, o in gone:
            self.queue(k, D, Tomb(k, o), place=(lo, hi))
        self.tick = hi
        if self.initial is None:
            self.initial = keys | {k for k, _ in gone}

    def resync(self, unsure=()):
        if self.known is None:
            return
        todo = [(k, o) for k, o in self.known.items() if k not in self.pending and k not in unsure]
        lo, hi = self.tick + 1, self.tick + len(todo) + 1
        for k, o in todo:
            self.queue(k, S, o, place=(lo, hi))
            self.notes.add("resynced")
        self.tick = hi

    def may_hand(self, k):
        return k in self.pending and all(
            self.place[k][0] < self.place[y][1] for y in self.pending if y != k)

    def take(self, k):
        if self.initial:
            self.initial.discard(k)
        self.place.pop(k)
        return self.pending.pop(k)


async def pop(q, outcome, process):
    try:
        item = await q.pop(process)
    except fifo.FIFOClosedError:
        return "closed", None
    except fifo.ProcessError as e:
        if outcome not in ("requeue_cause", "error"):
            raise Violation(f"pop with outcome {outcome} raised ProcessError")
        if not isinstance(e.__cause__, Cause):
            raise Violation(f"ProcessError carries {e.__cause__!r} instead of the original error")
        return "error", e.item
    if outcome not in ("ok", "requeue"):
        raise Violation(f"processing failed ({outcome}) but pop returned normally")
    return "item", item


def fail(outcome, i=0):
    cause = pick(CAUSES, i)
    if outcome == "requeue":
        raise fifo.RequeueError()
    if outcome == "requeue_cause":
        raise fifo.RequeueError() from cause("c")
    if outcome == "error":
        raise cause("e")


async def apply(known, deltas):
    for d in deltas:
        if d.type is D:
            await known.delete(d.object)
        else:
            await known.update(d.object)


def run_history(case):
    async def main():
        known = store.new_store(key_func) if case["known"] else None
        view = known and Known(known)
        q = delta_fifo.DeltaFIFO(key_func, view)
        m = Model({} if case["known"] else None)
        answers = Answers()
        handed, waiting, labels = [], [], {"known" if case["known"] else "no_known"}
        n, closed, waited, failed = 0, False, False, False
        spare = []  # Deltas of failed items, for add_if_not_present

        def obj(k):
            nonlocal n
            n += 1
            return Obj(k, n)

        def processor(outcome):
            async def process(deltas):
                handed.append((deltas, list(deltas), outcome))
                if known is not None and outcome == "ok":
                    await apply(known, deltas)
                fail(outcome)

            return process

        for kind, a in case["ops"]:
            labels.add(kind)
            before = len(handed)
            if kind == "add":
                o = obj(a)
                await q.add(o)
                m.touch()
                m.queue(a, A, o)
            elif kind == "update":
                o = obj(a)
                await q.update(o)
                m.touch()
                m.queue(a, U, o)
            elif kind == "delete":
                o = obj(a)
                await q.delete(o)
                m.touch()
                m.delete(o, a)
            elif kind == "delete_tomb":
                o = obj(a)
                await q.delete(DeletedFinalStateUnknown(a, o))
                m.touch()
                m.delete(Tomb(a, o), a)
            elif kind == "replace":
                objs = [obj(k) for k in a]
                await q.replace(objs, "1")
                m.replace(objs)
            elif kind == "delete_unsure":
                o = obj(a)
                if view is not None:
                    view.broken = {a}
                await q.delete(o)
                m.touch()
                if m.known is None:
                    m.delete(o, a)
                else:
                    m.queue(a, D, o)
            elif kind == "resync":
                await q.resync()
                m.resync()
            elif kind == "resync_unsure":
                if view is not None:
                    view.broken = {a}
                await q.resync()
                m.resync({a})
            elif kind == "readd":
                if spare:
                    deltas, entries, k = spare.pop(0)
                    await q.add_if_not_present(deltas)
                    m.touch()
                    if k not in m.pending:
                        m.tick += 1
                        m.pending[k] = entries
                        m.place[k] = (m.tick, m.tick)
            elif kind == "known" and known is not None:
                o = obj(a)
                await known.add(o)
                m.known[a] = o
            elif kind == "close":
                await q.close()
                closed = True
            elif kind == "pop":
                waiting.append((a, asyncio.ensure_future(pop(q, a, processor(a)))))
            if view is not None:
                view.broken = set()
            await settle()
            while before < len(handed):
                deltas, was, outcome = handed[before]
                before += 1
                try:
                    k = q.key_of(deltas)
                except Exception as e:
                    raise Violation(f"handed out {was!r}, which has no key")
                if k not in m.pending or not same_list(m.pending[k], was):
                    raise Violation(f"handed out {was!r}, pending was {m.pending}")
                if not m.may_hand(k):
                    raise Violation(f"handed out {k} out of order; places {m.place}")
                if deltas.oldest() is not was[0] or deltas.newest() is not was[-1]:
                    raise Violation(f"of {was!r} the oldest is {deltas.oldest()}, the newest {deltas.newest()}")
                entries = m.take(k)
                if outcome.startswith("requeue"):
                    m.touch()
                    m.tick += 1
                    m.pending[k] = entries
                    m.place[k] = (m.tick, m.tick)
                elif outcome == "ok" and m.known is not None:
                    for d in was:
                        if d.type is D:
                            m.known.pop(k, None)
                        else:
                            m.known[k] = d.object
                if outcome != "ok":
                    failed = True
                    if outcome == "error":
                        spare.append((deltas, [(t, list(os)) for t, os in entries], k))
                for i, (oc, t) in enumerate(waiting):
                    if t.done() and oc == outcome and t.exception() is None and t.result()[1] is not None \
                            and list(t.result()[1]) == was:
                        del waiting[i]
                        break
                else:
                    for _, t in waiting:
                        if t.done():
                            t.result()
                    raise Violation(f"{was!r} was handed out but no pop returned it")
            for oc, t in list(waiting):
                if t.done():
                    r = t.result()
                    if r[0] != "closed":
                        raise Violation(f"pop returned {r} without a hand-out")
                    if not closed or m.pending:
                        raise Violation(f"pop reported closed; closed={closed}, pending {m.pending}")
                    waiting.remove((oc, t))
            if waiting:
                waited = True
                labels.add("popper_waits")
                if m.pending:
                    raise Violation(f"{m.pending} pending but {len(waiting)} pops still wait")
                if closed:
                    raise Violation("pop still waits on a closed empty queue")
            answers.check(kind)
            answers.hold("list()", q.list())
            answers.hold("list_keys()", q.list_keys())
            if Counter(q.list_keys()) != Counter(list(m.pending)):
                raise Violation(f"list_keys() is {q.list_keys()}, pending is {m.pending}")
            for k in KEYS:
                for got in (q.get_by_key(k), q.get(Obj(k, -1))):
                    if k in m.pending:
                        if not got or not same_list(m.pending[k], got):
                            raise Violation(f"after {kind} {a}: get({k}) is {got}, expected {m.pending[k]}")
                    elif got:
                        raise Violation(f"get({k}) is {got}, but nothing is pending for it")
                    if got is not None:
                        got.clear()  # a copy: must not affect the queue
            lst = q.list()
            if len(lst) != len(m.pending):
                raise Violation(f"list() is {lst}, pending is {m.pending}")
            for o in lst:
                k = key_func(o)
                if k not in m.pending or not same(m.pending[k][-1], delta_fifo.Delta(m.pending[k][-1][0], o)):
                    raise Violation(f"list() has {o!r}, pending is {m.pending}")
            if m.known is not None:
                got = {k: known.get_by_key(k) for k in known.list_keys()}
                if got != m.known:
                    raise HarnessError(f"known objects diverged: {got} {m.known}")
            if m.initial is not None and bool(q.has_synced()) == bool(m.initial):
                raise Violation(f"has_synced() is {q.has_synced()} with {m.initial} left of what populated the queue")
            if q.is_closed() != closed:
                raise Violation(f"is_closed() is {q.is_closed()}")
        labels |= m.notes
        return bool(m.notes or waited or failed), labels

    return vrun(main)


KEYS = ["a", "b", "c", "d"]
key = st.sampled_from(KEYS)
outcome = st.sampled_from(["ok", "ok", "ok", "ok", "requeue", "requeue_cause", "error"])
op = weighted(
    (5, st.tuples(st.sampled_from(["add", "update", "delete"]), key)),
    (1, st.tuples(st.sampled_from(["delete_tomb", "known", "delete_unsure", "resync_unsure"]), key)),
    (5, st.tuples(st.just("pop"), outcome)),
    (1, st.tuples(st.just("replace"), st.lists(key, max_size=4))),
    (2, st.tuples(st.sampled_from(["resync", "resync", "readd", "readd", "close"]), st.none())),
)
populated = st.one_of(st.just([]), st.just([]), st.builds(
    lambda known, ks: [("known", k) for k in known] + [("replace", ks)],
    st.lists(key, max_size=2, unique=True), st.lists(key, min_size=1, max_size=4, unique=True)))
histories = st.fixed_dictionaries(dict(known=st.booleans(), ops=st.builds(lambda a, b: a + b, populated, history(op, 24))))


def run_concurrent(case):
    """Producers write while slow poppers process: every write is delivered once, each with its own type; the
    writes of one producer to one key in order; and a write that had returned before another of the same key
    was begun is delivered before it."""

    async def main():
        ctx = Ctx()
        q = delta_fifo.DeltaFIFO(key_func)
        clock = 0
        writes = {}  # n -> [kind, key, begun, returned]
        delivered = {k: [] for k in KEYS}
        outs, busy = 0, set()

        def tick():
            nonlocal clock
            clock += 1
            return clock

        async def producer(script):
            for kind, k, d in script:
                await pause(d)
                n = len(writes) + 1
                o = Obj(k, n)
                writes[n] = w = [A if kind == "add" else U, k, tick(), None]
                await (q.add(o) if kind == "add" else q.update(o))
                w[3] = tick()

        async def popper(script):
            nonlocal outs
            i = 0
            while True:
                outcome, d1, d2 = script[i % len(script)]
                i += 1
                if i > 40 or outcome == "error":
                    outcome = "ok"

                async def process(deltas):
                    k = q.key_of(deltas)
                    ctx.check(k not in busy, f"{k} is processed twice at once")
                    busy.add(k)
                    await pause(d1)
                    busy.discard(k)
                    if outcome.startswith("requeue"):
                        fail(outcome)
                    delivered[k].extend((d.type, d.object.n) for d in deltas)

                r = await pop(q, outcome, process)
                if r[0] == "closed":
                    return
                outs += 1
                await pause(d2)

        prods = [asyncio.ensure_future(producer(p)) for p in case["producers"]]
        pops = [asyncio.ensure_future(popper(p)) for p in case["poppers"]]
        for t in prods:
            await asyncio.wait_for(t, 5000)
        await asyncio.wait_for(q.close(), 5000)
        for t in pops:
            await asyncio.wait_for(t, 5000)
        ctx.raise_if_any()
        for k, got in delivered.items():
            ns = [n for _, n in got]
            if Counter(ns) != Counter([n for n, w in writes.items() if w[1] == k]):
                raise Violation(f"{k}: delivered {got}, written {writes}")
            for i, (t, n) in enumerate(got):
                if writes[n][0] is not t:
                    raise Violation(f"{k}: write {n} was delivered as {t}")
                for later in ns[i + 1:]:
                    if writes[later][3] < writes[n][2]:
                        raise Violation(f"{k}: write {later} had returned before {n} began, delivered {got}")
        if q.list_keys():
            raise Violation("closed queue reported drained with changes pending")
        return outs < len(writes) or len(case["poppers"]) > 1, ["merged_pop"] if outs < len(writes) else []

    return vrun(main)


script = st.lists(st.tuples(st.sampled_from(["add", "update"]), key, delays), min_size=1, max_size=8)
concurrent = st.fixed_dictionaries(dict(
    producers=st.lists(script, min_size=1, max_size=4),
    poppers=st.lists(st.lists(st.tuples(outcome, delays, delays), min_size=1, max_size=4), min_size=1, max_size=3)))

TESTS = [
    Test("history", histories, run_history, quick=3000, thorough=200_000),
    Test("concurrent", concurrent, run_concurrent, quick=800, thorough=60_000),
]

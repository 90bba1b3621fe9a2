"""C03: FIFO hands out the latest object of each pending key, once, in order."""
from vf.answers import Answers
from vf.env import Ctx, Violation, pause, settle, vrun
from vf.failures import pick, variants
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio
from collections import Counter

from hypothesis import strategies as st

from aiok8s.cache import fifo, store

RULE = (
    "history: random operations on one FIFO, compared after each with a model of pending keys and waiting "
    "poppers; concurrent: producers, deleters and poppers with generated delays, judged by per-key history. "
    "Non-trivial: a key was overwritten or deleted while pending, a popper waited, or a processing failed."
)
ASSUMPTIONS = [
    "a key deleted while pending and added again may keep its old place or take a new one",
    "if some of what was first listed was deleted or replaced before it was handed out, synced is only required once a "
    "pop waits, and refused while what remains of it is pending",
]


class Obj:
    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return f"{self.key}#{self.n}"


def key_func(o):
    if not isinstance(o, Obj):
        raise TypeError("not an object")
    return o.key


class Cause(Exception):
    pass


CAUSES = variants(Cause)


def processor(outcome, handed):
    def process(item):
        handed.append((item, outcome))
        cause = pick(CAUSES, len(handed))
        if outcome == "requeue":
            raise fifo.RequeueError()
        if outcome == "requeue_cause":
            raise fifo.RequeueError() from cause("c")
        if outcome == "error":
            raise cause("e")

    return process


async def pop(q, outcome, handed):
    """-> (kind, item)"""
    n = len(handed)
    try:
        item = await q.pop(processor(outcome, handed))
    except fifo.FIFOClosedError:
        return "closed", None
    except fifo.ProcessError as e:
        if outcome not in ("requeue_cause", "error"):
            raise Violation(f"pop with outcome {outcome} raised ProcessError")
        if not isinstance(e.__cause__, Cause):
            raise Violation(f"ProcessError carries {e.__cause__!r} instead of the original error")
        return "error", e.item
    if outcome not in ("ok", "requeue"):
        raise Violation(f"processing failed ({outcome}) but pop returned {item!r} normally")
    return "item", item


class Model:
    def __init__(self):
        self.items = {}
        self.places = {}  # key -> places in the order, including those left by deleted entries
        self.tick = 0
        self.first = None  # what populated it
        self.initial = set()
        self.fuzzy = False

    def touch(self, first):
        if self.first is None:
            self.first = first

    def put(self, o):
        if o.key not in self.items:
            self.tick += 1
            self.places.setdefault(o.key, []).append(self.tick)
        self.items[o.key] = o

    def drop(self, k):
        if k in self.items:
            del self.items[k]
            if k in self.initial:
                self.initial.discard(k)
                self.fuzzy = self.fuzzy or "deleted"

    def replace(self, objs):
        if self.first is None:
            self.first, self.initial = "replace", {o.key for o in objs}
        else:
            if self.initial:
                self.fuzzy = "replaced"
            self.initial &= {o.key for o in objs}
        self.items, self.places = {}, {}
        for o in objs:
            self.tick += 1
            self.places.setdefault(o.key, []).append(self.tick)
            self.items[o.key] = o

    def may_hand(self, k):
        return k in self.items and all(
            self.places[k][0] < self.places[y][-1] for y in self.items if y != k)

    def take(self, k):
        self.places[k].pop(0)
        self.initial.discard(k)
        return self.items.pop(k)

    def forget_stale(self):
        self.places = {k: v for k, v in self.places.items() if k in self.items}


def run_history(case):
    async def main():
        q, m = fifo.FIFO(key_func), Model()
        handed, n, closed = [], 0, False
        answers = Answers()
        waiting = []
        labels, nontrivial = set(), False

        def obj(k):
            nonlocal n
            n += 1
            return Obj(k, n)

        drain = [["pop", "ok"]] * 8
        for kind, a in case["ops"] + drain:
            labels.add(kind)
            before = len(handed)
            if kind in ("add", "update"):
                o = obj(a)
                nontrivial |= a in m.items
                await getattr(q, kind)(o)
                m.touch("add")
                m.put(o)
            elif kind == "burst":
                for k in a:
                    o = obj(k)
                    nontrivial |= k in m.items
                    await q.add(o)
                    m.touch("add")
                    m.put(o)
            elif kind == "add_if_not_present":
                o = obj(a)
                await q.add_if_not_present(o)
                m.touch("add")
                if a not in m.items:
                    m.put(o)
            elif kind == "delete":
                nontrivial |= a in m.items
                await q.delete(obj(a))
                m.touch("add")
                m.drop(a)
            elif kind == "replace":
                objs = [obj(k) for k in a]
                await q.replace(objs, "1")
                m.replace(objs)
            elif kind == "resync":
                await q.resync()
            elif kind == "close":
                await q.close()
                closed = True
            elif kind == "bad":
                try:
                    await getattr(q, a)(*([[obj("a"), object()], "1"] if a == "replace" else [object()]))
                except store.StoreKeyError:
                    pass
                else:
                    raise Violation(f"{a} of an unkeyable object was not refused")
            elif kind == "pop":
                waiting.append((a, asyncio.ensure_future(pop(q, a, handed))))
            await settle()

            # requeues can feed waiting poppers in the same instant, so walk through the hand-outs
            while before < len(handed):
                item, outcome = handed[before]
                before += 1
                if m.items.get(getattr(item, "key", None)) is not item:
                    raise Violation(f"handed out {item!r}, pending was {m.items}")
                if not m.may_hand(item.key):
                    raise Violation(f"handed out {item!r} out of order; places {m.places}")
                m.take(item.key)
                if outcome.startswith("requeue"):
                    m.put(item)
                for i, (oc, t) in enumerate(waiting):
                    if t.done() and oc == outcome and t.exception() is None and t.result()[1] is item:
                        del waiting[i]
                        break
                else:
                    for _, t in waiting:
                        if t.done():
                            t.result()
                    raise Violation(f"{item!r} was handed out but no pop returned it")
            for oc, t in list(waiting):
                if t.done():
                    r = t.result()
                    if r[0] == "closed":
                        if not closed or m.items:
                            raise Violation(f"pop reported closed; closed={closed}, pending {m.items}")
                        waiting.remove((oc, t))
                    else:
                        raise Violation(f"pop returned {r} without a hand-out")
            if waiting:
                nontrivial = True
                labels.add("popper_waits")
                if m.items:
                    raise Violation(f"{m.items} pending but {len(waiting)} pops still wait")
                if closed:
                    raise Violation("pop still waits on a closed empty queue")
                m.forget_stale()
            answers.check(kind)
            answers.hold("list()", q.list())
            answers.hold("list_keys()", q.list_keys())
            if Counter(map(id, q.list())) != Counter(map(id, m.items.values())):
                raise Violation(f"list() is {q.list()}, pending is {m.items}")
            if Counter(q.list_keys()) != Counter(list(m.items)):
                raise Violation(f"list_keys() is {q.list_keys()}, pending is {m.items}")
            for k in KEYS:
                if q.get_by_key(k) is not m.items.get(k) or q.get(Obj(k, -1)) is not m.items.get(k):
                    raise Violation(f"get({k}) is {q.get_by_key(k)}, pending is {m.items}")
            if q.is_closed() != closed:
                raise Violation(f"is_closed() is {q.is_closed()}")
            hs = bool(q.has_synced())
            if m.first is None:
                want = False
            elif m.first == "add":
                want = True
            elif m.fuzzy and not m.initial:
                # at the latest once somebody has looked past what was deleted, or all that replaced it was handed out
                want = hs or bool(waiting)
            else:
                want = not m.initial
            if hs != want:
                raise Violation(f"has_synced() is {hs} with initial keys left {m.initial}, first {m.first}")
        return nontrivial or any(o != "ok" for _, o in handed), labels

    return vrun(main)


KEYS = ["a", "b", "c", "d"]
key = st.sampled_from(KEYS)
outcome = st.sampled_from(["ok", "ok", "ok", "requeue", "requeue_cause", "error"])
op = weighted(
    (4, st.tuples(st.sampled_from(["add", "update", "add_if_not_present"]), key)),
    (2, st.tuples(st.just("delete"), key)),
    (5, st.tuples(st.just("pop"), outcome)),
    (1, st.tuples(st.just("replace"), st.lists(key, max_size=4))),
    (1, st.tuples(st.just("burst"), st.lists(key, min_size=2, max_size=4, unique=True))),
    (1, st.tuples(st.sampled_from(["resync", "close"]), st.none())),
    (1, st.tuples(st.just("bad"), st.sampled_from(
        ["add", "update", "delete", "replace", "add_if_not_present"]))),
)
populated = st.one_of(st.just([]), st.just([]), st.lists(key, min_size=2, max_size=4, unique=True).map(lambda ks: [("replace", ks)]))
histories = st.fixed_dictionaries(dict(ops=st.builds(lambda a, b: a + b, populated, history(op, 24))))


def run_concurrent(case):
    async def main():
        ctx, q = Ctx(), fifo.FIFO(key_func)
        n = 0
        done = {}  # key -> newest version whose add has returned
        consumed = {}  # key -> newest version handed
        outs = []
        deleted_keys = set(k for p in case["producers"] for kind, k, _ in p if kind == "delete")

        async def producer(script):
            nonlocal n
            for kind, k, d in script:
                await pause(d)
                n += 1
                o = Obj(k, n)
                if kind == "add":
                    await q.add(o)
                    done[k] = max(done.get(k, 0), o.n)
                else:
                    await q.delete(o)

        async def popper(script):
            i = 0
            while True:
                outcome, d = script[i % len(script)]
                i += 1
                if i > 40:
                    outcome = "ok"

                def process(item):
                    k, last = item.key, consumed.get(item.key, 0)
                    ctx.check(item.n > last or item.n == last and item.n in requeued,
                              f"{item} handed out after version {last}")
                    if k not in deleted_keys:
                        ctx.check(item.n >= done.get(k, 0), f"{item} handed out although version "
                                  f"{done.get(k)} had been stored")
                    consumed[k] = item.n
                    requeued.discard(item.n)
                    if outcome.startswith("requeue"):
                        requeued.add(item.n)
                    outs.append(item)
                    processor(outcome, [])(item)

                r = await pop_with(q, outcome, process)
                if r == "closed":
                    return
                await pause(d)

        requeued = set()
        prods = [asyncio.ensure_future(producer(p)) for p in case["producers"]]
        pops = [asyncio.ensure_future(popper(p)) for p in case["poppers"]]
        await asyncio.gather(*prods)
        await q.close()
        for f in asyncio.as_completed(pops, timeout=2000):
            await f
        ctx.raise_if_any()
        for k, v in done.items():
            if consumed.get(k, 0) < v and k not in deleted_keys:
                raise Violation(f"version {v} of {k} was never handed out (last {consumed.get(k)})")
        if q.list() or q.list_keys():
            raise Violation("closed queue reported drained with items pending")
        return len(outs) > 2 and len(case["producers"]) + len(case["poppers"]) > 2, ["concurrent"]

    return vrun(main)


async def pop_with(q, outcome, process):
    try:
        await q.pop(process)
    except fifo.FIFOClosedError:
        return "closed"
    except fifo.ProcessError as e:
        if not isinstance(e.__cause__, Cause):
            raise
    return "item"


script = st.lists(st.tuples(st.sampled_from(["add", "add", "add", "delete"]), key, delays), min_size=1, max_size=8)
concurrent = st.fixed_dictionaries(dict(
    producers=st.lists(script, min_size=1, max_size=4),
    poppers=st.lists(st.lists(st.tuples(outcome, delays), min_size=1, max_size=4), min_size=1, max_size=4)))

TESTS = [
    Test("history", histories, run_history, quick=2500, thorough=150_000),
    Test("concurrent", concurrent, run_concurrent, quick=800, thorough=60_000),
]

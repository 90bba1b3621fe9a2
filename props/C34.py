"""C34: fake API source: list plus watch from its version replays to the state."""
from vf.env import Violation, now, pause, settle, vrun
from vf.gen import delays, history, weighted
from vf.runner import Test
from vf.watching import Consumer, finish, waits

import asyncio

from hypothesis import strategies as st

from aiok8s.cache.testing import fake_controller_source

RULE = (
    "A case is a history of changes (announced or dropped), lists, and watches from "
    "generated earlier versions with consumers of generated speed; listed objects and replayed history are vandalised. "
    "Non-trivial: some watch began below the version of the moment and received later changes too."
)
ASSUMPTIONS = ["changed objects are handed over to the source", "change probability is 0 or 1"]
KEYS = [("", "a", "u1"), ("ns", "a", "u2"), ("ns", "a", "u3"), ("ns", "b", "u4")]


class Meta:
    def __init__(self, key):
        self.namespace, self.name, self.uid = key
        self.resource_version = ""


class Obj:
    def __init__(self, key, payload):
        self.metadata = Meta(key)
        self.payload = [payload]


def make(key, payload, as_dict):
    if as_dict:
        return {"apiVersion": "v1", "kind": "X", "payload": [payload],
                "metadata": {"namespace": key[0], "name": key[1], "uid": key[2]}}
    return Obj(key, payload)


def view(o):
    """(key, version, payload)"""
    if isinstance(o, dict):
        m = o["metadata"]
        return (m["namespace"], m["name"], m["uid"]), m["resourceVersion"], o["payload"][0]
    m = o.metadata
    return (m.namespace, m.name, m.uid), m.resource_version, o.payload[0]


def vandalise(o):
    if isinstance(o, dict):
        o["payload"][0] = "broken"
        o["metadata"]["resourceVersion"] = "0"
    else:
        o.payload[0] = "broken"
        o.metadata.resource_version = "0"


def run(case, absent=False):
    async def main():
        s = fake_controller_source.FakeControllerSource()
        changes = []  # (type, key, payload, announced)
        state = {}
        ws = []  # consumer, start version, seen (views), replayed count
        listed = []
        labels = set()
        nontrivial = False

        def check_list(l):
            got = {view(o)[0]: view(o)[1:] for o in l.items}
            want = {k: (str(v), p) for k, (v, p) in state.items()}
            if got != want or len(l.items) != len(want):
                raise Violation(f"list gives {got}, expected {want}")
            if l.metadata.resource_version != str(len(changes)):
                raise Violation(f"list has version {l.metadata.resource_version} after {len(changes)} changes")

        class Eyes(Consumer):
            """Notes what an event says at the time it is received, then vandalises replayed objects."""

            def __init__(self, w, spec, replay):
                self.seen, self.replay = [], replay
                outer = self

                class Tap:
                    async def __anext__(tap):
                        e = await w.__anext__()
                        outer.seen.append((e["type"],) + view(e["object"]))
                        if len(outer.seen) <= outer.replay:
                            vandalise(e["object"])
                        return e

                super().__init__(Tap(), spec)

        for op, a, b in case["ops"]:
            if op == "pause":
                await pause(a)
            elif op == "change":
                kind, ki, drop = a
                key = KEYS[ki]
                announced = not drop
                if kind == "put":
                    kind = "modify" if key in state else "add"
                elif kind == "delete" and key not in state:
                    if not absent:
                        continue  # a known finding, judged by KNOWN below
                    labels.add("absent_deleted")
                payload = len(changes) + 1
                o = make(key, payload, b)
                changes.append(({"add": "ADDED", "modify": "MODIFIED", "delete": "DELETED"}[kind], key, payload, announced))
                t = asyncio.ensure_future(getattr(s, kind + ("_drop_watch" if drop else ""))(o))
                await finish([t], 5000, kind)
                if kind == "delete":
                    state.pop(key, None)
                else:
                    state[key] = (len(changes), payload)
            elif op == "list":
                l = await asyncio.wait_for(s.list({"resource_version": "0"}), 10)
                check_list(l)
                listed.append(l)
                for o in l.items:
                    vandalise(o)
            elif op == "watch":
                v = max(len(changes) - a, 0) if a >= 0 else len(changes) - a
                t = asyncio.ensure_future(s.watch({"resource_version": str(v)}))
                await asyncio.wait([t], timeout=5000)
                if not t.done():
                    raise Violation("watch has not returned")
                if v > len(changes):
                    labels.add("future")
                    if t.exception() is None:
                        raise Violation(f"watch from version {v} accepted, the source is at {len(changes)}")
                    continue
                ws.append((Eyes(t.result(), b, len(changes) - v), v, len(changes)))
        check_list(await asyncio.wait_for(s.list({}), 10))
        t = asyncio.ensure_future(s.shutdown())
        await finish([t], 5000, "shutdown")
        await asyncio.sleep(1)
        for c, v, at in ws:
            await finish([c.task], 3000, "a watch")
            want = [(ty, k, str(i + 1), p) for i, (ty, k, p, announced) in enumerate(changes)
                    if i >= v and (announced or i < at)]
            if c.seen != want:
                raise Violation(f"watch from {v} (at {at}) received {c.seen}, expected {want}")
            nontrivial |= v < at < len(changes)
        return nontrivial, labels

    return vrun(main, max_time=1e6)


change = st.tuples(st.sampled_from(["put", "put", "put", "delete"]), st.integers(0, 3), st.sampled_from([False, False, False, True])).map(list)
op = weighted(
    (6, st.tuples(st.just("change"), change, st.booleans()).map(list)),
    (2, st.tuples(st.just("watch"), st.one_of(st.integers(0, 5), st.integers(0, 30), st.integers(-2, 0)), waits).map(list)),
    (1, st.tuples(st.just("list"), st.none(), st.none()).map(list)),
    (1, st.tuples(st.just("pause"), delays, st.none()).map(list)),
)
cases = st.fixed_dictionaries(dict(ops=history(op, 30)))

TESTS = [Test("source", cases, run, quick=1200, thorough=50_000)]


# Deleting an object the source does not have raises KeyError half way instead of being announced. The file counts as
# a test file, which this work may not change, so the defect is recorded in known_findings.json instead of repaired.
KNOWN = [Test("absent", cases, lambda case: run(case, absent=True), quick=1, thorough=1)]

"""C62: the config-map lock stores the record faithfully and touches nothing else."""
from vf.env import Violation, now, pause, vrun
from vf.apiserver import Api
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio
import contextvars
import json

from hypothesis import strategies as st

from kubernetes_asyncio import client
from kubernetes_asyncio.client.exceptions import ApiException

from aiok8s.leaderelection import resourcelock

RULE = (
    "A case is one to four clients of up to two config-map locks (absent, or existing with data, labels, annotations and "
    "maybe a record), each doing a generated sequence of get, create and update with generated records on the real API "
    "client over a fake API server with latencies, failed requests and lost replies, while others edit, delete and "
    "recreate the config maps. Non-trivial: a write was refused or a reply lost, or a read followed a write of another."
)
ASSUMPTIONS = [
    "records are JSON objects, as electors write them",
    "one lock object is used by one task at a time",
    "the API server refuses replacing a config map whose resource version differs from the one sent (as it does)",
]
KEY = "control-plane.alpha.kubernetes.io/leader"
op_var = contextvars.ContextVar("op", default=None)


class Lost(Exception):
    pass


def strip(o):
    """A config map without what the server sets."""
    o = json.loads(json.dumps(o))
    o["metadata"].pop("resourceVersion", None)
    return o


def without_record(o):
    o = strip(o)
    (o["metadata"].get("annotations") or {}).pop(KEY, None)
    if not o["metadata"].get("annotations"):
        o["metadata"].pop("annotations", None)
    return o


def record_of(o):
    """The record of a config map of the server: None if there is no map, {} without a record."""
    if o is None:
        return None
    raw = (o["metadata"].get("annotations") or {}).get(KEY)
    return json.loads(raw) if raw else {}


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


class Op:
    def __init__(self):
        self.faults = []
        self.writes = []  # (map before, map after)
        self.refused = 0
        self.requests = 0


def run(case):
    async def main():
        api = Api()
        labels = set()
        names = [("ns-a", "lock"), ("ns-b", "lock")]
        faults = list(case["faults"])

        for (ns, name), o in zip(names, case["maps"]):
            if o is not None:
                api._config_map_now("POST", ns, name, json.loads(json.dumps(
                    {"metadata": dict(o["metadata"], name=name), **{k: v for k, v in o.items() if k != "metadata"}})))
        states = {n: [(0, api.maps.get(n))] for n in names}  # what a map was from when on

        def changed(n):
            if states[n][-1][1] is not api.maps.get(n):
                states[n].append((now(), api.maps.get(n)))

        async def on_request(method, ns, name, body, answer):
            op = op_var.get()
            before, fault, after = faults.pop(0) if faults else (1, None, 1)
            if op is not None:
                op.requests += 1
            await pause(before)
            if fault == "refuse":
                op.faults.append(fault)
                raise ConnectionError("connection refused")
            if isinstance(fault, int):
                op.faults.append(fault)
                return fault, {"kind": "Status", "code": fault, "message": "injected"}
            n = ns, name or body["metadata"]["name"]
            had = api.maps.get(n)
            status, out = answer(method, ns, name, body)
            changed(n)
            if n not in names:
                raise Violation(f"{method} of {n}, not a lock of the case")
            if method != "GET":
                if status < 300:
                    op.writes.append((n, method, had, api.maps.get(n)))
                else:
                    op.refused += 1
                    labels.add("refused")
            await pause(after)
            if fault == "lose":
                op.faults.append(fault)
                if method != "GET":
                    labels.add("lost_reply")
                raise ConnectionError("connection lost")
            return status, out

        api.on_request = on_request

        async def user(i, which, script):
            n = names[which]
            identity = f"candidate-{i}"
            apic = client.ApiClient()
            lock = resourcelock.new(*n, resourcelock.ResourceLockConfig(identity=identity), apic)
            if lock.identity() != identity:
                raise Violation(f"identity() of {identity!r} is {lock.identity()!r}")
            if not all(x in lock.describe() for x in n):
                raise Violation(f"describe() of {n} is {lock.describe()!r}")
            known = None  # the version this lock object read or wrote last
            sure = False  # that it still has it
            raws = []
            for d, what, record in script:
                await pause(d)
                op = Op()
                op_var.set(op)
                start = now()
                what_ = f"{what} by {identity} from {start}"
                sent = json.loads(json.dumps(record))
                out = err = None
                try:
                    if what == "get":
                        out = await lock.get()
                    elif what == "create":
                        await lock.create(record)
                    else:
                        await lock.update(record)
                except asyncio.CancelledError:
                    raise
                except Violation:
                    raise
                except Exception as e:
                    err = e
                op_var.set(None)
                end = now()
                what_ += f" to {end}, faults {op.faults}, error {err!r}"
                if not same(sent, record):
                    raise Violation(f"{what_} changed the record passed, {sent}, to {record}")
                during = [o for (t, o), (t2, _) in zip(states[n], states[n][1:] + [(1e18, None)]) if t <= end and t2 >= start]
                if what == "get":
                    if op.writes or op.refused:
                        raise Violation(f"{what_} wrote {op.writes}")
                    if err is not None:
                        if not op.faults:
                            raise Violation(f"{what_} failed without a fault; the config map was {during}")
                        sure = False
                        continue
                    got, raw = out
                    match = [o for o in during if same(got, record_of(o))]
                    if not match:
                        raise Violation(f"{what_} read {got}; the config map was {during}")
                    if any(w != i for w, t in writers.get(n, [])):
                        labels.add("read_of_other")
                    stored = {o and (o["metadata"].get("annotations") or {}).get(KEY) for o in match}
                    stored = stored.pop() if len(stored) == 1 else "?"
                    for raw0, got0, stored0 in raws if got is not None else []:
                        if raw0 == raw and not same(got0, got):
                            raise Violation(f"{what_}: raw record {raw!r} is the same for {got0} and {got}")
                        if raw0 != raw and stored0 == stored != "?":
                            raise Violation(f"{what_}: raw records {raw0!r} and {raw!r} differ for {stored!r}")
                    if got is not None:
                        raws.append((raw, got, stored))
                    # with several candidates any of them may have been read; then conflicts are not predicted
                    versions = {o and o["metadata"]["resourceVersion"] for o in match}
                    known = versions.pop() if len(versions) == 1 else "?"
                    sure = known not in (None, "?")
                    continue
                for m, method, had, o in op.writes:
                    if m != n:
                        raise Violation(f"{what_} wrote config map {m}")
                    if method == "DELETE" or what == "create" and had is not None or what == "update" and had is None:
                        raise Violation(f"{what_} did {method} of {had}")
                    if not same(record_of(o), record):
                        raise Violation(f"{what_} stored {record_of(o)} for {record}")
                    if had is not None:
                        if not same(without_record(had), without_record(o)):
                            raise Violation(f"{what_} changed the config map from {had} to {o}")
                        if known != "?" and known != had["metadata"]["resourceVersion"]:
                            raise Violation(f"{what_} replaced {had} although it had read or written version {known}")
                if len(op.writes) > 1:
                    raise Violation(f"{what_} wrote more than once: {op.writes}")
                if err is None:
                    if not op.writes:
                        raise Violation(f"{what_} succeeded without a write; the config map was {during}")
                    known = op.writes[-1][3]["metadata"]["resourceVersion"]
                    writers.setdefault(n, []).append((i, end))
                    sure = True
                    continue
                was_sure, sure = sure, False
                if op.faults:
                    if op.writes:
                        labels.add("written_reply_lost")
                    continue
                if op.writes:
                    raise Violation(f"{what_} failed although it was written")
                if what == "create":
                    if all(o is None for o in during):
                        raise Violation(f"{what_} failed although there was no config map")
                    if not isinstance(err, ApiException) or err.status != 409:
                        raise Violation(f"{what_} should be a conflict")
                elif was_sure:
                    if all(o and o["metadata"]["resourceVersion"] == known for o in during):
                        raise Violation(f"{what_} failed although the config map still was version {known}")
            if case["close"]:
                await apic.close()

        writers = {}

        async def outsiders():
            for d, which, what, arg in case["outside"]:
                await pause(d)
                n = names[which]
                have = api.maps.get(n)
                if what == "delete" and have is not None:
                    api._config_map_now("DELETE", *n, None)
                elif what == "edit" and have is not None:
                    o = strip(have)
                    o.setdefault("data", {})[arg] = "edited"
                    o["metadata"].setdefault("labels", {})["edited"] = arg
                    api._config_map_now("PUT", *n, o)
                elif what == "create" and have is None:
                    api._config_map_now("POST", *n, dict(metadata=dict(name=n[1], labels={"made": arg}), data={arg: "x"}))
                changed(n)

        await asyncio.gather(outsiders(), *[user(i, *c) for i, c in enumerate(case["clients"])])
        if set(api.maps) - set(names):
            raise Violation(f"config maps {set(api.maps)} exist")
        return bool(labels & {"refused", "lost_reply", "read_of_other"}), labels

    return vrun(main, seed=0)


text = st.one_of(st.sampled_from(["", "a", "candidate-1", 'q"\\', "é\u2028☃", "null"]), st.text(max_size=8)).map(
    lambda s: s.encode("utf-8", "replace").decode())
names_ = st.sampled_from(["a", "b", "app.kubernetes.io/name", "x-y"])
number = st.one_of(st.integers(-2**60, 2**60), st.floats(allow_nan=False, allow_infinity=False), st.just(0))
elected = st.fixed_dictionaries(
    dict(holderIdentity=text, leaseDurationSeconds=st.integers(0, 100), renewTime=number, acquireTime=number),
    optional=dict(leaderTransitions=st.integers(0, 10**9)))
records = weighted((3, elected), (1, st.fixed_dictionaries(dict(leaderTransitions=st.integers(0, 5)))), (1, st.just({})),
                   (1, st.dictionaries(text, st.one_of(text, number, st.booleans(), st.none(), st.lists(number, max_size=2)),
                                       max_size=4)))
strings = st.dictionaries(names_, text, max_size=3)


@st.composite
def maps(draw):
    meta = draw(st.fixed_dictionaries({}, optional=dict(
        labels=strings, annotations=strings, finalizers=st.lists(names_, min_size=1, max_size=2),
        ownerReferences=st.just([dict(apiVersion="v1", kind="Pod", name="p", uid="u", controller=True)]))))
    if draw(st.booleans()):
        meta.setdefault("annotations", {})
        meta["annotations"][KEY] = json.dumps(draw(records))
    body = draw(st.fixed_dictionaries({}, optional=dict(
        data=strings, binaryData=st.dictionaries(names_, st.sampled_from(["", "YWJj"]), max_size=2), immutable=st.booleans())))
    return dict(metadata=meta, **body)


op = st.tuples(delays, st.sampled_from(["get", "get", "create", "update", "update"]), records).map(list)
session = st.tuples(delays, delays, records, records).map(
    lambda x: [[x[0], "get", {}], [x[1], "update", x[2]], [x[1], "update", x[3]]])
first = st.tuples(delays, records, records).map(lambda x: [[x[0], "get", {}], [0, "create", x[1]], [0, "update", x[2]]])
scripts = history(weighted((3, op.map(lambda o: [o])), (2, session), (1, first)), 8).map(lambda l: [o for s in l for o in s])
faults = st.tuples(delays, weighted((5, st.none()), (1, st.sampled_from(["refuse", "lose", 500, 403, 429, 410, 409, 401, 503]))), delays).map(list)
cases = st.fixed_dictionaries(dict(
    maps=st.lists(st.one_of(st.none(), maps()), min_size=2, max_size=2),
    clients=st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), scripts).map(list), min_size=1, max_size=4),
    faults=st.one_of(st.just([]), history(faults, 30)),
    outside=st.one_of(st.just([]), history(st.tuples(delays, st.sampled_from([0, 0, 1]), st.sampled_from(
        ["edit", "edit", "create", "delete"]), names_).map(list), 8)),
    close=st.just(True)))

ALONE = ["lock"]
TESTS = [Test("lock", cases, run, quick=1500, thorough=50_000)]

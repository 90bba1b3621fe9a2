"""C50: every change of a watched object leads to a reconcile that sees it."""
from vf.env import Ctx, Violation, now, pause, vrun
from vf.apiserver import Api
from vf.controllers import PODS, Reconciler, behaviours, build
from vf.fakes import plans, steps
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.controller import manager

RULE = (
    "A case is one or two controllers (one or several workers, with reconciles that are slow, fail or ask for "
    "requeueing) of a manager on the real API client over a fake API server, with generated pod changes and faults of "
    "lists and watches. Non-trivial: a fault, a failing or slow reconcile, or a pod deleted and created again, and at "
    "least three pod changes."
)
ASSUMPTIONS = [
    "eventually (300 s after the last change and the last fault of the server) is taken for in the end",
    "a worker may rest for the jitter period of its controller (1 s) after a failed reconcile",
]


def run(case):
    async def main():
        ctx = Ctx()
        api = Api(case["plan"], exc=case["exc"], status_410=case["status_410"])
        srv = api.pods
        existed = set()

        def do(op):
            if op[0] == "put":
                existed.add(tuple(op[1]))
            srv.do(op)

        for k in case["initial"]:
            do(["put", k])
        mgr = manager.new()
        rs = []
        for i, c in enumerate(case["controllers"]):
            r = Reconciler(ctx, mgr.get_cache(), c["behaviour"], f"controller {i}", c["slow_read"])
            r.workers = await build(mgr, r, c["workers"])
            rs.append(r)
        t = asyncio.ensure_future(mgr.start())
        changes = 0
        for d, op in case["script"]:
            await pause(d)
            do(op)
            changes += op[0] in ("put", "delete")
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(300)

        def judge(when):
            ctx.raise_if_any()
            started = min(c["t_end"] for c in srv.calls if c["result"] not in (None, "error") and "t_end" in c) + 1
            if t.done():
                raise Violation(f"the manager ended: {t!r}")
            for r in rs:
                for key in existed:
                    last = r.last(key)
                    obj = srv.objs.get(key)
                    want = int(obj["metadata"]["resourceVersion"]) if obj else None
                    if last is None:
                        # pods that came and went before the controllers had started need not be noticed
                        if want is not None or api.seen.get(key, 0) > started:
                            raise Violation(f"{r.name}: {key} was never reconciled {when}")
                    elif last["read"] != want:
                        raise Violation(f"{r.name}: the last reconcile of {key} {when} read {last['read']}, the server "
                                        f"has {want}")
                for c in r.calls:
                    if c["key"] not in existed:
                        raise Violation(f"{r.name}: reconciled {c['key']}, which never existed")
                if r.most > r.workers:
                    raise Violation(f"{r.name}: {r.most} reconciles at once with {r.workers} workers")

        judge("in the end")
        told = [len(r.calls) for r in rs]
        faults = srv.faults
        for r in rs:
            r.behaviour = []
        # quiet now; further changes are reconciled at once
        for i, k in enumerate([PODS[0], PODS[3], PODS[0], PODS[1]]):
            do(["delete" if tuple(k) in srv.objs and i == 1 else "put", k])
            changes += 1
            if i:
                await asyncio.sleep(0.5)
                judge("right after a late change")
        await asyncio.sleep(1.5)
        judge("after a late change")
        if any(b - a > 10 for a, b in zip(told, [len(r.calls) for r in rs])):
            raise Violation(f"four late changes caused {[len(r.calls) for r in rs]} reconciles, there were {told} before")
        labels = set()
        if faults:
            labels.add("faults")
        if any(c["outcome"] not in ("ok", None) for r in rs for c in r.calls):
            labels.add("retries")
        if any(c["end"] is not None and c["end"] - c["t"] > 0.2 for r in rs for c in r.calls):
            labels.add("slow")
        if any(c["read"] is None for r in rs for c in r.calls):
            labels.add("deletion_seen")
        kinds = [(ty, (o["metadata"].get("namespace", ""), o["metadata"]["name"])) for _, ty, o in srv.log if ty in ("ADDED", "DELETED")]
        if any(kinds.count(("ADDED", k)) > 1 for k in existed):
            labels.add("recreated")
        return bool(labels & {"faults", "retries", "slow", "recreated"}) and changes >= 5, labels

    return vrun(main, max_time=1e5)


pods = st.sampled_from(PODS)
change = weighted((2, st.tuples(st.just("put"), pods).map(list)), (1, st.tuples(st.just("delete"), pods).map(list)))
op = weighted((8, change), (1, st.just(["expire", None])), (1, st.just(["bookmark", None])))
controllers = st.fixed_dictionaries(dict(
    workers=st.sampled_from([0, 0, 1, 2, 3]), behaviour=behaviours, slow_read=st.sampled_from([-1, -1, 0, 10])))
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), exc=st.integers(0, 5), status_410=st.booleans(),
    initial=st.lists(pods, max_size=4), controllers=st.lists(controllers, min_size=1, max_size=2),
    script=history(st.tuples(steps, op).map(list), 16, lo=0), dwell=st.sampled_from([0, 3])))

ALONE = ["reconcile"]
TESTS = [Test("reconcile", cases, run, quick=1200, thorough=50_000)]

"""C63: with an elector around its manager, only the leading replica reconciles, and no change is missed at hand-overs."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.apiserver import Api
from vf.controllers import PODS, Reconciler, behaviours, build
from vf.fakes import plans, steps
from vf.gen import history, weighted
from vf.runner import Test

import asyncio
import contextvars
import json

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import manager
from aiok8s.leaderelection import leaderelection, resourcelock

RULE = (
    "A case is one to three replicas, each a manager with a controller run by an elector on one config map, all on the real "
    "API client over one fake API server with pod changes and list and watch faults. Replicas come and go (cancelled at "
    "generated moments, or losing the lease through outages of the lock), with slow, failing and requeueing reconciles and "
    "clean-up. Non-trivial: at least two replicas' reconciles ran, one after the other."
)
ASSUMPTIONS = [
    "the lease duration exceeds renew deadline, retry period, request latency and the time reconciles take to end when cancelled",
    "nobody else writes the lock; clocks run at one rate",
]
KEY = resourcelock.LEADER_ELECTION_RECORD_ANNOTATION_KEY
who = contextvars.ContextVar("who", default=None)


def run(case):
    async def main():
        ctx = Ctx()
        base = set(asyncio.all_tasks())
        api = Api(case["plan"], exc=case["exc"])
        srv = api.pods
        retry, latency = 0.5, case["latency"] / 64
        renew = retry * case["renew"]
        cleanup = max(r["cleanup"] for r in case["replicas"])
        lease = renew + retry + latency + (cleanup + 1) / 64 + case["margin"]
        existed = set()
        rs = []
        state = dict(over=False, ended=0)

        def holder():
            cm = api.maps.get(("ns", "lock"))
            raw = cm and (cm["metadata"].get("annotations") or {}).get(KEY)
            return json.loads(raw).get("holderIdentity") if raw else None

        def do(op):
            if op[0] == "put":
                existed.add(tuple(op[1]))
            srv.do(op)

        async def on_request(method, ns, name, body, answer):
            me = who.get()
            await asyncio.sleep(latency / 2)
            for at, length, how in me["outages"]:
                left = at + length - now()
                if not 0 <= left < length or state["over"]:
                    continue
                if how == "hang":
                    await asyncio.sleep(left)
                elif how == "lose":
                    answer(method, ns, name, body)
                raise ConnectionError(how)
            out = answer(method, ns, name, body)
            await asyncio.sleep(latency / 2)
            return out

        api.on_request = on_request

        class R(Reconciler):
            async def reconcile(self, req):
                self.alone("starts")
                try:
                    return await super().reconcile(req)
                finally:
                    self.alone("ends")

            def alone(self, what):
                busy = [o.name for o in rs if o is not self and o.active]
                if busy:
                    ctx.fail(f"a reconcile of {self.name} {what} at {now()} while one of {busy} is under way")
                if holder() != self.name:
                    ctx.fail(f"a reconcile of {self.name} {what} at {now()} while the lease is held by {holder()!r}")

        async def replica(conf, i):
            who.set(conf)
            for n, (gap, after, extra) in enumerate(conf["lives"] + [[0, None, 0]]):
                await pause(gap)
                await asyncio.sleep(0.0017 * (i + 1))
                mgr = manager.new()
                r = R(ctx, mgr.get_cache(), conf["behaviour"], f"{i}-{n}", conf["slow_read"], conf["cleanup"])
                await build(mgr, r, conf["workers"])
                rs.append(r)
                api_client = client.ApiClient()

                async def on_stopped():
                    pass

                e = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
                    lock=resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity=r.name), api_client),
                    callbacks=leaderelection.LeaderCallbacks(mgr.start, on_stopped, None), name=r.name,
                    lease_duration=lease, renew_deadline=renew, retry_period=retry, release_on_cancel=conf["release"]))
                t = asyncio.ensure_future(e.run())
                try:
                    if after is not None:
                        timer = asyncio.ensure_future(asyncio.sleep(after / 16))
                        await asyncio.wait([t, timer], return_when=asyncio.FIRST_COMPLETED)
                        timer.cancel()
                        for _ in range(extra if not t.done() else 0):
                            await asyncio.sleep(0)
                    else:
                        await asyncio.wait([t])
                finally:
                    t.cancel()
                    await asyncio.wait([t])
                    await api_client.close()
                state["ended"] += 1
                if not t.cancelled() and t.exception() is not None:
                    ctx.fail(f"the elector of {r.name} ended with {t.exception()!r}")
                if r.active:
                    ctx.fail(f"{r.name} reconciles although its elector has ended")
            # lost the lease in its last life: begin again
            return await replica(dict(conf, lives=[], behaviour=[]), i + 10)

        for k in case["initial"]:
            do(["put", k])
        ts = [asyncio.ensure_future(replica(c, i)) for i, c in enumerate(case["replicas"])]
        for d, op in case["script"]:
            await pause(d)
            do(op)
            ctx.raise_if_any()
        await asyncio.sleep(case["dwell"])
        state["over"] = True
        srv.heal()

        def judge(when, reconciled_since=None):
            ctx.raise_if_any()
            for t in ts:
                if t.done():
                    raise Violation(f"a replica ended: {t!r}")
            for key in existed:
                obj = srv.objs.get(key)
                want = int(obj["metadata"]["resourceVersion"]) if obj else None
                calls = [c for r in rs for c in r.calls if c["key"] == key and c["end"] is not None and c["read"] != "unread"]
                last = sorted(calls, key=lambda c: c["t"])[-1] if calls else None
                if last is None:
                    if want is not None:
                        raise Violation(f"{key} was never reconciled {when}")
                elif last["read"] != want and (want is not None or leader_saw(key)):
                    raise Violation(f"the last reconcile of {key} {when} read {last['read']}, the server has {want}")

        def leader_saw(key):
            """A deletion that came while nobody led leaves nothing to reconcile."""
            leader = [r for r in rs if r.name == holder()]
            return any(c["key"] == key and c["read"] not in (None, "unread") for r in leader for c in r.calls)

        await asyncio.sleep(60 + 3 * lease + 300 / 16 * 4)
        judge("in the end")
        if holder() is None or not [r for r in rs if r.name == holder()]:
            raise Violation(f"in the end the lease is held by {holder()!r}")
        leader = next(r for r in rs if r.name == holder())
        leader.behaviour = []
        await asyncio.sleep(20)
        counts = {r.name: len(r.calls) for r in rs}
        do(["put", PODS[0]])
        await asyncio.sleep(1)
        judge("after a late change")
        moved = [r.name for r in rs if len(r.calls) != counts[r.name]]
        if moved != [leader.name]:
            raise Violation(f"a late change was reconciled by {moved}, {leader.name} leads")
        # the leader is shut down, another takes over
        handed = 0
        i = next(i for i, c in enumerate(case["replicas"]) if int(leader.name.split("-")[0]) % 10 == i)
        ts[i].cancel()
        await asyncio.wait([ts[i]], timeout=5)
        if not ts[i].done():
            raise Violation("the leader does not end")
        if leader.active:
            raise Violation("the leader has ended while it reconciles")
        if len(ts) > 1:
            ts.pop(i)
            do(["put", PODS[1]])
            do(["delete", PODS[0]])
            await asyncio.sleep(lease + 3 * retry + 12 + 300 / 16)
            judge("after the hand-over")
            if holder() == leader.name:
                raise Violation("nobody took the lease over")
            handed = 1
            for t in ts:
                t.cancel()
            await asyncio.wait(ts, timeout=5)
        n = len(api.requests)
        await asyncio.sleep(1e-3)
        ctx.raise_if_any()
        if len(api.requests) != n:
            raise Violation("the server is asked although all replicas have ended")
        if srv.open_watches():
            raise Violation("a watch was left open")
        left = [x for x in asyncio.all_tasks() if x not in base and not x.done()]
        if left:
            raise Violation(f"left behind: {left}")
        if any(not p.closed for p in api.pools):
            raise Violation("an API client was left open")
        labels = set()
        if srv.faults:
            labels.add("faults")
        reconcilers = {r.name for r in rs if r.calls}
        if len(reconcilers) > 1 + handed:
            labels.add("handed_over")
        if any(c["outcome"] is None for r in rs for c in r.calls):
            labels.add("cut_short")
        return len(reconcilers) > 1, labels

    return vrun(main, max_time=1e5)


pods = st.sampled_from(PODS)
change = weighted((2, st.tuples(st.just("put"), pods).map(list)), (1, st.tuples(st.just("delete"), pods).map(list)))
op = weighted((8, change), (1, st.just(["expire", None])), (1, st.just(["bookmark", None])))
replicas = st.fixed_dictionaries(dict(
    workers=st.sampled_from([0, 1, 2]), behaviour=behaviours, slow_read=st.sampled_from([-1, -1, 0, 10]),
    cleanup=st.sampled_from([-1, -1, 0, 5, 20]), release=st.booleans(),
    lives=st.lists(st.tuples(st.sampled_from([-1, 0, 20]), st.one_of(st.integers(0, 30), st.integers(0, 120)),
                             st.sampled_from([0, 0, 1, 3, 6])).map(list), max_size=3),
    outages=st.lists(st.tuples(st.integers(0, 160).map(lambda x: x / 16), st.sampled_from([0.4, 1.3, 3, 6]),
                               st.sampled_from(["refuse", "hang", "lose"])).map(list), max_size=2)))
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), exc=st.integers(0, 5), latency=st.sampled_from([0, 1, 5]),
    renew=st.sampled_from([1.3, 2, 3.3]), margin=st.sampled_from([0.03, 0.03, 1]),
    initial=st.lists(pods, max_size=4), replicas=st.lists(replicas, min_size=1, max_size=3),
    script=history(st.tuples(steps, op).map(list), 14, lo=0), dwell=st.sampled_from([0, 3])))

ALONE = ["replicas"]
TESTS = [Test("replicas", cases, run, quick=600, thorough=25_000)]

"""C07: failed processing is reported or retried without clobbering newer state."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.failures import pick, variants
from vf.fakes import KEYS, Res, Server, key_of, plans, rv_of, scripts
from vf.gen import delays, history, weighted
from vf.runner import Test

import asyncio
from collections import Counter

from hypothesis import strategies as st

from aiok8s.cache import controller, delta_fifo, fifo, store
from aiok8s.cache.delta_fifo import DeltaType

RULE = (
    "queue: producers write versions of keys to a FIFO or delta queue while poppers of generated speed fail, "
    "requeue or re-add what they popped; controller: a controller with or without retry against a fake server "
    "whose processing fails by a generated script. Non-trivial: at least one processing failed."
)
ASSUMPTIONS = ["failures eventually stop", "with retry off the server is free of faults (so nothing is listed twice)"]


class Obj:
    def __init__(self, key, n):
        self.key, self.n = key, n


class Cause(Exception):
    pass


CAUSES = variants(Cause)


def fail(outcome):
    cause = pick(CAUSES, int(now() * 64))
    if outcome == "requeue":
        raise fifo.RequeueError()
    if outcome == "requeue_cause":
        raise fifo.RequeueError() from cause("c")
    if outcome == "error":
        raise cause("e")


def run_queue(case):
    async def main():
        ctx = Ctx()
        delta = case["delta"]
        q = delta_fifo.DeltaFIFO(lambda o: o.key) if delta else fifo.FIFO(lambda o: o.key)
        n = 0
        accepted = {}  # key -> last version whose write returned
        attempts = {k: [] for k in "abcd"}  # (newest version, tuple of versions, outcome)
        failures = 0
        closing = False

        async def producer(script):
            nonlocal n
            for k, d in script:
                await pause(d)
                n += 1
                o = Obj(k, n)
                await q.add(o)
                accepted[k] = max(accepted.get(k, 0), o.n)

        async def popper(script):
            nonlocal failures
            i = 0
            while True:
                outcome, d1, d2, d3 = script[i % len(script)]
                i += 1
                if i > 25:
                    outcome = "ok"

                def see(item):
                    nonlocal failures
                    vs = tuple(d.object.n for d in item) if delta else (item.n,)
                    k = q.key_of(item) if delta else item.key
                    prev = attempts[k][-1] if attempts[k] else None
                    if prev is not None:
                        ctx.check(vs[-1] >= prev[0], f"{k}: version {vs[-1]} processed after {prev[0]}")
                        if vs[-1] == prev[0]:
                            ctx.check(prev[2] != "ok", f"{k}: version {vs[-1]} processed again after success")
                            ctx.check(vs == prev[1], f"{k}: retried changes {vs}, failed were {prev[1]}")
                    attempts[k].append((vs[-1], vs, outcome))
                    if outcome != "ok":
                        failures += 1

                if delta:
                    async def process(item):
                        await pause(d1)
                        see(item)
                        fail(outcome)
                else:
                    def process(item):
                        see(item)
                        fail(outcome)

                popped = []
                try:
                    popped.append(await q.pop(process))
                    ctx.check(outcome in ("ok", "requeue"), f"pop returned normally although processing: {outcome}")
                except fifo.FIFOClosedError:
                    return
                except fifo.ProcessError as e:
                    ctx.check(outcome in ("error", "requeue_cause"), f"ProcessError although processing: {outcome}")
                    ctx.check(isinstance(e.__cause__, Cause), f"ProcessError from {e.__cause__!r}")
                    await pause(d2)
                    # what the controller does: put it back unless something newer is pending
                    await q.add_if_not_present(e.item)
                await pause(d3)

        pops = [asyncio.ensure_future(popper(p)) for p in case["poppers"]]
        prods = [asyncio.ensure_future(producer(p)) for p in case["producers"]]
        await asyncio.wait(prods, timeout=3000)
        for _ in range(3000):
            await asyncio.sleep(1)
            if not q.list_keys():
                await asyncio.sleep(10)  # failed items may be on their way back
                if not q.list_keys():
                    break
        await q.close()
        done, left = await asyncio.wait(pops, timeout=3000)
        for t in done:
            t.result()
        if left:
            raise Violation("poppers still wait on a closed queue")
        ctx.raise_if_any()
        for k, v in accepted.items():
            if not attempts[k] or attempts[k][-1][0] != v or attempts[k][-1][2] != "ok":
                raise Violation(f"{k}: last written version {v}, attempts {attempts[k]}")
        return failures > 0, ["delta" if delta else "fifo"]

    return vrun(main)


outcome = st.sampled_from(["ok", "ok", "error", "requeue", "requeue_cause"])
queue_cases = st.fixed_dictionaries(dict(
    delta=st.booleans(),
    producers=st.lists(st.lists(st.tuples(st.sampled_from("abcd"), delays), min_size=1, max_size=6),
                       min_size=1, max_size=3),
    # one popper: with several, a failed older item may legitimately come back after the newer was processed
    poppers=st.lists(st.lists(st.tuples(outcome, delays, delays, delays), min_size=1, max_size=6),
                     min_size=1, max_size=1)))


def run_controller(case):
    async def main():
        ctx = Ctx()
        retry = case["retry"]
        srv = Server(case["plan"] if retry else None)
        for k in case["initial"]:
            srv.put(k)
        known = store.new_store(controller.deletion_handling_meta_namespace_key_func)
        q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func, known)
        outcomes = {}
        for k, script in case["outcomes"]:
            outcomes.setdefault("/".join(filter(None, k)), list(script))
        attempts = []  # (key, versions, outcome)
        failed = Counter()
        last_try = {}
        busy = False

        async def process(deltas):
            nonlocal busy
            key = q.key_of(deltas)
            ctx.check(not busy, "two items processed at once")
            busy = True
            script = outcomes.get(key, [])
            outcome, d = script.pop(0) if script else ("ok", -1)
            vs = [(d.type, rv_of(getattr(d.object, "obj", d.object)), isinstance(
                d.object, delta_fifo.DeletedFinalStateUnknown)) for d in deltas]
            attempts.append((key, vs, outcome))
            if key in last_try and last_try[key][1] != "ok":
                pv, po = last_try[key]
                if vs[-1][1] < pv[-1][1]:
                    ctx.fail(f"{key}: {vs} processed after newer {pv}")
            last_try[key] = (vs, outcome)
            await pause(d)
            busy = False
            if outcome != "ok":
                failed[key] += 1
                fail(outcome)
            for d in deltas:
                if d.type is DeltaType.DELETED:
                    await known.delete(d.object)
                else:
                    await known.update(d.object)

        c = controller.new(controller.Config(
            queue=q, lister_watcher=srv, process=process, object_type=Res, full_resync_period=0,
            retry_on_error=retry))
        r = asyncio.ensure_future(c.run())
        for d, op in case["script"]:
            await pause(d)
            if retry or op[0] != "expire":
                srv.do(op)
        await asyncio.sleep(5)
        srv.heal()
        await asyncio.sleep(120)
        ctx.raise_if_any()
        if r.done():
            raise Violation(f"the controller ended: {r!r}")
        have = {key_of(o): rv_of(o) for o in known.list()}
        if retry:
            if have != srv.state():
                raise Violation(f"processed state {have}, server has {srv.state()}")
        else:
            # every change is in exactly one item; items are processed once, plus once per requeue request
            first = srv.calls[0]["result"]
            counts = Counter()
            for key, vs, outcome in attempts:
                for t, v, tomb in vs:
                    counts[key, v] += 0 if outcome.startswith("requeue") else 1
            initial = {}
            for v, t, o in srv.log:
                if v <= first:
                    initial.pop(key_of(o), None) if t == "DELETED" else initial.update({key_of(o): v})
            want = {(k, v): "listed" for k, v in initial.items()}
            want.update({(key_of(o), v): t for v, t, o in srv.log if v > first and t != "BOOKMARK"})
            for kv, t in want.items():
                if counts[kv] != 1 and not (t == "DELETED" and counts[kv] == 0 and failed[kv[0]]):
                    raise Violation(f"{t} change {kv} was fully processed {counts[kv]} times; attempts {attempts}")
            for kv in counts:
                if kv not in want:
                    raise Violation(f"{kv} processed but never listed or sent")
            for k, v in srv.state().items():
                ok = [a for a in attempts if a[0] == k][-1]
                if ok[2] in ("ok",) and have.get(k) != v:
                    raise Violation(f"{k} is {have.get(k)} instead of {v}")
        r.cancel()
        await asyncio.wait([r], timeout=100)
        return bool(failed), ["retry" if retry else "no_retry"] + sorted({a[2] for a in attempts})

    return vrun(main, max_time=1e5)


controller_cases = st.fixed_dictionaries(dict(
    retry=st.booleans(), plan=plans, initial=st.lists(st.sampled_from(KEYS), min_size=1, max_size=4), script=scripts,
    outcomes=st.tuples(*(st.tuples(st.just(k), st.lists(st.tuples(outcome, delays), max_size=5)) for k in KEYS))))

TESTS = [
    Test("queue", queue_cases, run_queue, quick=1500, thorough=60_000),
    Test("controller", controller_cases, run_controller, quick=1500, thorough=60_000),
]

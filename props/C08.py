"""C08: the mirrored store converges to the API server under any faults."""
from vf.env import Violation, now, pause, vrun
from vf.fakes import KEYS, RecStore, Res, Server, key_of, make_dict, labels, plans, rv_of, scripts, small
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import delta_fifo, reflector, store
from aiok8s.runtime import schema

RULE = (
    "A case is a script of server changes and expirations plus fault plans for successive list and watch requests "
    "(failing with various exceptions, closing, breaking, error events, delays), then healing, a convergence "
    "deadline and further changes. Non-trivial: at least one fault hit the reflector."
)
ASSUMPTIONS = ["faults are exceptions, early closes and error events; a request that never returns is not generated"]

BOUND = 10.0


def run(case):
    async def main():
        dicts = case["dicts"]
        srv = Server(case["plan"], make=make_dict if dicts else Res, exc=case["exc"])
        srv.labels = case["labels"]
        for k in case["initial"]:
            srv.put(k)
        if case["rec"]:
            s = RecStore(case["delays"])
            state = s.state
        else:
            s = store.new_store(store.meta_namespace_key_func)
            state = lambda: {key_of(o): rv_of(o) for o in s.list()}
        r = reflector.Reflector(srv, schema.GroupVersionKind("", "v1", "Res") if dicts else Res, s, case["resync"])
        t = asyncio.ensure_future(r.run())

        def converged(what):
            if t.done():
                raise Violation(f"the reflector ended: {t!r}")
            if state() != srv.state():
                raise Violation(f"{what}: store has {state()}, server has {srv.state()}")
            if r.last_sync_resource_version() != str(srv.rv):
                raise Violation(f"{what}: last synced version {r.last_sync_resource_version()}, server is at {srv.rv}")

        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(BOUND + len(case["script"]))  # the store may take 40/64 s per write
        converged(f"{BOUND} s after the last fault")
        labels = {"faults" if srv.faults else "no_faults"}
        n_lists = sum(c["kind"] == "list" for c in srv.calls)
        for d, op in case["after"]:
            await pause(d)
            if op[0] != "expire":
                srv.do(op)
        await asyncio.sleep(3 + len(case["after"]))
        converged("following later changes")
        # waits before listing again
        lists = [c["t"] for c in srv.calls if c["kind"] == "list"]
        for a, b in zip(lists, lists[1:]):
            if b - a < 0.1:
                raise Violation(f"listed again after {b - a:.4f} s")
        # waits before asking again for anything
        for a, b in zip(srv.calls, srv.calls[1:]):
            w = a["result"]
            if w == "error":
                end = a["t_end"]
            elif a["kind"] == "watch" and w and (w.ended in ("error", "raise")
                                                 or w.ended == "close" and not w.sent and w.t_end - w.t0 < 0.9):
                end = w.t_end
                labels.add("short_watch" if w.ended == "close" else "broken_watch")
            else:
                continue
            if b["t"] - end < 0.1:
                raise Violation(f"{b['kind']} asked for {b['t'] - end:.4f} s after the failure of {a}")
        # one more fault much later, to see that nothing was used up
        if case["late"]:
            srv.expire()
            w = srv.open_watches()
            for x in w:
                x.finished = True
                x.stopped.set()
            srv.put(KEYS[0])
            srv.delete(KEYS[1])
            srv.oldest = srv.rv
            await asyncio.sleep(BOUND)
            converged("after an expired version")
            labels.add("late_expire")
        labels |= {c["kind"] + "_error" for c in srv.calls if c["result"] == "error"}
        labels |= {w.step[0] for w in srv.watches if len(w.step) > 3 and w.finished}
        return bool(srv.faults), labels

    return vrun(main, max_time=1e5)


cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), rec=st.booleans(), exc=st.integers(0, 6), labels=labels, plan=plans,
    delays=st.lists(small, max_size=3), resync=st.sampled_from([0, 0, 1, 3]),
    initial=st.lists(st.sampled_from(KEYS), max_size=4), script=scripts, after=scripts,
    dwell=st.sampled_from([0, 3, 10, 20]), late=st.booleans()))

TESTS = [Test("faults", cases, run, quick=2000, thorough=100_000)]

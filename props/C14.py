"""C14: a slow, blocked or raising handler delays only itself."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.fakes import KEYS, Res, Server, plans, scripts, steps
from vf.gen import history
from vf.informers import Recorder, contents, deleted_after
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import shared_informer

RULE = (
    "A case is a script of server changes (with or without faults), one prompt handler, and one to three handlers "
    "that are slow, blocked for a generated time or forever, or raise on generated calls. Non-trivial: a handler "
    "was blocked, raised, or was slow while at least three notifications were due."
)
ASSUMPTIONS = ["handlers raise ordinary exceptions; the pause after one is at most two minutes"]


def run(case):
    async def main():
        ctx = Ctx()
        srv = Server(case["plan"])
        for k in case["initial"]:
            srv.put(k)
        inf = shared_informer.new_shared_informer(srv, Res, 0)
        idx = inf.get_indexer()
        good = Recorder(ctx, "prompt handler", [-1], cache=lambda: contents(idx), deleted_after=deleted_after(srv))
        gate = asyncio.Event()
        hs, blocked = [], []
        for i, h in enumerate(case["handlers"]):
            g = gate if h["kind"] in ("blocked", "forever") else None
            r = Recorder(ctx, f"{h['kind']} handler {i}", h["delays"] if h["kind"] == "slow" else [-1],
                         raises=h["raises"] if h["kind"] == "raising" else (), cache=lambda: contents(idx),
                         deleted_after=deleted_after(srv), gate=g)
            if h["kind"] == "forever":
                r.gate = asyncio.Event()
                blocked.append(r)
            else:
                hs.append((h, r))
        order = [good] + [r for _, r in hs] + blocked
        k = case["order"] % len(order)
        for r in order[k:] + order[:k]:
            await inf.add_event_handler(r, resync_period=0)
        t = asyncio.ensure_future(inf.run())
        calm = not case["plan"]
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
            calm = calm and op[0] != "expire"
            if calm and d > 0:
                await settle()
                want = srv.state()
                if contents(idx) != want:
                    raise Violation(f"cache lags: {contents(idx)}, server has {want}")
                if good.versions() != want:
                    raise Violation(f"prompt handler lags: {good.versions()}, server has {want}")
        if case["burst"]:
            for _ in range(case["burst"]):
                srv.put(KEYS[2])
            await asyncio.sleep(1)
            if calm and good.versions() != srv.state():
                raise Violation(f"after a burst the prompt handler lags: {good.versions()}, server has {srv.state()}")
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(8)
        ctx.raise_if_any()
        want = srv.state()
        if contents(idx) != want:
            raise Violation(f"cache lags: {contents(idx)}, server has {want}")
        if good.versions() != want:
            raise Violation(f"prompt handler lags: {good.versions()}, server has {want}")
        for h, r in hs:
            if r.seq() != good.seq()[:len(r.events)]:
                raise Violation(f"{r.name} was told {r.seq()}, the prompt one {good.seq()}")
        for r in blocked:
            if len(r.events) != min(1, len(good.events)) or r.seq() != good.seq()[:1]:
                raise Violation(f"{r.name} was told {r.seq()} while its first call had not returned")
        gate.set()
        raises = max([len(h["raises"]) for h, _ in hs] or [0])
        await asyncio.sleep(len(good.events) * 3.2 + raises * 121 + 1)
        ctx.raise_if_any()
        for h, r in hs:
            if r.seq() != good.seq():
                raise Violation(f"{r.name} was told {r.seq()}, the prompt one {good.seq()}")
        # and everything still works afterwards
        srv.put(KEYS[0])
        srv.delete(KEYS[1])
        await asyncio.sleep(1)
        if good.versions() != srv.state() or contents(idx) != srv.state():
            raise Violation("no longer following the server")
        for g in [r.gate for r in blocked]:
            g.set()
        await asyncio.sleep(130)
        ctx.raise_if_any()
        for r in [r for _, r in hs] + blocked:
            if r.seq() != good.seq():
                raise Violation(f"{r.name} was told {r.seq()}, the prompt one {good.seq()}")
        labels = {h["kind"] for h in case["handlers"]} | ({"faults"} if srv.faults else set())
        raised = any(n < len(r.events) for h, r in hs if h["kind"] == "raising" for n in h["raises"])
        if raised:
            labels.add("raised")
        return raised or bool(labels & {"blocked", "forever"}) or len(good.events) >= 3, labels

    return vrun(main, max_time=1e6)


handler = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["slow", "blocked", "forever", "raising"]),
    delays=st.lists(st.sampled_from([0, 1, 5, 40, 200]), min_size=1, max_size=3),
    raises=st.lists(st.integers(0, 8), max_size=4, unique=True)))
cases = st.fixed_dictionaries(dict(
    plan=st.one_of(st.just({}), plans), initial=st.lists(st.sampled_from(KEYS), max_size=4),
    handlers=st.lists(handler, min_size=1, max_size=3), order=st.integers(0, 3),
    burst=st.sampled_from([0] * 12 + [12, 40, 300, 1100]),
    script=scripts, dwell=st.sampled_from([0, 3])))

TESTS = [Test("isolation", cases, run, quick=1200, thorough=50_000)]

"""C17: a basic informer's store and callbacks mirror the server."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.fakes import KEYS, Res, Server, make_dict, labels, plans, scripts
from vf.informers import Recorder, contents
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import controller
from aiok8s.runtime import schema

RULE = (
    "A case is a script of server changes and expirations, fault plans for lists and watches (which may call changes additions and the reverse), a resync period and a "
    "handler of generated speed whose calls may raise (an object or a set of functions, some of them absent). Every callback is checked "
    "against the history so far and the store. Others stop the informer in the middle, or call a set of functions directly. Non-trivial: a relist happened or a change reached a callback other "
    "than add; it had begun; a function was absent."
)
ASSUMPTIONS = ["lists are not older than what was watched before"]


def run(case):
    async def main():
        ctx = Ctx()
        dicts = case["dicts"]
        srv = Server(case["plan"], make=make_dict if dicts else Res, exc=case["exc"])
        srv.labels = case["labels"]
        for k in case["initial"]:
            srv.put(k)
        box = []
        h = Recorder(ctx, "handler", case["delays"], raises=case["raises"], cache=lambda: contents(box[0]), exact=True)
        missing = case["missing"]
        if missing is None:
            handler = h
        else:
            handler = controller.ResourceEventHandlerFuncs(
                add_func=None if "add" in missing else h.on_add,
                update_func=None if "update" in missing else h.on_update,
                delete_func=None if "delete" in missing else h.on_delete)
        store, inf = controller.new_informer(
            srv, schema.GroupVersionKind("", "v1", "Res") if dicts else Res, case["resync"], handler)
        box.append(store)
        t = asyncio.ensure_future(inf.run())
        slow = max(case["delays"] or [-1]) > 0
        calm = not case["plan"] and not slow
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
            calm = calm and op[0] != "expire"
            if calm and d > 0:
                await settle()
                if contents(store) != srv.state():
                    raise Violation(f"store lags: {contents(store)}, server has {srv.state()}")
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(10 + 1.3 * len(h.events) + len(srv.log) * (1.3 if slow else 0))
        if t.done():
            raise Violation(f"the informer ended: {t!r}")
        want = srv.state()
        if contents(store) != want:
            raise Violation(f"store has {contents(store)}, server has {want}")
        if not inf.has_synced():
            raise Violation("has not synced")
        if inf.last_sync_resource_version() != str(srv.rv):
            raise Violation(f"last synced {inf.last_sync_resource_version()}, server is at {srv.rv}")
        if not missing:
            ctx.raise_if_any()
            if h.versions() != want:
                raise Violation(f"handler was told {h.seq()}, which replays to {h.versions()}; server has {want}")
            for k, o in h.state.items():
                if store.get_by_key(k) is not o:
                    raise Violation(f"the store's {k} is not the object announced")
        await stop(t, h, "at rest")
        labels = {"tombstones"} if h.tombstones else set()
        if missing:
            labels.add("functions_missing")
        if any(n < len(h.events) for n in h.raises):
            labels.add("callback_raised")
        lists = sum(c["kind"] == "list" and c["result"] not in (None, "error") for c in srv.calls)
        if lists > 1:
            labels.add("relisted")
        return lists > 1 or any(e[0] != "add" for e in h.events), labels

    return vrun(main, max_time=1e5)


async def stop(t, h, when):
    t.cancel()
    await asyncio.wait([t], timeout=10)
    if not t.done():
        raise Violation(f"stopped {when}, the informer still runs")
    n = len(h.events)
    await asyncio.sleep(5)
    if len(h.events) != n:
        raise Violation(f"stopped {when}, but called back after that: {h.seq()[n:]}")


def run_stop(case):
    """Stopping it in the middle of anything: it ends, and calls nobody afterwards."""

    async def main():
        ctx = Ctx()
        srv = Server(case["plan"], exc=case["exc"])
        srv.labels = case["labels"]
        for k in case["initial"]:
            srv.put(k)
        h = Recorder(ctx, "handler", case["delays"], exact=True)
        store, inf = controller.new_informer(srv, Res, case["resync"], h)
        if inf.has_synced():
            raise Violation("has synced before it was run")
        if inf.last_sync_resource_version() != "":
            raise Violation(f"last synced {inf.last_sync_resource_version()!r} before it was run")
        t = asyncio.ensure_future(inf.run())
        for d, op in case["script"]:
            await pause(d)
            srv.do(op)
        for _ in range(case["steps"]):
            await asyncio.sleep(0)
        await asyncio.sleep(case["dwell"] / 8)
        busy = len(h.events) and max(case["delays"] or [-1]) > 0
        await stop(t, h, "in the middle")
        return bool(srv.calls), {"slow"} if busy else set()

    return vrun(main, max_time=1e5)


def run_funcs(case):
    """A set of functions is a handler: each event goes to its function, or nowhere if that is absent."""

    async def main():
        got = []

        def func(name):
            async def f(*args):
                await pause(case["d"])
                got.append((name, *args))

            return f

        present = case["present"]
        h = controller.ResourceEventHandlerFuncs(**{f"{n}_func": func(n) for n in present})
        want = []
        for name in case["events"]:
            args = (object(), object()) if name == "update" else (object(),)
            await getattr(h, f"on_{name}")(*args)
            if name in present:
                want.append((name, *args))
            if got != want:
                raise Violation(f"with functions {present}, on_{name} led to {got}, expected {want}")
        return len(present) < 3, []

    return vrun(main)


NAMES = ["add", "update", "delete"]
functions = st.fixed_dictionaries(dict(
    d=st.sampled_from([-1, 0, 3]), present=st.lists(st.sampled_from(NAMES), unique=True, max_size=3),
    events=st.lists(st.sampled_from(NAMES), min_size=1, max_size=6)))
stops = st.fixed_dictionaries(dict(
    exc=st.integers(0, 6), labels=labels, plan=st.one_of(plans, st.just({})), resync=st.sampled_from([0, 0, 1, 2]),
    initial=st.lists(st.sampled_from(KEYS), max_size=4), delays=st.lists(st.sampled_from([-1, 0, 1, 5, 40]), max_size=3),
    script=scripts, steps=st.integers(0, 6), dwell=st.sampled_from([0, 0, 1, 3, 10])))
cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), exc=st.integers(0, 6), labels=labels, plan=st.one_of(plans, plans.map(lambda x: x), st.just({})),
    resync=st.sampled_from([0, 0, 1, 2, 3]),
    initial=st.lists(st.sampled_from(KEYS), max_size=4), delays=st.lists(st.sampled_from([-1, -1, 0, 1, 5, 40]), max_size=3),
    missing=st.sampled_from([None, None, None, None, None, [], [], ["add"], ["update", "delete"]]),
    raises=st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 8), max_size=4, unique=True)),
    script=scripts, dwell=st.sampled_from([0, 3, 8])))

TESTS = [Test("mirror", cases, run, quick=2000, thorough=80_000), Test("stop", stops, run_stop, quick=600, thorough=30_000),
         Test("funcs", functions, run_funcs, quick=200, thorough=5_000)]

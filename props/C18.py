"""C18: the indexes of an informer match its cache at every moment; indexers can be added until it starts."""
from vf.env import Ctx, Violation, now, pause, settle, vrun
from vf.fakes import KEYS, Res, Server, key_of, make_dict, md, labels, plans, scripts
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import index, shared_informer
from aiok8s.runtime import schema

RULE = (
    "A case is a script of server changes and expirations and fault plans for a shared informer with index functions given "
    "at construction, added before the start (some under a name that is taken), and added (in vain) after the start or the "
    "end. In every callback of a handler and at generated moments all queries of all indexes are compared with the index "
    "functions applied to the cached objects. Non-trivial: an object in an index changed its index values or was deleted."
)
ASSUMPTIONS = ["index functions are deterministic and return lists or raise"]

FUNCS = {
    "namespace": index.meta_namespace_index_func,
    "parity": lambda o: [str(int(md(o)[2]) % 2)],
    "many": lambda o: [f"v{i}" for i in range(int(md(o)[2]) % 4)],
    "twice": lambda o: ["x", str(md(o)[1]), "x"],
    "key": lambda o: [key_of(o)],
    "picky": lambda o: picky(o),
}


def picky(o):
    if int(md(o)[2]) % 3 == 0:
        raise KeyError("app")
    return [md(o)[1]]


def values_of(n, o):
    """What an index function gives; an object it fails for is in none of its values."""
    try:
        return FUNCS[n](o)
    except Exception:
        return []


def run(case):
    async def main():
        ctx = Ctx()
        dicts = case["dicts"]
        srv = Server(case["plan"], make=make_dict if dicts else Res, exc=case["exc"])
        srv.labels = case["labels"]
        for k in case["initial"]:
            srv.put(k)
        inf = shared_informer.new_shared_index_informer(
            srv, schema.GroupVersionKind("", "v1", "Res") if dicts else Res, case["resync"],
            index.Indexers({n: FUNCS[n] for n in case["first"]}))
        idx = inf.get_indexer()
        names = set(case["first"])
        labels = set()
        memory = {}

        async def check(when):
            for n in sorted(names):
                f = lambda o: values_of(n, o)
                values = await idx.list_index_func_values(n)
                objs = idx.list()
                want = {}
                for o in objs:
                    for v in f(o):
                        want.setdefault(v, set()).add(id(o))
                if {v for v in values if v in want} != set(want):
                    ctx.fail(f"{when}: index {n} lists the values {sorted(values)}, the cache has {sorted(want)}")
                for v in sorted(set(values) | set(want) | {"absent"}, key=str):
                    got = await idx.by_index(n, v)
                    now_objs = idx.list()
                    exp = {id(o) for o in now_objs if v in f(o)}
                    if {id(o) for o in got} != exp or len(got) != len(exp):
                        ctx.fail(f"{when}: index {n} gives {got} for {v!r}, the cache has {now_objs}")
                    keys = await idx.index_keys(n, v)
                    exp = {key_of(o) for o in idx.list() if v in f(o)}
                    if set(keys) != exp:
                        ctx.fail(f"{when}: index {n} gives the keys {keys} for {v!r}, expected {exp}")
                for o in idx.list():
                    old = memory.get((n, key_of(o)))
                    if old is not None and old != f(o):
                        labels.add("moved")
                    memory[n, key_of(o)] = f(o)
                for m, k in list(memory):
                    if m == n and k not in idx.list_keys():
                        labels.add("deleted")
                        del memory[m, k]

        class Handler:
            async def on_add(self, obj):
                await check(f"on adding {key_of(obj)}")

            async def on_update(self, old, new):
                await check(f"on updating {key_of(new)}")

            async def on_delete(self, obj):
                await check("on a deletion")

        async def add(more, late):
            taken = names & set(more)
            try:
                await inf.add_indexers(index.Indexers({n: FUNCS[n] for n in more}))
            except Exception as e:
                if not late and not taken:
                    raise Violation(f"adding the indexers {more} before the start failed: {e!r}")
                labels.add("refused")
            else:
                if late:
                    raise Violation(f"the indexers {more} were accepted after the start")
                if taken:
                    raise Violation(f"indexers named {taken} were accepted twice")
                names.update(more)
            if set(idx.get_indexers()) != names:
                raise Violation(f"the indexers are {set(idx.get_indexers())}, expected {names}")

        for more in case["more"]:
            await add(more, False)
        if case["handler"]:
            await inf.add_event_handler(Handler())
        t = asyncio.ensure_future(inf.run())
        await settle()
        for i, (d, op) in enumerate(case["script"]):
            await pause(d)
            srv.do(op)
            if i == case["late_at"]:
                await add(case["late"], True)
            if i % 3 == case["phase"]:
                await check(f"after step {i}")
        await asyncio.sleep(case["dwell"])
        srv.heal()
        await asyncio.sleep(15)
        await check("in the end")
        ctx.raise_if_any()
        if {key_of(o): int(md(o)[2]) for o in idx.list()} != srv.state():
            raise Violation(f"cache has {idx.list()}, server has {srv.state()}")
        t.cancel()
        await asyncio.wait([t])
        await add(case["late"], True)
        await check("after the end")
        ctx.raise_if_any()
        return bool(labels & {"moved", "deleted"}) and bool(names), labels

    return vrun(main, max_time=1e5)


name_sets = st.lists(st.sampled_from(sorted(FUNCS)), max_size=3, unique=True)
cases = st.fixed_dictionaries(dict(
    dicts=st.booleans(), exc=st.integers(0, 5), labels=labels, plan=st.one_of(st.just({}), plans), resync=st.sampled_from([0, 0, 1]),
    initial=st.lists(st.sampled_from(KEYS), max_size=4), first=name_sets, more=st.lists(name_sets, max_size=2),
    late=name_sets, late_at=st.integers(0, 12), phase=st.integers(0, 3), handler=st.booleans(), script=scripts,
    dwell=st.sampled_from([0, 3])))

TESTS = [Test("indexes", cases, run, quick=1200, thorough=60_000)]

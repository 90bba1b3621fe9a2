"""C01: object store == map; index queries == recomputation over the contents."""
from vf.answers import Answers
from vf.env import Violation, vrun
from vf.gen import history, weighted
from vf.runner import Test

import asyncio
import itertools
from collections import Counter

from hypothesis import strategies as st

from aiok8s.cache import index, store

RULE = (
    "A case is a random history of writes, replacements, index registrations, refused operations and "
    "concurrent batches over up to 5 keys and 3 index functions; after every operation all contents and "
    "all index queries are compared with a map model. Non-trivial: some key was overwritten or deleted "
    "while it carried index values, or a concurrent batch wrote."
)
ASSUMPTIONS = ["index functions are deterministic and return lists or raise; stored objects are not mutated in place"]

INDEXES = ["i0", "i1", "i2"]
VALS = ["a", "b", "c", ""]


class Obj:
    def __init__(self, key, vals, ver):
        self.key, self.vals, self.ver = key, vals, ver

    def __repr__(self):
        return f"Obj({self.key},{self.vals},#{self.ver})"


def key_func(o):
    if not isinstance(o, Obj):
        raise TypeError("not an object")
    return o.key


def index_func(i):
    return lambda o: list(o.vals[i])


def expected_index(model, i):
    out = {}
    for k, o in model.items():
        for v in o.vals[i] or ():  # an object for which the function fails is in none of its values
            out.setdefault(v, set()).add(k)
    return out


def ids(objs):
    return Counter(id(o) for o in objs)


class Case:
    def __init__(self, initial):
        self.names = list(initial)
        self.real = store.new_indexer(
            key_func, index.Indexers({n: index_func(INDEXES.index(n)) for n in initial})
        )
        self.model = {}
        self.n = 0
        self.nontrivial = False
        self.answers = Answers()

    def obj(self, spec):
        self.n += 1
        return Obj(spec[0], spec[1], self.n)

    async def verify(self, what):
        r, m = self.real, self.model

        def need(cond, msg):
            if not cond:
                raise Violation(f"after {what}: {msg}; model {m}")

        self.answers.check(what)
        lst = r.list()
        self.answers.hold("list()", lst)
        need(ids(lst) == ids(m.values()), f"list() is {lst}")
        keys = r.list_keys()
        self.answers.hold("list_keys()", keys)
        need(Counter(keys) == Counter(m.keys()), f"list_keys() is {keys}")
        for k in KEYS:
            need(r.get_by_key(k) is m.get(k), f"get_by_key({k!r}) is {r.get_by_key(k)}")
            probe = Obj(k, [[], [], []], -1)
            need(r.get(probe) is m.get(k), f"get({k!r}) is {r.get(probe)}")
        for n in self.names:
            i = INDEXES.index(n)
            exp = expected_index(m, i)
            vals = await r.list_index_func_values(n)
            self.answers.hold(f"the values of {n}", vals)
            need(Counter(vals) == Counter(exp.keys()), f"values of {n} are {vals}, expected {set(exp)}")
            for v in VALS:
                ks = await r.index_keys(n, v)
                self.answers.hold(f"index_keys({n}, {v!r})", ks)
                need(Counter(ks) == Counter(exp.get(v, ())), f"index_keys({n},{v!r}) is {ks}")
                os = await r.by_index(n, v)
                self.answers.hold(f"by_index({n}, {v!r})", os)
                need(ids(os) == ids(m[k] for k in exp.get(v, ())), f"by_index({n},{v!r}) is {os}")
        probes = list(m.values())[:3] + [
            Obj("p", [["a", "b"], ["b", "b"], []], -1), Obj("p", [[], ["c"], ["a", "c"]], -1)]
        for o in probes:
            for n in self.names:
                i = INDEXES.index(n)
                if o.vals[i] is None:
                    await self.refused(r.index(n, o), f"index({n}, {o}), for which the function fails", Exception)
                    continue
                exp = expected_index(m, i)
                want = {k for v in o.vals[i] for k in exp.get(v, ())}
                got = await r.index(n, o)
                self.answers.hold(f"index({n}, {o})", got)
                need(ids(got) == ids(m[k] for k in want), f"index({n},{o}) is {got}, expected keys {want}")
        ind = r.get_indexers()
        need(set(ind) == set(self.names), f"get_indexers() has {set(ind)}")

    async def refused(self, coro, what, exc):
        try:
            await coro
        except exc:
            return
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__} instead of {exc}")
        raise Violation(f"{what} was not refused")

    async def do(self, op):
        kind, a = op
        r, m = self.real, self.model
        if kind in ("add", "update"):
            o = self.obj(a)
            if o.key in m and any(m[o.key].vals):
                self.nontrivial = True
            await getattr(r, kind)(o)
            m[o.key] = o
        elif kind == "delete":
            o = self.obj(a)
            if o.key in m and any(m[o.key].vals):
                self.nontrivial = True
            await r.delete(o)
            m.pop(o.key, None)
        elif kind == "replace":
            objs = [self.obj(s) for s in a]
            await r.replace(objs, "1")
            m.clear()
            m.update({o.key: o for o in objs})
        elif kind == "add_indexers":
            new = index.Indexers({n: index_func(INDEXES.index(n)) for n in a})
            if m or set(a) & set(self.names):
                await self.refused(r.add_indexers(new), f"add_indexers({a}) with {len(m)} objects, "
                                   f"existing {self.names}", Exception)
            else:
                await r.add_indexers(new)
                self.names += [n for n in a if n not in self.names]
        elif kind == "bad":
            if a == "add":
                await self.refused(r.add(object()), "add of unkeyable", store.StoreKeyError)
            elif a == "update":
                await self.refused(r.update(object()), "update of unkeyable", store.StoreKeyError)
            elif a == "delete":
                await self.refused(r.delete(object()), "delete of unkeyable", store.StoreKeyError)
            elif a == "replace":
                await self.refused(r.replace([self.obj(["k0", [[], [], []]]), object()], "1"),
                                   "replace with unkeyable", store.StoreKeyError)
            elif a == "get":
                try:
                    r.get(object())
                except store.StoreKeyError:
                    pass
                else:
                    raise Violation("get of unkeyable was not refused")
            elif a == "index_keys":
                await self.refused(r.index_keys("nope", "a"), "index_keys on unknown index", KeyError)
            elif a == "by_index":
                await self.refused(r.by_index("nope", "a"), "by_index on unknown index", KeyError)
            elif a == "index":
                await self.refused(r.index("nope", Obj("p", [["a"], [], []], -1)),
                                   "index on unknown index", KeyError)
        elif kind == "resync":
            await r.resync()
        elif kind == "batch":
            await self.batch(a)

    async def batch(self, ops):
        prepared = []
        for kind, a in ops:
            if kind == "replace":
                prepared.append((kind, [self.obj(s) for s in a]))
            elif kind == "by_index":
                if a[0] in self.names:
                    prepared.append((kind, a))
            else:
                prepared.append((kind, self.obj(a)))

        async def one(kind, a):
            if kind == "replace":
                await self.real.replace(a, "1")
            elif kind == "by_index":
                return ids(await self.real.by_index(*a))
            else:
                await getattr(self.real, kind)(a)

        results = await asyncio.gather(*(one(*p) for p in prepared))
        lst = self.real.list()
        got = ids(lst)
        for perm in itertools.permutations(range(len(prepared))):
            m = dict(self.model)
            ok = True
            for j in perm:
                kind, a = prepared[j]
                if kind in ("add", "update"):
                    m[a.key] = a
                elif kind == "delete":
                    m.pop(a.key, None)
                elif kind == "replace":
                    m = {o.key: o for o in a}
                else:
                    exp = expected_index(m, INDEXES.index(a[0])).get(a[1], ())
                    if results[j] != ids(m[k] for k in exp):
                        ok = False
                        break
            if ok and ids(m.values()) == got:
                self.model = m
                self.nontrivial = True
                return
        raise Violation(f"concurrent {prepared} from {self.model} gave {lst}: no sequential order explains it")


KEYS = ["k0", "k1", "ns/k2", "k3", ""]
vals = weighted((9, st.lists(st.sampled_from(VALS), max_size=3)), (1, st.none()))
spec = st.tuples(st.sampled_from(KEYS), st.tuples(vals, vals, vals)).map(list)
write = st.one_of(
    st.tuples(st.sampled_from(["add", "update", "delete"]), spec),
    st.tuples(st.just("replace"), st.lists(spec, max_size=4)),
)
op = weighted(
    (5, st.tuples(st.sampled_from(["add", "update", "add", "delete"]), spec)),
    (1, st.tuples(st.just("replace"), st.lists(spec, max_size=5))),
    (1, st.tuples(st.just("add_indexers"), st.lists(st.sampled_from(INDEXES), max_size=2, unique=True))),
    (1, st.tuples(st.just("bad"), st.sampled_from(
        ["add", "update", "delete", "replace", "get", "index_keys", "by_index", "index"]))),
    (2, st.tuples(st.just("batch"), st.lists(
        st.one_of(write, st.tuples(st.just("by_index"), st.tuples(st.sampled_from(INDEXES), st.sampled_from(VALS)))),
        min_size=2, max_size=4))),
    (1, st.tuples(st.just("resync"), st.none())),
)
cases = st.fixed_dictionaries(dict(
    initial=st.lists(st.sampled_from(INDEXES), unique=True, max_size=3),
    ops=history(op, 16),
))


def run(case):
    async def main():
        c = Case(case["initial"])
        for o in case["ops"]:
            await c.do(o)
            await c.verify(o)
        return c.nontrivial, [o[0] for o in case["ops"]]

    return vrun(main)


TESTS = [Test("store", cases, run, quick=2000, thorough=200_000)]

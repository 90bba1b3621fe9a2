"""C10: foreign or malformed watch events and failing writes do not disturb the mirror."""
from vf.env import Violation, now, pause, vrun
from vf.fakes import KEYS, Meta, RecStore, Res, Server, key_of, make_dict, rv_of, small, steps
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.cache import reflector
from aiok8s.runtime import schema

RULE = (
    "A case is a stream of good events mixed with events of other types or kinds, without usable metadata, of "
    "unknown event type, and bookmarks, for reflectors expecting a class, a group/version/kind or anything, with "
    "store writes failing for generated keys and operations. Non-trivial: a bad event or failing write occurred "
    "before a good one."
)
ASSUMPTIONS = ["events whose metadata names an object but has no resource version are not generated"]

APIS = ["v1", "apps/v1", "example.com/v1beta1"]
OPS = {"ADDED": "add", "MODIFIED": "update", "DELETED": "delete"}


class Other:
    def __init__(self, rv):
        self.metadata = Meta("", "other", "x", str(rv))


class Bare:
    pass


class NullMeta:
    metadata = None


def run(case):
    mode, api = case["mode"], case["api"]

    def make(key, rv):
        if mode == "gvk" or mode == "any" and case["dicts"]:
            return dict(make_dict(key, rv), apiVersion=api, kind="Res")
        return Res(key, rv)

    parts = api.split("/")
    gvk = schema.GroupVersionKind(parts[0] if len(parts) == 2 else "", parts[-1], "Res")
    expected = {"gvk": gvk, "type": Res, "any": None}[mode]

    def bad_event(kind, type_):
        """-> fn(rv) -> event, and whether the version advances"""
        def good_meta(rv):
            return make_dict(("", "x"), rv)["metadata"]

        foreign = {
            "class": lambda rv: Other(rv),
            "dict_kind": lambda rv: {"apiVersion": api, "kind": "Other", "metadata": good_meta(rv)},
            "dict_group": lambda rv: {"apiVersion": "other.io/" + parts[-1], "kind": "Res", "metadata": good_meta(rv)},
            "dict_version": lambda rv: {"apiVersion": "/".join(parts[:-1] + ["v9"]), "kind": "Res",
                                        "metadata": good_meta(rv)},
            "dict_nokind": lambda rv: {"metadata": good_meta(rv)},
            "dict_oddapi": lambda rv: {"apiVersion": 7, "kind": "Res", "metadata": good_meta(rv)},
        }
        nometa = {
            "none": lambda rv: None,
            "text": lambda rv: "hello",
            "bare": lambda rv: Bare(),
            "null_meta": lambda rv: NullMeta(),
            "dict_empty": lambda rv: {},
            "dict_nometa": lambda rv: {"apiVersion": api, "kind": "Res"},
            "dict_nullmeta": lambda rv: {"apiVersion": api, "kind": "Res", "metadata": None},
            "res_nometa": lambda rv: Res.__new__(Res),
            "dict_emptymeta": lambda rv: {"apiVersion": api, "kind": "Res", "metadata": {}},
            "dict_textmeta": lambda rv: {"apiVersion": api, "kind": "Res", "metadata": "x"},
            "res_emptymeta": lambda rv: emptied(),
        }
        if kind in foreign:
            return (lambda rv: {"type": type_, "object": foreign[kind](rv)}), False
        if kind in nometa:
            return (lambda rv: {"type": type_, "object": nometa[kind](rv)}), False
        if kind == "unknown_type":
            return (lambda rv: {"type": "SURPRISE", "object": make(("", "x"), rv)}), True
        assert kind == "bookmark"
        return (lambda rv: {"type": "BOOKMARK", "object": make(("", "x"), rv)}), True

    def emptied():
        r = Res.__new__(Res)
        r.metadata = Bare()
        return r

    async def main():
        srv = Server(make=make)
        for k in case["initial"]:
            srv.put(k)
        fails = {tuple(f) for f in case["fails"]}

        class S(RecStore):
            async def _rec(self, op, *args):
                await super()._rec(op, *args)
                if op != "replace" and (op, key_of(args[0])) in fails:
                    raise [ValueError, KeyError, TimeoutError, OSError][len(self.ops) % 4]("write failed")

        s = S(case["delays"])
        r = reflector.Reflector(srv, expected, s, 0)
        t = asyncio.ensure_future(r.run())
        await asyncio.sleep(1.5)
        advanced = str(srv.rv)
        accepted = []
        bad = good_after_bad = 0
        for d, kind, arg in case["script"]:
            await pause(d)
            if kind in ("put", "delete"):
                n = len(srv.log)
                srv.do([kind, arg])
                if len(srv.log) > n:
                    advanced = str(srv.rv)
                    accepted.append((OPS[srv.log[-1][1]], srv.log[-1][2]))
                    good_after_bad += bool(bad)
            else:
                if mode == "any" and kind.startswith(("class", "dict_kind", "dict_group", "dict_version", "dict_nokind",
                                                      "dict_oddapi")):
                    continue  # nothing is foreign to a reflector that expects anything
                fn, adv = bad_event(kind, arg)
                srv.inject(fn)
                bad += 1
                if adv:
                    advanced = str(srv.rv)
        await asyncio.sleep(20 + len(case["script"]))
        if t.done():
            raise Violation(f"the reflector ended: {t!r}")
        lists = [c for c in srv.calls if c["kind"] == "list"]
        watches = [c for c in srv.calls if c["kind"] == "watch"]
        if len(lists) != 1 or len(watches) > 1:
            raise Violation(f"bad events or failing writes ended the watch: {len(lists)} lists, "
                            f"{len(watches)} watches")
        writes = [(o[1], o[2]) for o in s.ops if o[1] not in ("replace", "resync")]
        if len(writes) != len(accepted) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(writes, accepted)):
            raise Violation(f"store was given {writes}, expected {accepted}")
        if r.last_sync_resource_version() != advanced:
            raise Violation(f"last synced version {r.last_sync_resource_version()}, expected {advanced}")
        failing = any((op, key_of(o)) in fails for op, o in accepted[:-1])
        return good_after_bad > 0 or failing, {mode, "core" if len(parts) == 1 else "grouped"} | {
            k for _, k, _ in case["script"]} | ({"failing_write"} if failing else set())

    return vrun(main, max_time=1e5)


bads = st.sampled_from(["class", "dict_kind", "dict_group", "dict_version", "dict_nokind", "dict_oddapi", "none", "text",
                        "bare", "null_meta", "dict_empty", "dict_nometa", "dict_nullmeta", "res_nometa",
                        "dict_emptymeta", "dict_textmeta", "res_emptymeta", "unknown_type", "bookmark"])
types = st.sampled_from(["ADDED", "MODIFIED", "DELETED"])
op = weighted(
    (4, st.tuples(small, st.sampled_from(["put", "put", "delete"]), st.sampled_from(KEYS)).map(list)),
    (4, st.tuples(small, bads, types).map(list)),
)
cases = st.fixed_dictionaries(dict(
    mode=st.sampled_from(["gvk", "type", "any"]), api=st.sampled_from(APIS), dicts=st.booleans(),
    delays=st.lists(small, max_size=2),
    initial=st.lists(st.sampled_from(KEYS), max_size=3),
    fails=st.lists(st.tuples(st.sampled_from(["add", "update", "delete"]),
                             st.sampled_from(["a", "b", "ns/a", "ns/c"])), max_size=3),
    script=history(op, 16)))

TESTS = [Test("events", cases, run, quick=2500, thorough=100_000)]

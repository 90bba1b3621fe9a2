"""C02: typed, dict and tombstone forms of an object are interchangeable."""
from vf.env import Violation
from vf.runner import Test

from hypothesis import strategies as st
from kubernetes_asyncio import client

from aiok8s.api import meta
from aiok8s.cache import controller, delta_fifo, index, store

RULE = (
    "A case is a set of objects (namespaced and cluster-scoped, several API versions and kinds), each built "
    "as kubernetes_asyncio model, as plain attribute object and as dict, plus things that are not objects. "
    "Non-trivial: at least two objects, or a cluster-scoped or core-group one."
)
ASSUMPTIONS = ["objects have a name, names and namespaces contain no '/'"]


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


TYPES = {"Pod": client.V1Pod, "Node": client.V1Node, "Deployment": client.V1Deployment, "Secret": client.V1Secret}


def build(o):
    kind, api, ns, name, uid, rv, how = o
    m = dict(name=name, uid=uid, resource_version=rv, namespace=ns)
    typed = TYPES[kind](api_version=api, kind=kind, metadata=client.V1ObjectMeta(**m))
    plain = Plain(api_version=api, kind=kind, metadata=Plain(**m))
    dm = {"name": name}
    # missing entries, null entries and proper ones all occur in dict objects
    for k, v in (("namespace", ns), ("uid", uid), ("resourceVersion", rv)):
        if v is not None or (how and k != "resourceVersion"):
            dm[k] = v
    if rv is None:
        dm["resourceVersion"] = None
    d = {"apiVersion": api, "kind": kind, "metadata": dm}
    return typed, plain, d


def gvk(api, kind):
    parts = api.split("/")
    return ("", parts[0], kind) if len(parts) == 1 else (parts[0], parts[1], kind)


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def refused(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f"{what} was given {r!r} instead of being refused")


def run(case):
    keys = {}
    labels = set()
    for o in case["objs"]:
        kind, api, ns, name, uid, rv, how = o
        want_key = f"{ns}/{name}" if ns else name
        labels.add("namespaced" if ns else "cluster-scoped")
        labels.add("grouped" if "/" in api else "core")
        prev = keys.setdefault((ns or "", name), None)
        for form, obj in zip(("typed", "plain", "dict"), build(o)):
            w = f"{form} form of {o}"
            for f in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func):
                k = f(obj)
                need(k == want_key, f"{f.__name__} of {w} is {k!r}")
            need(index.meta_namespace_index_func(obj) == [ns], f"namespace index of {w} is "
                 f"{index.meta_namespace_index_func(obj)!r}")
            a = meta.accessor(obj)
            need((a.namespace, a.name, a.uid, a.resource_version) == (ns, name, uid, rv),
                 f"accessor of {w} reads {(a.namespace, a.name, a.uid, a.resource_version)}")
            t = meta.type_accessor(obj)
            need(t.api_version == api and t.kind == kind, f"type accessor of {w} reads {t.api_version} {t.kind}")
            g = t.group_version_kind
            need((g.group, g.version, g.kind) == gvk(api, kind), f"group/version/kind of {w} is {g!r}")
            # writing the version is seen by every later reader and changes nothing else
            a.resource_version = case["rv2"]
            b = meta.accessor(obj)
            need(b.resource_version == case["rv2"] and a.resource_version == case["rv2"],
                 f"version written to {w} reads {b.resource_version!r}")
            need((b.namespace, b.name, b.uid) == (ns, name, uid), f"writing the version of {w} changed others")
            native = (obj["metadata"]["resourceVersion"] if isinstance(obj, dict)
                      else obj.metadata.resource_version)
            need(native == case["rv2"], f"version written to {w} is not in the object")
            # tombstones and explicit keys
            for inner in (obj, None):
                tomb = delta_fifo.DeletedFinalStateUnknown(want_key, inner)
                k = controller.deletion_handling_meta_namespace_key_func(tomb)
                need(k == want_key, f"tombstone key of {w} is {k!r}")
            q = delta_fifo.DeltaFIFO(store.meta_namespace_key_func)
            for x in (obj, tomb, delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.ADDED, obj)]),
                      delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.DELETED, tomb)])):
                need(q.key_of(x) == want_key, f"delta queue key of {x!r} is {q.key_of(x)!r}")
        ek = store.meta_namespace_key_func(store.ExplicitKey(want_key))
        need(ek == want_key, f"explicit key {want_key!r} gives {ek!r}")
        need(controller.deletion_handling_meta_namespace_key_func(store.ExplicitKey(want_key)) == want_key,
             "explicit key not honoured")
        keys[(ns or "", name)] = store.meta_namespace_key_func(build(o)[case["form"]])
    need(len(set(keys.values())) == len(keys), f"distinct objects share a key: {keys}")
    # lists
    for form in range(3):
        objs = [build(o)[form] for o in case["objs"]]
        for lst in (client.V1PodList(items=objs, metadata=client.V1ListMeta(resource_version="7")),
                    Plain(items=objs, metadata=Plain(resource_version="7")),
                    {"items": objs, "metadata": {"resourceVersion": "7"}}):
            la = meta.list_accessor(lst)
            need(la.resource_version == "7", f"list version reads {la.resource_version!r}")
            la.resource_version = case["rv2"]
            need(meta.list_accessor(lst).resource_version == case["rv2"], "list version not written")
            got = meta.extract_list(lst)
            need([id(x) for x in got] == [id(x) for x in objs], "extract_list does not give the items")
            meta.set_list(lst, objs[:1])
            need([id(x) for x in meta.extract_list(lst)] == [id(x) for x in objs[:1]], "set_list not read back")
    for junk in case["junk"]:
        for f in (store.meta_namespace_key_func, controller.deletion_handling_meta_namespace_key_func,
                  index.meta_namespace_index_func):
            refused(lambda: f(junk), f"{f.__name__}({junk!r})")
        refused(lambda: meta.accessor(junk).name, f"accessor({junk!r})")
        if not (isinstance(junk, dict) and "metadata" in junk):
            refused(lambda: meta.list_accessor(junk).resource_version, f"list_accessor({junk!r})")
        refused(lambda: f(Plain(spec=1)), "object without metadata")
    if case["junk"]:
        labels.add("junk")
    nontrivial = len(case["objs"]) >= 2 or bool(labels & {"cluster-scoped", "core"})
    return nontrivial, labels


seg = st.one_of(
    st.sampled_from(["a", "b", "ab", "default", "kube-system", "a-b", "a.b"]),
    st.text(alphabet="abz019-.", min_size=1, max_size=8),
)
obj = st.tuples(
    st.sampled_from(sorted(TYPES)),
    st.one_of(st.sampled_from(["v1", "apps/v1", "example.com/v1beta1"]), st.tuples(seg, seg).map("/".join), seg),
    st.one_of(st.none(), seg, st.just("")), seg, st.one_of(st.none(), seg),
    st.one_of(st.integers(0, 2**63).map(str), st.none()), st.booleans(),
).map(list)
junk = st.one_of(
    st.none(), st.integers(), st.text(max_size=5), st.booleans(), st.lists(st.integers(), max_size=2),
    st.sampled_from([{}, {"spec": {}}, {"metadata": None}, {"name": "a", "namespace": "b"},
                     {"kind": "Pod", "apiVersion": "v1"}]),
)
cases = st.fixed_dictionaries(dict(
    objs=st.lists(obj, min_size=1, max_size=5), junk=st.lists(junk, max_size=3),
    rv2=st.integers(0, 10**9).map(str), form=st.integers(0, 2)))

ALONE = ["forms"]
TESTS = [Test("forms", cases, run, quick=2500, thorough=100_000)]

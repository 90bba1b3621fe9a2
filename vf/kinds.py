"""Further kinds of objects for the controllers' cache, defined as the library defines the one it comes with."""
from kubernetes_asyncio import client

from aiok8s.controller import client as _client
from aiok8s.runtime import schema

TYPES = {"pods": client.V1Pod}  # what the cache can be asked for


def _pod_client():
    """The class that lists and watches pods, and the names of its attributes."""
    for c in vars(_client).values():
        if isinstance(c, type):
            names = {}
            for n, v in vars(c).items():
                if v is client.V1Pod:
                    names["type"] = n
                elif v is client.CoreV1Api:
                    names["api"] = n
                elif isinstance(v, schema.GroupVersionKind):
                    names["gvk"] = n
            if len(names) == 3:
                return c, names
    return None, None


class _Services(client.CoreV1Api):
    list_namespaced_pod = client.CoreV1Api.list_namespaced_service
    list_pod_for_all_namespaces = client.CoreV1Api.list_service_for_all_namespaces


class _Nodes(client.CoreV1Api):
    list_pod_for_all_namespaces = client.CoreV1Api.list_node


def _define():
    base, names = _pod_client()
    if base is None:
        return
    for plural, kind, api, type_ in [("services", "Service", _Services, client.V1Service), ("nodes", "Node", _Nodes, client.V1Node)]:
        members = {names["gvk"]: schema.GroupVersionKind("", "v1", kind), names["type"]: type_, names["api"]: api}
        try:
            type(f"_{kind}Client", (base,), members)
        except TypeError:
            return  # not defined in this way
        TYPES[plural] = type_


_define()

"""A fake API server behind the real kubernetes_asyncio client: its HTTP layer is replaced, everything above is real.

Pods (and services and nodes) are served from a vf.fakes.Server each (lists, watches and their faults); config maps are versioned and replaced
conditionally. Every connection pool the client opens is recorded.
"""
import asyncio
import json
import re
from types import SimpleNamespace

from vf.env import HarnessError, now, pause
from vf.fakes import Server, make_dict

from kubernetes_asyncio.client import rest
from kubernetes_asyncio.client.exceptions import ApiException

_server = None  # the Api of the running case


class Response:
    """What aiohttp would return."""

    def __init__(self, status, data, reason=""):
        self.status, self.reason, self.data, self.headers = status, reason, data, {}


class FakeRest:
    """Stands in for kubernetes_asyncio.client.rest.RESTClientObject."""

    def __init__(self, configuration=None, *args, **kwargs):
        self.api = _server
        self.closed = False
        if self.api is not None:
            self.api.pools.append(self)

    async def close(self):
        self.closed = True

    async def request(self, method, url, query_params=None, headers=None, body=None, post_params=None,
                      _preload_content=True, _request_timeout=None):
        if self.api is None:
            raise HarnessError("request outside a case")
        if self.closed:
            raise RuntimeError("Session is closed")
        path = re.sub(r"^https?://[^/]*", "", url)
        # what is sent is text
        body = json.loads(json.dumps(body)) if body is not None else None
        status, answer = await self.api.request(method, path, dict(query_params or []), body)
        if not _preload_content:
            return answer
        data = json.dumps(answer).encode()
        r = rest.RESTResponse(Response(status, data), data)
        if not 200 <= status <= 299:
            raise ApiException(http_resp=r)
        return r

    def __getattr__(self, name):
        if name.isupper():
            async def f(url, **kw):
                return await self.request(name, url, **kw)

            return f
        raise AttributeError(name)


rest.RESTClientObject = FakeRest


def status(code, reason):
    return {"kind": "Status", "apiVersion": "v1", "status": "Failure", "reason": reason, "message": reason, "code": code}


KINDS = {"pods": "Pod", "services": "Service", "nodes": "Node"}


def maker(kind):
    def make(key, rv):
        d = make_dict(key, rv)
        d["kind"] = kind
        return d

    return make


class Api:
    def __init__(self, plan=None, exc=0, status_410=False, plans={}):
        global _server
        _server = self
        self.servers = {}
        plans = {"pods": plan, **plans}
        for i, (plural, kind) in enumerate(KINDS.items()):
            s = self.servers[plural] = Server(plans.get(plural), make=maker(kind), exc=exc + i)
            s.rv += 10_000 * i
        self.pods = self.servers["pods"]
        self.pools = []
        self.streams = []
        self.seen = {}  # key of a pod -> when a client was last told about it
        self.requests = []  # (time, method, path, query)
        self.maps = {}  # config maps
        self.rv = 100
        self.status_410 = status_410
        self.honor = True  # ends watches when their timeout is over
        self.on_request = None  # async (method, path, body) hook of the config maps, may raise
        self.map_log = []

    async def request(self, method, path, query, body):
        self.requests.append((now(), method, path, query))
        m = re.fullmatch(r"/api/v1/(?:namespaces/([^/]+)/)?(pods|services|nodes)", path)
        if m and method == "GET":
            return await self._objects(m[2], m[1], query)
        m = re.fullmatch(r"/api/v1/namespaces/([^/]+)/configmaps(?:/([^/]+))?", path)
        if m:
            return await self._config_map(method, m[1], m[2], body)
        return 404, status(404, "NotFound")

    # ---- pods, services, nodes
    async def _objects(self, plural, ns, query):
        srv = self.servers[plural]
        if str(query.get("watch", "")).lower() == "true":
            w = await srv.watch({"resource_version": query.get("resourceVersion", "0")})
            timeout = query.get("timeoutSeconds") if self.honor else None
            s = Stream(self, w, ns, None if timeout is None else float(timeout), plural)
            self.streams.append(s)
            return 200, s
        l = await srv.list({"resource_version": query.get("resourceVersion")})
        items = [o for o in l.items if ns is None or o["metadata"].get("namespace") == ns]
        if plural == "pods":
            self.seen.update({(o["metadata"].get("namespace", ""), o["metadata"]["name"]): now() for o in items})
        return 200, {"kind": KINDS[plural] + "List", "apiVersion": "v1", "metadata": {"resourceVersion": l.metadata.resource_version},
                     "items": items}

    # ---- config maps
    async def _config_map(self, method, ns, name, body):
        answer = self._config_map_now
        if self.on_request is not None:
            return await self.on_request(method, ns, name, body, answer)
        return answer(method, ns, name, body)

    def _config_map_now(self, method, ns, name, body):
        if method == "POST":
            name = body["metadata"]["name"]
            if body["metadata"].get("namespace", ns) != ns:
                return 400, status(400, "BadRequest")
            if (ns, name) in self.maps:
                return 409, status(409, "AlreadyExists")
            return 201, self._store(ns, name, body, f"uid-{self.rv}")
        if (ns, name) not in self.maps:
            return 404, status(404, "NotFound")
        have = self.maps[ns, name]
        if method == "GET":
            return 200, json.loads(json.dumps(have))
        if method == "PUT":
            m = body["metadata"]
            if m.get("name", name) != name or m.get("namespace", ns) != ns:
                return 400, status(400, "BadRequest")
            version = m.get("resourceVersion")
            if version and version != have["metadata"]["resourceVersion"]:
                return 409, status(409, "Conflict")
            if m.get("uid") and m["uid"] != have["metadata"]["uid"]:
                return 409, status(409, "Conflict")
            return 200, self._store(ns, name, body, have["metadata"]["uid"])
        if method == "DELETE":
            del self.maps[ns, name]
            self.map_log.append((now(), ns, name, None))
            return 200, status(200, "Success")
        return 405, status(405, "MethodNotAllowed")

    def _store(self, ns, name, body, uid):
        self.rv += 1
        o = json.loads(json.dumps(body))
        o.setdefault("apiVersion", "v1")
        o.setdefault("kind", "ConfigMap")
        o["metadata"].update(namespace=ns, name=name, uid=uid, resourceVersion=str(self.rv))
        self.maps[ns, name] = o
        self.map_log.append((now(), ns, name, json.loads(json.dumps(o))))
        return json.loads(json.dumps(o))


class Stream:
    """The response of a watch request."""

    def __init__(self, api, watch, ns, timeout, plural="pods"):
        self.api, self.watch, self.ns, self.plural = api, watch, ns, plural
        self.until = None if timeout is None else now() + timeout
        self.content = self
        self.status = 200
        self.released = False

    async def readline(self):
        if self.released:
            raise HarnessError("read from a closed response")
        while True:
            try:
                if self.until is None:
                    e = await self.watch.__anext__()
                else:
                    e = await asyncio.wait_for(self.watch.__anext__(), max(self.until - now(), 0))
            except StopAsyncIteration:
                return b""
            except asyncio.TimeoutError as err:
                if self.until is not None and now() >= self.until:
                    self.watch.finished = True
                    return b""
                raise err
            if e["type"] == "ERROR":
                s = status(410, "Expired")
                return self._line(s if self.api.status_410 else {"type": "ERROR", "object": s})
            ns, name = (e["object"]["metadata"].get(k) for k in ("namespace", "name"))
            if e["type"] != "BOOKMARK":
                if self.ns is not None and ns != self.ns:
                    continue
                if self.plural == "pods":
                    self.api.seen[ns or "", name] = now()
            return self._line(e)

    def _line(self, e):
        return (json.dumps(e) + "\n").encode()

    def release(self):
        self.released = True
        self.watch.finished = True
        self.watch.stopped.set()

    close = release

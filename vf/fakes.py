"""Fake API server: a versioned log with list and watch, and generated faults."""
import asyncio

from vf.env import HarnessError, now, pause
from vf.gen import history

from hypothesis import strategies as st


class Meta:
    def __init__(self, namespace, name, uid, resource_version):
        self.namespace, self.name, self.uid, self.resource_version = namespace, name, uid, resource_version


class Res:
    """A typed API object."""

    api_version, kind = "v1", "Res"

    def __init__(self, key, rv):
        ns, name = key
        self.metadata = Meta(ns, name, f"u-{ns}-{name}", str(rv))

    def __repr__(self):
        return f"{key_of(self)}@{self.metadata.resource_version}"


class Foreign:
    api_version, kind = "v1", "Foreign"

    def __init__(self, key, rv):
        self.metadata = Meta(key[0], key[1], "x", str(rv))


class ResList:
    def __init__(self, items, rv):
        self.items = items
        self.metadata = Meta(None, None, None, str(rv))


def make_dict(key, rv):
    m = {"name": key[1], "uid": f"u-{key[0]}-{key[1]}", "resourceVersion": str(rv)}
    if key[0]:
        m["namespace"] = key[0]
    return {"apiVersion": "v1", "kind": "Res", "metadata": m}


def md(o):
    """(namespace, name, version) of either form."""
    if isinstance(o, dict):
        m = o["metadata"]
        return m.get("namespace"), m["name"], m["resourceVersion"]
    m = o.metadata
    return m.namespace, m.name, m.resource_version


def key_of(o):
    ns, name, _ = md(o)
    return f"{ns}/{name}" if ns else name


def rv_of(o):
    return int(md(o)[2])


class ServerError(Exception):
    pass


EXCEPTIONS = [ServerError, TimeoutError, ConnectionResetError, ValueError, KeyError, RuntimeError]


class Server:
    """plan: {"list": [...], "watch": [...]}: what the successive list and watch requests do; healthy afterwards,
    and healthy in any case once heal() has been called.

    list plan entries:  ["ok", d0, d1] | ["error", d0]      (snapshot is taken after d0, returned after d1 more)
    watch plan entries: ["ok", d] | ["error", d] | [how, d, events, ticks, lag]
        how: close | raise | gone; the stream ends that way after `events` events or `ticks`/64 s,
        each event arriving `lag` late.
    """

    def __init__(self, plan=None, make=Res, ns=None, exc=0):
        self.make, self.ns = make, ns
        self.plan = {k: list(v) for k, v in (plan or {}).items()}
        self.objs = {}
        self.rv = 1
        self.log = []  # (rv, type, obj)
        self.oldest = 0  # watches from below this version are expired
        self.calls = []  # dicts: kind, t, options, result
        self.watches = []
        self.wake = asyncio.Event()
        self.healed = False
        self.faults = 0
        self.last_fault = 0.0
        self.exc = exc
        self.refuse = exc % 2 == 1  # refuses expired watches at once instead of ending them with an error event
        self.linger = exc % 3 == 2  # streams stay open, and silent, after an error event
        self.honor = False  # ends watches when their timeout is over
        self.labels = 0  # calls changes additions (1), additions changes (2), or both by turns (3)

    # ---- changes
    def _emit(self, type_, obj):
        self.log.append((self.rv, type_, obj))
        w, self.wake = self.wake, asyncio.Event()
        w.set()

    def put(self, key):
        key = tuple(key)
        self.rv += 1
        obj = self.make(key, self.rv)
        type_ = "MODIFIED" if key in self.objs else "ADDED"
        self.objs[key] = obj
        self._emit(type_, obj)
        return obj

    def delete(self, key):
        key = tuple(key)
        if key not in self.objs:
            return None
        self.rv += 1
        del self.objs[key]
        obj = self.make(key, self.rv)
        self._emit("DELETED", obj)
        return obj

    def bookmark(self):
        """A version advance that concerns no object."""
        self.rv += 1
        self._emit("BOOKMARK", self.make(("", "bookmark"), self.rv))

    def inject(self, event):
        """Send an arbitrary event to the watchers; it concerns no object of the server."""
        self.rv += 1
        self.log.append((self.rv, None, event(self.rv)))
        w, self.wake = self.wake, asyncio.Event()
        w.set()

    def expire(self):
        self.oldest = self.rv

    def heal(self):
        self.healed = True

    def do(self, op):
        kind, arg = op
        if kind == "put":
            self.put(arg)
        elif kind == "delete":
            self.delete(arg)
        elif kind == "expire":
            self.expire()
        elif kind == "bookmark":
            self.bookmark()
        else:
            raise HarnessError(op)

    def state(self):
        """key -> version"""
        return {key_of(o): rv_of(o) for o in self.objs.values()}

    def fault(self):
        self.faults += 1
        self.last_fault = now()
        return EXCEPTIONS[(self.exc + self.faults) % len(EXCEPTIONS) if self.exc else 0]("fault")

    # ---- requests
    def _next(self, kind):
        p = self.plan.get(kind)
        return p.pop(0) if p and not self.healed else ["ok", -1, -1]

    async def list(self, options):
        call = dict(kind="list", t=now(), options=dict(options), result=None)
        self.calls.append(call)
        step = self._next("list")
        await pause(step[1])
        if step[0] == "error":
            call["result"], call["t_end"] = "error", now()
            raise self.fault()
        items, rv = list(self.objs.values()), self.rv
        await pause(step[2])
        call["result"] = rv
        call["t_end"] = now()
        if self.make is make_dict:
            return {"items": items, "metadata": {"resourceVersion": str(rv)}}
        return ResList(items, rv)

    async def watch(self, options):
        call = dict(kind="watch", t=now(), options=dict(options), result=None)
        self.calls.append(call)
        step = self._next("watch")
        await pause(step[1])
        if step[0] == "error":
            call["result"], call["t_end"] = "error", now()
            raise self.fault()
        if self.refuse and int(options["resource_version"]) < self.oldest:
            call["result"], call["t_end"] = "error", now()
            raise self.fault()
        w = Watch(self, int(options["resource_version"]), step, call)
        call["result"] = w
        self.watches.append(w)
        return w

    def open_watches(self):
        return [w for w in self.watches if not w.finished]


class Watch:
    def __init__(self, server, rv, step, call):
        self.server, self.rv, self.step, self.call = server, rv, step, call
        self.stopped = asyncio.Event()
        self.finished = False  # stopped by the client, or ended by the server
        self.sent = []
        self.t0 = now()
        self.left = step[2] if len(step) > 3 else None
        self.until = self.t0 + step[3] / 64 if len(step) > 3 else None
        self.pos = None
        self.errored = False
        self.ended = None  # how the server has ended it

    @property
    def finished(self):
        return self.t_end is not None

    @finished.setter
    def finished(self, value):
        if not value:
            self.t_end = None
        elif self.t_end is None:
            self.t_end = now()

    def __aiter__(self):
        return self

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        await self.stop()

    async def stop(self):
        self.finished = True
        self.stopped.set()

    def _error(self):
        self.errored = self.ended = "error"
        if not self.server.linger:
            self.finished = True
        return {"type": "ERROR", "object": {"kind": "Status", "code": 410}}

    def _deadline(self):
        return self.t0 + self.call["options"]["timeout_seconds"] if self.server.honor else float("inf")

    def _ending(self):
        return self.until is not None and not self.server.healed and (
            self.left <= 0 or now() >= self.until)

    async def __anext__(self):
        s = self.server
        if self.errored and not self.finished:
            await self.stopped.wait()
        if self.finished:
            raise StopAsyncIteration
        if self.rv < s.oldest and self.pos is None:
            s.fault()
            self.pos = len(s.log)
            return self._error()
        if self.pos is None:
            self.pos = next((i for i, e in enumerate(s.log) if e[0] > self.rv), len(s.log))
        while True:
            if self.finished:
                raise StopAsyncIteration
            if self._ending():
                exc = s.fault()
                if self.step[0] == "gone":
                    return self._error()
                self.finished = True
                self.ended = self.step[0]
                if self.step[0] == "raise":
                    raise exc
                raise StopAsyncIteration
            if now() >= self._deadline():
                self.finished = True
                self.ended = "close"
                raise StopAsyncIteration
            if self.pos < len(s.log):
                rv, type_, obj = s.log[self.pos]
                if self.until is not None and not s.healed:
                    await pause(self.step[4])
                    if self.finished:
                        raise StopAsyncIteration
                    self.left -= 1
                self.pos += 1
                self.rv = rv
                event = {"type": self._label(type_, rv), "object": obj} if type_ else obj
                self.sent.append(event)
                return event
            await self._wait()

    def _label(self, type_, rv):
        how = self.server.labels
        if not how or type_ not in ("ADDED", "MODIFIED"):
            return type_
        if how == 3:
            how = rv % 2 + 1
        return ("ADDED", "MODIFIED")[how - 1]

    async def _wait(self):
        wake, stopped = asyncio.ensure_future(self.server.wake.wait()), asyncio.ensure_future(self.stopped.wait())
        timeout = None
        if self.until is not None and not self.server.healed:
            timeout = max(self.until - now(), 0)
        elif self.server.honor:
            timeout = max(self._deadline() - now(), 0)
        try:
            await asyncio.wait([wake, stopped], timeout=timeout, return_when=asyncio.FIRST_COMPLETED)
        finally:
            wake.cancel()
            stopped.cancel()


# ---------------------------------------------------------------- strategies
small = st.sampled_from([-1, -1, 0, 1, 5, 40])
list_step = st.one_of(
    st.tuples(st.just("ok"), small, small).map(list),
    st.tuples(st.just("error"), small).map(list),
)
watch_step = st.one_of(
    st.tuples(st.sampled_from(["close", "raise", "gone"]), small, st.integers(0, 5), st.sampled_from([0, 1, 32, 64, 100, 300]),
              st.sampled_from([-1, -1, 0, 3])).map(list),
    st.tuples(st.just("error"), small).map(list),
)


def _some(x, hi):
    return st.one_of(st.lists(x, min_size=1, max_size=hi), st.lists(x, min_size=2, max_size=hi), st.just([]))


labels = st.sampled_from([0, 0, 0, 1, 2, 3])  # of a Server
plans = st.fixed_dictionaries(dict(list=_some(list_step, 5), watch=_some(watch_step, 7)))
KEYS = [["", "a"], ["", "b"], ["ns", "a"], ["ns", "c"]]
keys = st.sampled_from(KEYS)
change = st.one_of(
    st.tuples(st.just("put"), keys).map(list),
    st.tuples(st.just("put"), keys).map(lambda x: list(x)),
    st.tuples(st.just("delete"), keys).map(list),
)
server_op = st.one_of(change, change.map(list), change.map(lambda x: list(x)), st.just(["expire", None]))
steps = st.sampled_from([-1, -1, -1, 0, 1, 10, 32, 64, 130])
# a script: [[delay, op], ...]
scripts = history(st.tuples(steps, server_op).map(list), 16, lo=0)


class RecStore:
    """A store that records what is written to it: (time, op, arguments)."""

    def __init__(self, delays=None):
        self.ops, self.items, self.delays, self.fail = [], {}, delays or [-1], {}
        self.done = set()  # versions whose write has completed

    async def _rec(self, op, *args):
        self.ops.append((now(), op, *args))
        await pause(self.delays[len(self.ops) % len(self.delays)])

    async def replace(self, items, resource_version):
        await self._rec("replace", list(items), resource_version)
        self.items = {key_of(o): o for o in items}
        self.done.add(str(resource_version))

    async def add(self, obj):
        await self._rec("add", obj)
        self.items[key_of(obj)] = obj
        self.done.add(md(obj)[2])

    async def update(self, obj):
        await self._rec("update", obj)
        self.items[key_of(obj)] = obj
        self.done.add(md(obj)[2])

    async def delete(self, obj):
        await self._rec("delete", obj)
        self.items.pop(key_of(obj), None)
        self.done.add(md(obj)[2])

    async def resync(self):
        await self._rec("resync")

    def state(self):
        return {k: rv_of(o) for k, o in self.items.items()}

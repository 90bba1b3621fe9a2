"""Recording event handlers and helpers for informer checks."""
from vf.env import now, pause
from vf.failures import pick, variants

import asyncio

from aiok8s.cache.delta_fifo import DeletedFinalStateUnknown

from vf.fakes import key_of, rv_of


class HandlerError(Exception):
    pass


ERRORS = variants(HandlerError)


class Recorder:
    """An event handler that replays what it is told and checks that this makes a consistent history.

    delays: duration of the successive calls (cycled); raises: set of call numbers that raise at their end.
    cache: () -> {key: version}; deleted_after: (key, version) -> was the object deleted after that version?
    exact: at a callback the store must be exactly at the announced state (basic informer).
    """

    def __init__(self, ctx, name="h", delays=None, raises=(), cache=None, deleted_after=None, exact=False,
                 gate=None, on_call=None):
        self.ctx, self.name = ctx, name
        self.delays, self.raises = delays or [-1], set(raises)
        self.cache, self.deleted_after, self.exact = cache, deleted_after, exact
        self.gate, self.on_call = gate, on_call
        self.state, self.newest = {}, {}
        self.events = []  # (kind, key, version, time)
        self.active = 0
        self.ended = []  # times at which calls ended
        self.tombstones = 0
        self.lost = set()  # keys whose history is unknown because a call raised

    def fail(self, msg):
        self.ctx.fail(f"{self.name}: {msg}; events {[e[:3] for e in self.events[-6:]]}")

    async def _call(self, kind, key, version):
        n = len(self.events)
        self.events.append((kind, key, version, now()))
        if self.active:
            self.fail(f"{kind} of {key} while another call is running")
        self.active += 1
        try:
            if self.on_call:
                await self.on_call(self, n)
            if self.gate is not None:
                await self.gate.wait()
            await pause(self.delays[n % len(self.delays)])
            if n in self.raises:
                raise pick(ERRORS, n)("handler failed")
        finally:
            self.active -= 1
            self.ended.append(now())

    def _visible(self, what, key, version):
        if self.cache is None:
            return
        have = self.cache().get(key)
        if self.exact:
            if have != version:
                self.fail(f"told {what} {key}@{version} while the store has it at {have}")
        elif have is None:
            if not self.deleted_after(key, version):
                self.fail(f"told {what} {key}@{version}, which is not in the cache")
        elif have < version:
            self.fail(f"told {what} {key}@{version} while the cache has it at {have}")

    def _advance(self, key, version, again_ok):
        old = self.newest.get(key, 0)
        if version < old or version == old and not again_ok:
            self.fail(f"{key} goes from version {old} to {version}")
        self.newest[key] = max(version, old)

    async def on_add(self, obj):
        key, version = key_of(obj), rv_of(obj)
        if key in self.state:
            self.fail(f"add of {key}@{version}, already announced at {rv_of(self.state[key])}")
        self._advance(key, version, False)
        self._visible("add", key, version)
        self.state[key] = obj
        await self._call("add", key, version)

    async def on_update(self, old, obj):
        key, version = key_of(obj), rv_of(obj)
        if key not in self.state:
            self.fail(f"update of {key}@{version}, which was never added")
        elif old is not self.state[key]:
            self.fail(f"update of {key} from {old!r}, announced was {self.state[key]!r}")
        self._advance(key, version, True)
        self._visible("update", key, version)
        self.state[key] = obj
        await self._call("update", key, version)

    async def on_delete(self, obj):
        tomb = isinstance(obj, DeletedFinalStateUnknown)
        if tomb:
            self.tombstones += 1
            key, inner = obj.key, obj.obj
            if isinstance(inner, DeletedFinalStateUnknown):
                self.fail(f"tombstone in a tombstone for {key}")
                inner = None
            if inner is not None and key in self.state and inner is not self.state[key]:
                self.fail(f"tombstone of {key} carries {inner!r}, announced was {self.state[key]!r}")
            version = rv_of(inner) if inner is not None else self.newest.get(key, 0)
        else:
            key, version = key_of(obj), rv_of(obj)
        if key not in self.state:
            self.fail(f"delete of {key}, which was not announced")
        self._advance(key, version, tomb)
        if self.cache is not None:
            have = self.cache().get(key)
            if have is not None and (self.exact or have <= version):
                self.fail(f"told delete of {key}@{version} while the cache has it at {have}")
        self.state.pop(key, None)
        await self._call("delete", key, version)

    def versions(self):
        return {k: rv_of(o) for k, o in self.state.items()}

    def seq(self):
        return [e[:3] for e in self.events]


def deleted_after(srv):
    def f(key, version):
        return any(t == "DELETED" and v > version and key_of(o) == key for v, t, o in srv.log)

    return f


def contents(indexer):
    return {key_of(o): rv_of(o) for o in indexer.list()}


async def let_tasks_end(base):
    """Tasks still alive shortly after things were stopped."""
    await asyncio.sleep(1e-4)
    return [x for x in asyncio.all_tasks() if x not in base and not x.done()]

"""Recording reconcilers and manager set-ups for controller checks."""
from vf.env import now, pause

import asyncio

from hypothesis import strategies as st

from kubernetes_asyncio import client

from aiok8s.controller import builder, controller, handler, reconcile, source

PODS = [["ns1", "a"], ["ns1", "b"], ["ns2", "a"], ["default", "c"], ["", "c"], ["ns1", "ns1"]]


class ReconcileError(Exception):
    pass


ERRORS = [ReconcileError, TimeoutError, KeyError, RuntimeError, asyncio.TimeoutError, ValueError,
          StopAsyncIteration, OSError]


class Reconciler:
    """behaviour: [[duration, outcome], ...] of the successive calls; prompt and successful afterwards.

    outcome: "ok" | "raise" | "requeue" | number of 1/64 s (requeue_after) | ["both", number of 1/64 s]
    """

    def __init__(self, ctx, cache, behaviour=(), name="r", slow_read=-1, cleanup=-1, type_=client.V1Pod):
        self.type = type_
        self.ctx, self.cache, self.behaviour, self.name = ctx, cache, list(behaviour), name
        self.slow_read, self.cleanup = slow_read, cleanup
        self.calls = []  # dicts: t, key, read, end, outcome
        self.active = {}
        self.most = 0
        self.injected = []

    def inject_cache(self, cache):
        self.injected.append(cache)

    async def reconcile(self, request):
        call = dict(t=now(), end=None, read="unread", outcome=None, key=None)
        self.calls.append(call)
        if type(request) is not reconcile.Request:
            self.ctx.fail(f"{self.name}: asked to reconcile {request!r}")
            return reconcile.Result()
        key = request.namespaced_name.namespace or "", request.namespaced_name.name
        call["key"] = key
        if key in self.active:
            self.ctx.fail(f"{self.name}: two reconciles of {key} at once")
        self.active[key] = call
        self.most = max(self.most, len(self.active))
        i = len(self.calls) - 1
        duration, outcome = self.behaviour[i] if i < len(self.behaviour) else [-1, "ok"]
        try:
            await pause(self.slow_read)
            call["read"] = await self.read(request.namespaced_name)
            await pause(duration)
            call["outcome"] = outcome
            if outcome == "raise":
                raise ERRORS[i % len(ERRORS)]("reconcile failed")
            if outcome == "requeue":
                return reconcile.Result(requeue=True)
            if isinstance(outcome, list):
                return reconcile.Result(requeue=True, requeue_after=outcome[1] / 64)
            if outcome == "none":
                return None
            if outcome == "odd":
                return "no result"
            if outcome != "ok":
                return reconcile.Result(requeue_after=outcome / 64)
            return reconcile.Result()
        except asyncio.CancelledError:
            await pause(self.cleanup)
            raise
        finally:
            call["end"] = now()
            del self.active[key]

    async def read(self, nn):
        """The version read from the cache, or None."""
        try:
            pod = await self.cache.get(nn, self.type)
        except KeyError:
            return None
        if type(pod) is not self.type or (pod.metadata.namespace or "", pod.metadata.name) != (
                nn.namespace or "", nn.name):
            self.ctx.fail(f"{self.name}: reading {nn} gave {pod!r}")
        return int(pod.metadata.resource_version)

    def last(self, key):
        return next((c for c in reversed(self.calls) if c["key"] == tuple(key)), None)


async def build(mgr, reconciler, workers):
    """With workers = 0 through the builder."""
    if not workers:
        await builder.build_controller(mgr, reconciler, api_type=reconciler.type)
        return 1
    c = controller.new(mgr, reconciler=reconciler)
    c.max_concurrent_reconciles = workers
    await mgr.get_cache().get_informer(reconciler.type)
    await c.watch(source.Kind(reconciler.type), handler.EnqueueRequestForObject())
    return workers


behaviours = st.lists(st.tuples(
    st.sampled_from([-1, -1, 0, 1, 20, 130]),
    st.one_of(st.sampled_from(["ok", "ok", "raise", "requeue"]), st.sampled_from([1, 16, 64, 300, ["both", 64]])),
).map(list), max_size=8)

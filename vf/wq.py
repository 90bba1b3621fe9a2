"""Reference model of the work queues."""
from vf.env import settle

import asyncio

from aiok8s.util import clock
from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue


def make(kind):
    if kind == "plain":
        return queue.new()
    if kind == "delaying":
        return delaying_queue.new()
    return rate_limiting_queue.new(default_rate_limiters.ItemExponentialFailureRateLimiter(0.5, 60))


def fresh(item):
    """An item that equals others made from the same, but is none of them."""
    return tuple(["item", item])


class Model:
    """dirty/processing/queue as documented for client-go's work queue."""

    def __init__(self):
        self.queue, self.dirty, self.processing, self.down = [], set(), set(), False

    def add(self, item):
        if self.down or item in self.dirty:
            return
        self.dirty.add(item)
        if item not in self.processing:
            self.queue.append(item)

    def get(self):
        """(item, False), (None, True) or None for blocking"""
        if self.queue:
            item = self.queue.pop(0)
            self.dirty.discard(item)
            self.processing.add(item)
            return item, False
        return (None, True) if self.down else None

    def done(self, item):
        self.processing.discard(item)
        if item in self.dirty:
            self.queue.append(item)


async def promptly(coro, what, problem):
    """Await something that must not block."""
    t = asyncio.ensure_future(coro)
    await asyncio.wait([t], timeout=1e-3)
    if not t.done():
        t.cancel()
        problem(f"{what} blocks")
        return None
    return t.result()

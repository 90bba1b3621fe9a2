"""Which tasks does a case leave behind? (Also when several cases share a loop.)"""
from vf.env import Violation

import asyncio
import contextvars

_owner = contextvars.ContextVar("owner", default=None)


class Mine:
    """The tasks started from here on by the calling task and those it starts."""

    def __init__(self):
        _owner.set(self)
        self.base = set(asyncio.all_tasks())

    async def left(self):
        await asyncio.sleep(1e-4)
        return [t for t in asyncio.all_tasks() if t not in self.base and not t.done() and t.get_context().get(_owner) is self]

    async def check(self, when):
        left = await self.left()
        if left:
            raise Violation(f"{when}, but these tasks run: {left}")


def nothing_left(main):
    """main, and no task is left running afterwards."""

    async def wrapped():
        mine = Mine()
        r = await main()
        await mine.check("everything was stopped")
        return r

    return wrapped

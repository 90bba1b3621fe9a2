"""Consumers of watch streams with generated behaviour."""
from vf.env import Violation, now, pause

import asyncio

from hypothesis import strategies as st


class Consumer:
    """Takes events from a watcher: waits[i] = [patience, hold] in 1/64 s; patience < 0: for ever.

    A consumer that loses patience gives up that wait (cancelling it) and asks again.
    """

    def __init__(self, watcher, waits, gate=None, limit=None):
        self.w, self.waits, self.gate, self.limit = watcher, waits, gate, limit
        self.got, self.taken, self.ended, self.gave_up = [], [], None, 0
        self.task = asyncio.ensure_future(self._run())

    async def _run(self):
        n = 0
        if self.gate is not None:
            await self.gate.wait()
        while self.limit is None or len(self.got) < self.limit:
            patience, hold = self.waits[n % len(self.waits)]
            n += 1
            try:
                if patience < 0 or n > 200:
                    e = await self.w.__anext__()
                else:
                    e = await asyncio.wait_for(self.w.__anext__(), patience / 64)
            except asyncio.TimeoutError:
                self.gave_up += 1
                await pause(hold)
                continue
            except StopAsyncIteration:
                self.ended = now()
                return
            self.got.append(e)
            self.taken.append(now())
            await pause(hold)

    def numbers(self):
        return [e["object"] for e in self.got]


async def finish(tasks, within, what):
    if not tasks:
        return
    await asyncio.wait(tasks, timeout=within)
    for t in tasks:
        if not t.done():
            raise Violation(f"{what} has not finished")
        t.result()


wait = st.tuples(st.sampled_from([-1, -1, -1, 0, 1, 5, 20]), st.sampled_from([-1, -1, 0, 1, 5, 40])).map(list)
waits = st.lists(wait, min_size=1, max_size=4)

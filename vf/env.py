"""Process environment: import paths, virtual clock, virtual-time event loop.

Must be imported before anything from aiok8s.
"""
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
# /repo must win over the editable-install finder and over anything else.
sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(VT_SITE)
    import hypothesis  # noqa: F401

import asyncio
import contextvars
import heapq
import logging
import math
import random
import signal
import time

logging.disable(logging.CRITICAL)

# ----------------------------------------------------------------- virtual clock
EPOCH = float(2**30)
_real_time, _real_monotonic = time.time, time.monotonic
_real_time_ns, _real_monotonic_ns = time.time_ns, time.monotonic_ns
_current = None  # the VLoop of the running case


skew_var = contextvars.ContextVar("skew", default=0.0)  # of the wall clock, as seen by a task and its children


def _vtime():
    return _real_time() if _current is None else _current.wall()


def _vmonotonic():
    return _real_monotonic() if _current is None else _current.time()


time.time = _vtime
time.monotonic = _vmonotonic
time.time_ns = lambda: _real_time_ns() if _current is None else int(_current.wall() * 10**9)
time.monotonic_ns = (
    lambda: _real_monotonic_ns() if _current is None else int(_current.time() * 10**9)
)


class Violation(Exception):
    """The property does not hold for the case being run."""


class HarnessError(Exception):
    """The machinery itself is at fault; never reported as a violation."""


class Stuck(Exception):
    """Deadlock or livelock of the virtual loop."""


class CpuHang(KeyboardInterrupt):
    """A single case burnt its CPU budget (endless loop without yielding)."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        if timeout == 0 or timeout is not None and timeout < 0:
            loop.idle_steps += 1
            if loop.idle_steps > loop.max_idle_steps:
                raise Stuck("livelock: callbacks keep running without time passing")
            return ()
        if timeout is None:
            raise Stuck("deadlock: nothing is runnable and no timer is pending")
        when = loop._scheduled[0]._when
        if when > loop._vt:
            if when - loop._vt > 1e-6:
                loop.idle_steps = 0
            else:
                loop.idle_steps += 1
                if loop.idle_steps > loop.max_idle_steps:
                    raise Stuck("livelock: callbacks keep running without time passing")
            loop._vt = when
            loop._clock_resolution = math.ulp(when)  # run exactly the timers that are due
            loop.jumps += 1
            if when > loop.max_time or loop.jumps > loop.max_jumps:
                raise Stuck("livelock: virtual time budget exhausted")
        return ()

    def close(self):
        pass


class VLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, max_time=5e6, max_idle_steps=200_000, max_jumps=400_000):
        super().__init__()
        self._vt = 0.0
        self._clock_resolution = math.ulp(0.0)
        self.rate = 1.0  # of the wall clock
        self.skew = 0.0  # added to the wall clock only (time.time)
        self.idle_steps = 0
        self.jumps = 0
        self.max_time = max_time
        self.max_idle_steps = max_idle_steps
        self.max_jumps = max_jumps
        self._selector = _Selector(self)
        self.unhandled = []
        self.step_hook = None
        self.set_exception_handler(self._on_exception)

    def _run_once(self):
        super()._run_once()
        if self.step_hook is not None:
            self.step_hook()

    def _on_exception(self, loop, context):
        exc = context.get("exception")
        if exc is not None and len(self.unhandled) < 50:
            self.unhandled.append(exc)

    def time(self):
        return self._vt

    def wall(self):
        return EPOCH + self._vt * self.rate + self.skew + skew_var.get()

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass


CPU_LIMIT = float(os.environ.get("VF_CPU_LIMIT", "15"))


MEMORY_LIMIT = 2.5e9  # bytes a case makes the process hold: more is work that never ends
TICK = 0.25
_budget = 0.0
_held_before = 0


def _arm():
    global _budget, _held_before
    _budget = CPU_LIMIT
    _held_before = _held()
    signal.setitimer(signal.ITIMER_VIRTUAL, min(TICK, CPU_LIMIT), TICK)


def _held():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def _on_alarm(signum, frame):
    global _budget
    _budget -= TICK
    if _budget <= 0 or _held() - _held_before > MEMORY_LIMIT:
        signal.setitimer(signal.ITIMER_VIRTUAL, 2, 2)  # the code under test may swallow this one
        raise CpuHang()


class _Captured(BaseException):
    pass


_capture = None


def together(run, cases):
    """Run cases side by side in one loop, as if each were alone: instances must not affect each other."""
    global _capture
    _capture = mains = []
    try:
        for c in cases:
            try:
                run(c)
            except _Captured:
                continue
            raise HarnessError("runs nothing in a loop, can't run side by side")
    finally:
        _capture = None
    loop_args = {}
    for _, _, _, a in mains:
        for k, v in a.items():
            loop_args[k] = max(loop_args.get(k, v), v)

    async def both():
        tasks = [asyncio.ensure_future(main(*args)) for main, args, _, _ in mains]
        try:
            return await asyncio.gather(*tasks)
        except Stuck:
            raise
        except Exception as e:
            raise Violation(f"side by side with another: {e or repr(e)}") from e

    return vrun(both, seed=mains[0][2], **loop_args)


def vrun(main, *args, seed=0, **loop_args):
    """Run `await main(*args)` on a fresh virtual-time loop; return its result."""
    global _current
    if _capture is not None:
        _capture.append((main, args, seed, loop_args))
        raise _Captured()
    random.seed(seed)
    loop = VLoop(**loop_args)
    prev_handler = signal.signal(signal.SIGVTALRM, _on_alarm)
    _current = loop
    asyncio.set_event_loop(loop)
    try:
        _arm()
        return loop.run_until_complete(main(*args))
    finally:
        _arm()
        try:
            _cleanup(loop)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, prev_handler)
            asyncio.set_event_loop(None)
            _current = None
            loop._closed = True


def _cleanup(loop):
    # Cancel whatever is left so that nothing outlives the case. Failures here are not judged.
    loop.idle_steps = 0
    loop.step_hook = None
    loop.max_time = loop._vt + 10_000
    loop.max_idle_steps = 20_000
    try:
        for _ in range(3):
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not tasks:
                break
            for t in tasks:
                t.cancel()

            async def drain():
                await asyncio.wait(tasks, timeout=200)

            loop.run_until_complete(drain())
    except (Stuck, CpuHang):
        pass
    loop._ready.clear()
    loop._scheduled.clear()


def now():
    return asyncio.get_running_loop().time()


async def settle():
    """Let everything runnable at this instant run (a hair of virtual time passes)."""
    await asyncio.sleep(1e-5)


def each_step(fn):
    """Call fn after every step of the running loop (None: no longer)."""
    asyncio.get_running_loop().step_hook = fn


async def pause(d):
    """Generated delay: negative = no yield, 0 = one scheduling step, n>0 = n/64 s."""
    if d < 0:
        return
    await asyncio.sleep(d / 64 if d else 0)


class Ctx:
    """Collects violations raised where the library might swallow exceptions."""

    def __init__(self):
        self.problems = []
        self.labels = set()

    def fail(self, msg):
        if len(self.problems) < 20:
            self.problems.append(msg)

    def check(self, cond, msg, *args):
        if not cond:
            self.fail(msg.format(*args) if args else msg)

    def label(self, *names):
        self.labels.update(names)

    def raise_if_any(self):
        if self.problems:
            raise Violation(self.problems[0])

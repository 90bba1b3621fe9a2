"""C41: backoff follows its parameters exactly; retries make the promised attempts."""
from vf.env import Violation, now, pause, vrun
from vf.gen import weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.util import retry, wait

RULE = (
    "step: a backoff with generated parameters is stepped and compared with a reference. retry: a condition with a "
    "generated pattern of results, exceptions and durations is retried over virtual time. jitter: generated durations "
    "and factors. Non-trivial: step: growth or the cap showed; retry: at least two attempts."
)
ASSUMPTIONS = ["after the last attempt the failure may be reported up to one more wait later (when the cap is reached)"]


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9)


def within(got, base, jitter, eps=1e-12):
    """base plus jitter in [0, jitter * base)"""
    eps += 1e-9 * base
    return base - eps <= got <= base + jitter * base + eps


def build(b):
    kw = {k: v for k, v in b.items() if k == "steps" or v or b["steps"] % 2}  # defaults left out in half the cases
    return wait.Backoff(**kw)


class Ref:
    def __init__(self, b):
        self.__dict__.update(b)

    def step(self):
        """the duration before jitter"""
        d = self.duration
        if self.steps < 1:
            return d
        self.steps -= 1
        if self.factor:
            self.duration = d * self.factor
            if self.cap and self.duration > self.cap:
                self.duration, self.steps = self.cap, 0
        return d


def run_step(case):
    def body():
        b, ref = build(case["backoff"]), Ref(case["backoff"])
        seen, bare = [], []
        for i in range(case["n"]):
            want = ref.step()
            got = b.step()
            seen.append(want)
            if ref.jitter > 1e-3 and want > 1e-3:
                bare.append(got <= want)
            if not within(got, want, ref.jitter):
                raise Violation(f"step {i} gives {got}, expected {want} with jitter {ref.jitter}; {case['backoff']}")
            if b.steps != ref.steps or not near(b.duration, ref.duration):
                raise Violation(f"after step {i}: {b.steps} steps, duration {b.duration}; expected {ref.steps}, {ref.duration}")
        if len(bare) >= 3 and any(bare[i] and bare[i + 1] and bare[i + 2] for i in range(len(bare) - 2)):
            raise Violation(f"no jitter although it is {ref.jitter}")
        return len(set(seen)) > 1, set()

    async def main():
        return body()

    return vrun(main, seed=case["seed"])


class Boom(Exception):
    pass


def run_retry(case):
    async def main():
        b = retry.default_retry if case["default"] else build(case["backoff"])
        params = dict(b.__dict__)
        if case["default"] and params != dict(steps=5, duration=0.01, factor=1, jitter=0.1, cap=0):
            raise Violation(f"the default retry is {params}")
        ref = Ref(params)
        ends, starts, calls = [], [], []

        async def condition():
            n = len(calls)
            calls.append(n)
            starts.append(now())
            r, d = case["results"][n] if n < len(case["results"]) else ["false", -1]
            await pause(d)
            ends.append(now())
            if r == "raise":
                raise Boom()
            if r == "timeout":
                raise TimeoutError("from the condition")
            return {"true": True, "false": False, "one": 1, "none": None}[r]

        t = asyncio.ensure_future(wait.exponential_backoff(b, condition))
        await asyncio.wait([t], timeout=1e8)
        if not t.done():
            raise Violation("retrying never ends")
        finished = now()
        if dict(b.__dict__) != params:
            raise Violation(f"the backoff was changed from {params} to {b.__dict__}")
        # reference
        n, outcome = 0, "exhausted"
        waits = []
        while ref.steps > 0:
            r = case["results"][n][0] if n < len(case["results"]) else "false"
            n += 1
            if r in ("true", "one"):
                outcome = "success"
                break
            if r in ("raise", "timeout"):
                outcome = r
                break
            if ref.steps == 1:
                break
            waits.append(ref.step())
        if len(calls) != n:
            raise Violation(f"{len(calls)} attempts, expected {n}; {params}")
        for i in range(1, n):
            if not within(starts[i] - ends[i - 1], waits[i - 1], ref.jitter, 1e-6):
                raise Violation(f"waited {starts[i] - ends[i - 1]} after attempt {i}, expected {waits[i - 1]}; {params}")
        e = t.exception()
        good = {"success": e is None, "raise": isinstance(e, Boom), "timeout": type(e) is TimeoutError,
                "exhausted": isinstance(e, wait.WaitTimeoutError)}[outcome]
        if not good:
            raise Violation(f"outcome {outcome} is reported as {e!r}")
        last = waits[n - 1] * (1 + ref.jitter) if outcome == "exhausted" and len(waits) >= n and n else 0
        if ends and finished > ends[-1] + last * (1 + 1e-9) + 1e-3:
            raise Violation(f"finished {finished - ends[-1]} s after the last attempt")
        return n > 1, {outcome}

    return vrun(main, max_time=1e9, seed=case["seed"])


def run_jitter(case):
    async def main():
        d, f = case["d"], case["f"]
        got = [wait.jitter(d, f) for _ in range(60)]
        eff = f if f > 0 else 1
        for g in got:
            if g < d or g > d + eff * d * (1 + 1e-9) + 1e-300:
                raise Violation(f"jitter({d}, {f}) gives {g}")
        if d > 1e-3 and eff > 1e-3 and len(set(got)) < 5:
            raise Violation(f"jitter({d}, {f}) hardly varies: {got}")
        if d > 1e-3 and eff > 1e-3 and not min(got) < d * (1 + eff / 2) < max(got):
            raise Violation(f"jitter({d}, {f}) keeps to a half of its range: {min(got)} to {max(got)}")
        return d > 0, set()

    return vrun(main, seed=case["seed"])


dur = st.one_of(st.sampled_from([0, 1, 0.01, 0.5]), st.floats(1e-4, 100), st.integers(0, 50))
backoffs = st.fixed_dictionaries(dict(
    steps=st.one_of(st.integers(0, 8), st.integers(-2, 20)), duration=dur,
    factor=st.one_of(st.sampled_from([0, 1, 2, 1.5, 0.5]), st.floats(0.1, 5)),
    jitter=st.one_of(st.sampled_from([0, 0, 0.1, 1, 2]), st.floats(0, 3)),
    cap=st.one_of(st.just(0), st.just(0), st.floats(0.01, 500), st.integers(1, 30))))
seeds = st.integers(0, 10**6)
results = st.lists(st.tuples(weighted((6, st.just("false")), (1, st.just("none")), (1, st.just("true")), (1, st.just("one")),
                                      (1, st.just("raise")), (1, st.just("timeout"))),
                             st.sampled_from([-1, -1, 0, 5, 64])).map(list), max_size=20)

TESTS = [
    Test("step", st.fixed_dictionaries(dict(backoff=backoffs, n=st.integers(1, 25), seed=seeds)), run_step, quick=3000, thorough=150_000),
    Test("retry", st.fixed_dictionaries(dict(backoff=backoffs.map(lambda b: dict(b, steps=min(b["steps"], 7))), default=st.sampled_from([False] * 5 + [True]), results=results, seed=seeds)),
         run_retry, quick=2000, thorough=100_000),
    Test("jitter", st.fixed_dictionaries(dict(d=dur, f=st.floats(-2, 5), seed=seeds)), run_jitter, quick=500, thorough=20_000),
]

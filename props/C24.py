"""C24: the bucket limiter never exceeds burst plus rate and never over-delays; combinations take the largest."""
from vf.env import Violation, vrun
from vf.gen import history, weighted
from vf.runner import Test

import asyncio

from hypothesis import strategies as st

from aiok8s.workqueue import default_rate_limiters as rl

MaxOf = type(rl.default_controller_rate_limiter())

RULE = (
    "bucket: a rate, a burst and arrival times (bursts, steady streams, long gaps, a wall clock set back); delays are "
    "compared with a token-bucket reference and every window of performed requests is counted. combined: a "
    "combination of generated limiters against copies of its members. Non-trivial: some request was delayed and some "
    "later one was not, or two members differed."
)
ASSUMPTIONS = ["the bucket could have filled up between the epoch of the wall clock and the first request"]


def run_bucket(case):
    async def main():
        loop = asyncio.get_running_loop()
        rate, burst = case["rate"], case["burst"]
        for bad in ((0, burst), (-1, burst), (rate, 0)):
            try:
                rl.BucketRateLimiter(*bad)
            except ValueError:
                continue
            raise Violation(f"BucketRateLimiter{bad} is accepted")
        b = rl.BucketRateLimiter(rate, burst)
        tokens, last = float(burst), loop.wall()
        performed = []  # loop times (without clock changes)
        delayed, free_after = False, False
        eps = 1e-5 + 1e-4 / rate
        back, skew = False, loop.skew
        for i, (gap, n) in enumerate(case["arrivals"]):
            if gap < 0:
                loop.skew += gap  # the wall clock is set back
                back = True
            else:
                await asyncio.sleep(gap)
            for k in range(n):
                t = loop.wall()
                tokens = min(tokens + max(t - last, 0) * rate, burst)
                last = t
                tokens -= 1
                want = max(-tokens / rate, 0)
                got = b.when((i, k))
                if abs(got - want) > eps + 1e-9 * abs(want):
                    raise Violation(f"request {k} of arrival {i} is delayed by {got}, the bucket's shortfall is {want}")
                if got < 0:
                    raise Violation(f"negative delay {got}")
                performed.append(t + got)
                if b.num_requeues((i, k)) != 0:
                    raise Violation("requeue count of a bucket is not zero")
                delayed |= got > 0
                free_after |= delayed and got == 0
                if k % 7 == 3:
                    b.forget((i, k))
        if loop.skew == skew:  # side by side, another may have set it back
            performed.sort()
            n = len(performed)
            for i in range(n):
                for j in range(i + 1, min(n, i + 400)):
                    span = performed[j] - performed[i]
                    if j - i + 1 > burst + rate * span + 1e-3 * (1 + rate * eps):
                        raise Violation(f"{j - i + 1} requests within {span} s; rate {rate}, burst {burst}")
        return delayed and free_after, {"set_back"} if back else set()

    return vrun(main, max_time=1e12)


def build(spec):
    if spec[0] == "bucket":
        return rl.BucketRateLimiter(spec[1], spec[2])
    if spec[0] == "exp":
        return rl.ItemExponentialFailureRateLimiter(spec[1], spec[2])
    if spec[0] == "default":
        return rl.default_controller_rate_limiter()
    return MaxOf(*[build(s) for s in spec[1]])


def flat(spec):
    if spec[0] == "default":
        return [["exp", 0.005, 1000], ["bucket", 10, 100]]
    if spec[0] == "max":
        return [x for s in spec[1] for x in flat(s)]
    return [spec]


def run_combined(case):
    async def main():
        m = build(case["spec"])
        members = [build(s) for s in flat(case["spec"])]
        differ = False
        for op, item, x in case["ops"]:
            if op == "when":
                for _ in range(x):
                    ds = [l.when(item) for l in members]
                    differ |= len(set(ds)) > 1
                    got = m.when(item)
                    if abs(got - max(ds)) > 1e-4:
                        raise Violation(f"delay is {got}, members say {ds}")
            elif op == "forget":
                m.forget(item)
                for l in members:
                    l.forget(item)
            else:
                await asyncio.sleep(x / 8)
            for i in range(3):
                want = max(l.num_requeues(i) for l in members)
                if m.num_requeues(i) != want:
                    raise Violation(f"requeue count of {i} is {m.num_requeues(i)}, expected {want}")
        return differ, {case["spec"][0]}

    return vrun(main, max_time=1e7)


rates = st.one_of(st.sampled_from([1, 10, 0.5, 100, 3]), st.floats(0.05, 1000))
gaps = st.one_of(st.just(0), st.floats(0, 0.3), st.floats(0, 3), st.floats(0, 100), st.just(1e5))
cases = st.fixed_dictionaries(dict(
    rate=rates, burst=st.one_of(st.integers(1, 5), st.integers(1, 60)),
    arrivals=history(st.tuples(weighted((6, gaps), (1, st.sampled_from([-0.5, -10.0]))),
                               st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 40))).map(list), 25)))
leaf = st.one_of(
    st.tuples(st.just("bucket"), st.sampled_from([1, 10, 0.5]), st.integers(1, 6)).map(list),
    st.tuples(st.just("exp"), st.sampled_from([0.005, 0.5, 1]), st.sampled_from([1, 20, 1000])).map(list),
    st.just(["default"]))
spec = st.one_of(
    st.just(["default"]),
    st.lists(leaf, min_size=1, max_size=3).map(lambda x: ["max", x]),
    st.lists(st.one_of(leaf, st.lists(leaf, min_size=1, max_size=2).map(lambda x: ["max", x])), min_size=1, max_size=3)
    .map(lambda x: ["max", x]))
c_op = weighted(
    (6, st.tuples(st.just("when"), st.integers(0, 2), st.one_of(st.integers(1, 3), st.integers(1, 120))).map(list)),
    (2, st.tuples(st.just("forget"), st.integers(0, 2), st.just(0)).map(list)),
    (2, st.tuples(st.just("wait"), st.just(0), st.integers(0, 100)).map(list)),
)
combined_cases = st.fixed_dictionaries(dict(spec=spec, ops=history(c_op, 20)))

TESTS = [Test("bucket", cases, run_bucket, quick=1200, thorough=60_000),
         Test("combined", combined_cases, run_combined, quick=1000, thorough=60_000)]

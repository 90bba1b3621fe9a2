"""C23: per-item backoff doubles per failure up to the cap and resets on forget."""
from vf.env import Violation
from vf.gen import history, weighted
from vf.runner import Test

from fractions import Fraction

from hypothesis import strategies as st

from aiok8s.workqueue import default_rate_limiters as rl

RULE = (
    "A case is a base and a maximal delay and a history of whens (also long runs of up to several thousand), forgets "
    "and count queries over several items, compared with exact rational arithmetic. Non-trivial: two items were used "
    "and one was forgotten after a failure, or an item failed more than 1100 times."
)


def delay(base, cap, n):
    """n-th delay (from 0), exactly."""
    if n > 3000:
        return cap if base > 0 else 0
    return min(Fraction(base) * 2 ** n, Fraction(cap))


def run(case):
    base, cap = case["base"], case["cap"]
    limiter = rl.ItemExponentialFailureRateLimiter(base, cap)
    count, crowd = {}, {}
    used, forgot, long, crowded = set(), False, False, False
    for op, item, n in case["ops"]:
        key = ITEMS[item]
        if op == "when":
            for i in range(n):
                want = delay(base, cap, count.get(item, 0))
                got = limiter.when(key)
                if got != got or abs(Fraction(got) - want) > Fraction(1, 10**9) * abs(want):
                    raise Violation(f"delay {count.get(item, 0) + 1} is {got}, expected {float(want)}")
                count[item] = count.get(item, 0) + 1
            used.add(item)
            long |= count[item] > 1100
        elif op == "crowd":
            # many other items fail, and most are forgotten again
            for i in range(n):
                want, got = delay(base, cap, crowd.get(i, 0)), limiter.when(("crowd", i))
                if abs(Fraction(got) - want) > Fraction(1, 10**9) * abs(want):
                    raise Violation(f"delay {crowd.get(i, 0) + 1} of one of {n} items is {got}, expected {float(want)}")
                crowd[i] = crowd.get(i, 0) + 1
            for i in range(item, n, 5):
                limiter.forget(("crowd", i))
                crowd.pop(i)
            crowded = True
        elif op == "forget":
            forgot |= count.get(item, 0) > 0
            limiter.forget(key)
            count.pop(item, None)
        for i in range(len(ITEMS)):
            if limiter.num_requeues(ITEMS[i]) != count.get(i, 0):
                raise Violation(f"requeue count of {ITEMS[i]!r} is {limiter.num_requeues(ITEMS[i])}, "
                                f"expected {count.get(i, 0)}")
    for i, n in crowd.items():
        if limiter.num_requeues(("crowd", i)) != n:
            raise Violation(f"requeue count of one of many is {limiter.num_requeues(('crowd', i))}, expected {n}")
    return long or len(used) > 1 and forgot, ({"long"} if long else set()) | ({"crowd"} if crowded else set())


ITEMS = [0, "a", ("ns", "a"), ("ns", "b"), None]
op = weighted(
    (6, st.tuples(st.just("when"), st.integers(0, 4), st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 40))).map(list)),
    (2, st.tuples(st.just("forget"), st.integers(0, 4), st.just(0)).map(list)),
    (1, st.tuples(st.just("crowd"), st.integers(0, 4), st.sampled_from([3, 10, 33, 150, 1100])).map(list)),
)
long_op = weighted((1, op), (1, st.tuples(st.just("when"), st.integers(0, 1), st.integers(1000, 2500)).map(list)))
positive = st.one_of(st.integers(1, 100), st.floats(1e-6, 1e4, allow_nan=False), st.sampled_from([0.005, 1, 1e-3]))
caps = st.one_of(st.integers(1, 100000), st.floats(1e-6, 1e9, allow_nan=False), st.sampled_from([1000, 60]))
cases = st.fixed_dictionaries(dict(base=positive, cap=caps, ops=history(op, 25)))
long_cases = st.fixed_dictionaries(dict(base=positive, cap=caps, ops=st.lists(long_op, min_size=1, max_size=5)))

ALONE = ["backoff", "long"]
TESTS = [Test("backoff", cases, run, quick=2500, thorough=150_000),
         Test("long", long_cases, run, quick=200, thorough=10_000)]

"""C60: at most one candidate leads at a time."""
from vf.env import Violation, now, vrun
from vf.election import EPS, World, worlds
from vf.runner import Test

from hypothesis import strategies as st

from aiok8s.leaderelection import leaderelection

RULE = (
    "A case is one to four candidates with generated timings, skewed clocks and several lives each (ending by "
    "cancellation or crash, restarting under the same or a new identity), on a plain versioned lock or on the config-map "
    "lock over the real API client, with request latencies, refused, hanging, lost and late requests and outages per "
    "candidate. Lease durations exceed the largest renew deadline plus retry period, latency and cleanup time, often by "
    "three hundredths of a retry period only. Non-trivial: the lock changed hands. The second test generates "
    "configurations, which must be refused if they cannot guarantee the property."
)
ASSUMPTIONS = [
    "lock writes are conditional on the version read",
    "clocks may differ by any amount but run at the same rate and do not jump",
    "the lease duration of every candidate exceeds renew deadline plus retry period of every other plus the request "
    "latency and the time work takes to end when cancelled",
    "no two candidates running at the same time have the same identity; run() is cancelled once",
    "nobody else writes or deletes the lock",
]


class Checked(World):
    def starting(self, life):
        if self.leading:
            raise_later(self, f"{life} starts leading at {now()} while {self.leading} leads")

    def written(self, life, previous, record):
        holder = (previous or {}).get("holderIdentity")
        if holder and holder != record.get("holderIdentity"):
            if holder == life.identity:
                self.labels.add("released")
                return
            self.labels.add("taken_over")
            # the version replaced
            version = self.server.log[-2][3]
            # nobody can tell a record from the same one written once more
            same = [v for _, _, r, v in self.server.log[:-1] if r == self.server.log[-2][2]]
            seen = min((life.elector.observed[v] for v in same if v in life.elector.observed), default=None)
            if seen is None or now() < seen + life.conf["lease"] - 1e-6:
                raise_later(self, f"{life} took the lock of {holder} over at {now()}, having first seen version {version} at "
                                  f"{seen}; its lease duration is {life.conf['lease']}")
        elif holder != record.get("holderIdentity"):
            self.labels.add("taken_free")

    def deadline(self, life):
        return life.last_success + life.conf["retry"] + life.conf["renew"]

    def stopped(self, life):
        if not life.starts:
            return
        if life.cancelled_at is None:
            self.labels.add("renewal_failed")
            if now() > self.deadline(life) + EPS:
                raise_later(self, f"{life} stopped at {now()}, after its renew deadline {self.deadline(life)}")

    def tick(self):
        if self.violation:
            raise Violation(self.violation)
        for l in self.leading:
            if l.cancelled_at is not None:
                limit = l.cancelled_at
            else:
                limit = self.deadline(l)
            limit += EPS
            if not l.stops and now() > limit:
                raise Violation(f"{l} has not stopped leading at {now()}, it had to by {limit}")
            if l.work_cancelled is None and l.work_ended is None and now() > limit:
                raise Violation(f"the work of {l} has not been cancelled at {now()}, it had to by {limit}")

    def finish(self):
        if self.violation:
            raise Violation(self.violation)


def raise_later(world, what):
    world.violation = world.violation or what


def run(case):
    async def main():
        w = Checked(case)
        w.violation = None
        await w.run()
        return "taken_over" in w.labels or "released" in w.labels, w.labels

    return vrun(main, seed=case["seed"])


def run_config(case):
    lease, renew, retry, missing = case["lease"], case["renew"], case["retry"], case["missing"]

    class Lock:
        def identity(self):
            return "me"

        def describe(self):
            return "lock"

    async def f(*args):
        pass

    bad = lease <= renew or renew <= 1.2 * retry or min(lease, renew, retry) <= 0 or missing in ("started", "stopped", "lock")
    if missing not in ("started", "stopped", "lock") and min(lease, renew, retry) > 0:
        if abs(renew - 1.2 * retry) < 1e-9 * (renew + retry) and renew != 1.2 * retry:
            return False, ()  # rounding
    config = leaderelection.LeaderElectionConfig(
        lock=None if missing == "lock" else Lock(),
        callbacks=leaderelection.LeaderCallbacks(
            None if missing == "started" else f, None if missing == "stopped" else f, None if missing == "new" else f),
        name="x", lease_duration=lease, renew_deadline=renew, retry_period=retry)
    try:
        leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
            lock=Lock(), callbacks=leaderelection.LeaderCallbacks(f, f, f), name="x"))
    except Exception as e:
        raise Violation(f"refused the default durations: {e!r}")
    try:
        leaderelection.LeaderElector(config)
    except Exception as e:
        if not bad:
            raise Violation(f"refused lease {lease}, renew deadline {renew}, retry period {retry}, missing {missing}: {e!r}")
        return True, {"refused"}
    if bad:
        raise Violation(f"accepted lease {lease}, renew deadline {renew}, retry period {retry}, missing {missing}")
    return True, {"accepted"}


number = st.one_of(st.integers(-2, 40), st.floats(-1, 60), st.sampled_from([0, 15, 10, 2, 12]))
configs = st.one_of(
    st.fixed_dictionaries(dict(lease=number, renew=number, retry=number,
                               missing=st.sampled_from([None, None, "new", "started", "stopped", "lock"]))),
    st.builds(lambda retry, a, b, missing: dict(retry=retry, renew=retry * a, lease=retry * a * b, missing=missing),
              st.floats(0.01, 20), st.sampled_from([0.9, 1.1, 1.19, 1.21, 1.3, 3]), st.sampled_from([0.5, 1, 1.01, 1.1, 2]),
              st.sampled_from([None, None, None, None, "new", "new", "started", "stopped", "lock"])))

ALONE = ["config"]
TESTS = [Test("exclusion", worlds(), run, quick=700, thorough=30_000),
         Test("config", configs, run_config, quick=500, thorough=5_000)]

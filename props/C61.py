"""C61: leadership is acquired, kept, handed over and reported."""
from vf.apiserver import Api
from vf.env import EPOCH, HarnessError, Violation, now, vrun
from vf.election import EPS, KEY, World, worlds
from vf.runner import Test

import asyncio
import json

from hypothesis import strategies as st
from kubernetes_asyncio import client

from aiok8s.leaderelection import leaderelection, resourcelock

RULE = (
    "Cases are as for C60, with and without faults. After every write, callback and tick of a quarter of the shortest "
    "retry period the history is judged: who leads, what was reported, and the record's holder, acquisition time and "
    "transition count; callbacks may raise. scribbled: records that are no records found at first, and for a while during a leadership. "
    "Non-trivial: leadership changed at least once after the first leader, or a leader renewed over at "
    "least three retry periods."
)
ASSUMPTIONS = [
    "as for C60",
    "liveness is judged for candidates that have been without fault since a stated moment",
    "falsy identities reported as new leader (a released lock) are neither required nor refused",
    "a leader cancelled while one of its writes is in flight may fail to release the lock, as may one whose last "
    "write had no reply: the release may conflict",
    "records that another reading could take as free or held (null, a null or text transition count) may be used or not",
]


class Checked(World):
    violation = None

    def fail(self, what):
        self.violation = self.violation or f"at {now()}: {what}"

    # ---- the record
    def written(self, life, previous, record):
        me = life.identity
        previous = previous or {}
        before, after = previous.get("holderIdentity"), record.get("holderIdentity")
        bound = 3 * self.latency + EPS
        self.last_change = now() if before != after else self.last_change
        if not after:
            if not life.conf["release"]:
                self.fail(f"{life} released the lock, which it should not")
            if life.cancelled_at is None and not life.stops:
                self.fail(f"{life} released the lock before the end")
            if not life.dead and life in self.leading and life.work_ended is None:
                self.fail(f"{life} released the lock while it leads")
            if before != me:
                self.fail(f"{life} released the lock held by {before}")
            if record.get("leaderTransitions", 0) != previous.get("leaderTransitions", 0):
                self.fail(f"{life} changed the transitions when releasing: {previous} to {record}")
            self.labels.add("released")
            return
        if after != me:
            self.fail(f"{life} wrote the holder {after}")
        # late requests were made some time ago
        since = life.started_at if life.faults else now() - bound
        for k in ("renewTime",) if before == after else ("renewTime", "acquireTime"):
            t = record.get(k)
            if t is None or not since - 1e-6 <= t - EPOCH - life.conf["skew"] <= now() + 1e-6:
                self.fail(f"{life} wrote the {k} {t}, previous {previous}")
        if before == after:
            if "acquireTime" in previous and record.get("acquireTime") != previous["acquireTime"]:
                self.fail(f"{life} changed the acquire time when renewing: {previous} to {record}")
            if record.get("leaderTransitions", 0) != previous.get("leaderTransitions", 0):
                self.fail(f"{life} changed the transitions when renewing: {previous} to {record}")
            self.labels.add("renewed")
        elif before or previous:
            self.labels.add("changed_hands" if before else "taken_free")
            if record.get("leaderTransitions", 0) != previous.get("leaderTransitions", 0) + 1:
                self.fail(f"{life} took the lock over with the transitions of {previous} becoming {record}")

    last_change = 0.0

    # ---- callbacks
    def starting(self, life):
        if len(life.starts) > 1:
            self.fail(f"{life} called on_started_leading again")
        if life.last_success is None:
            self.fail(f"{life} starts leading without having acquired the lock")
        if life.stops:
            self.fail(f"{life} starts leading after having stopped")
        if life.cancelled_at is None and not life.elector.real.is_leader():
            self.fail(f"is_leader() of {life} is false although it leads")
        self.terms += 1

    terms = 0

    def stopped(self, life):
        if len(life.stops) > 1:
            self.fail(f"{life} called on_stopped_leading again")
        if life.cancelled_at is None:
            if not life.starts:
                self.fail(f"{life} stopped without having been cancelled or led")
                return
            holder = (self.server.record or {}).get("holderIdentity")
            if holder == life.identity and now() < life.last_success + life.conf["renew"] - EPS:
                self.fail(f"{life} stopped leading although it renewed the lock at {life.last_success}")
        self.stopping = life

    def ended(self, life, task):
        if len(life.stops) != 1:
            self.fail(f"{life} ended with {len(life.stops)} calls of on_stopped_leading")
            return
        if life.cancelled_at is not None and life.stops[0] < life.cancelled_at:
            return  # cancelled while stopping
        if len(life.stop_ends) != 1:
            self.fail(f"{life} ended before on_stopped_leading had")
        if life.starts and life.work_ended is None:
            self.fail(f"{life} ended before its work had")
        if life.cancelled_at is None:
            if task.cancelled() or task.exception() is not life.stop_error:
                self.fail(f"{life} ended as {task!r}")
            return
        if not task.cancelled() and (life.stop_error is None or task.exception() is not life.stop_error):
            self.fail(f"{life} was cancelled but ended as {task!r}")
        if life.faults != life.faults_at_cancel or life.fault_end_at_cancel > life.cancelled_at:
            return
        cleanup, slow = ((max(x, 0) + 1) / 64 for x in (life.conf["work"][2], life.conf["slow_stop"]))
        limit = life.cancelled_at + cleanup + slow + 2 * self.latency + EPS
        if now() > limit:
            self.fail(f"{life} took until {now()} to end, it had to by {limit}")
        if (life.conf["release"] and life.leading_at_cancel and not life.write_in_flight_at_cancel
                and (life.last_success > life.fault_end or not life.faults)):
            record = self.server.record or {}
            if record.get("holderIdentity") == life.identity:
                self.fail(f"{life} left the lock {record} unreleased")
            self.labels.add("release_required")

    # ---- liveness
    def tick(self):
        if self.violation:
            raise Violation(self.violation)
        t = now()
        for l in self.lives:
            if not l.looked and not l.dead and l.run_ended is not None and t > max(l.run_ended, l.work_ended or 0) + EPS \
                    and not (l.starts and l.work_ended is None):
                l.looked = True
                left = self.left(l)
                if left:
                    raise Violation(f"{l} has ended, but these tasks run at {t}: {left}")
        record = self.server.record or {}
        holder = record.get("holderIdentity")
        last_write = self.server.log[-1][0] if self.server.log else 0.0
        request = 2 * self.latency  # get and write
        for l in self.lives:
            if l.dead or l.run_ended is not None and not l.ending:
                continue
            conf = l.conf
            retry = 2.2 * conf["retry"]
            if l.ending:
                continue
            since = max(l.started_at, l.fault_end)
            if l.last_success is not None and not l.starts and t > l.last_success + EPS:
                raise Violation(f"{l} acquired the lock but does not lead at {t}")
            if conf["new_leader"] and holder and t > max(since, self.last_change) + retry + 2 * request + EPS:
                reported = [who for _, who in l.elector.reported if who]
                if reported[-1:] != [holder]:
                    raise Violation(f"{l} reported the leaders {reported} by {t}; it is {holder} since {self.last_change}")
                self.labels.add("reported")
            if l.leading:
                limit = max(since, l.last_success) + conf["retry"] + 2 * request + EPS
                if t > limit and holder == l.identity:
                    raise Violation(f"{l} has not renewed the lock by {limit}")
                continue
            if self.leading:
                continue
            limit = max(since, last_write, self.last_lead_end) + retry + 2 * request + EPS
            if holder and holder != l.identity:
                limit += conf["lease"] + retry + 2 * request
            if t > limit:
                raise Violation(f"nobody leads at {t} although {l} should by {limit}; the record is {record}")
            self.labels.add("waiting_checked")

    def finish(self):
        if self.violation:
            raise Violation(self.violation)
        history = []  # holders with the time
        for t, life, record, version in self.server.log:
            who = record.get("holderIdentity")
            if not history or history[-1][1] != who:
                history.append((t, who))
        for e in {l.elector for l in self.lives}:
            reported = [(t, who) for t, who in e.reported if who]
            i = 0
            previous = None
            for t, who in e.reported:
                if who == previous:
                    raise Violation(f"new leaders were reported as {e.reported}")
                previous = who
            for t, who in reported:
                # a reported leader may have been observed again after others that were not
                while i < len(history) and history[i][1] != who:
                    i += 1
                if i == len(history) or history[i][0] > t:
                    raise Violation(f"new leaders were reported as {e.reported}, they were {history}")


def run(case):
    async def main():
        w = Checked(case)
        await w.run()
        steady = any(l.writes > 4 for l in w.lives)
        if steady:
            w.labels.add("kept_leading")
        if w.terms > 1:
            w.labels.add("several_terms")
        return steady or w.terms > 1, w.labels

    return vrun(main, seed=case["seed"])


# What somebody may have left in the place of a record. The first ones are no record by any reading.
UNUSABLE = ["5", '"x"', "{", "[[1]]", "true", "\u2603", "[1, 2]"]
ODD = UNUSABLE + ["null", "[]", "0", "[[]]", '{"leaderTransitions": null}', '{"leaderTransitions": "3"}',
                  '{"leaderTransitions": [1]}', '{"holderIdentity": 5}', '{"holderIdentity": {}}',
                  '{"holderIdentity": null, "acquireTime": "x"}']
GHOST = json.dumps(dict(holderIdentity="ghost", leaseDurationSeconds=15, renewTime=0, acquireTime=0, leaderTransitions=2))
USABLE = ["", "{}", None, '{"leaderTransitions": 3}', GHOST]


def run_scribbled(case):
    """Records that cannot be understood: they delay an acquisition, and shorter ones than the renew deadline do nothing."""
    conf = case["conf"]
    retry, renew, lease = conf
    at_most = 2.2 * retry + 0.1

    async def main():
        api = Api()

        def scribble(raw):
            have = api.maps["ns", "lock"]
            meta = dict(have["metadata"], annotations={} if raw is None else {KEY: raw})
            code, _ = api._config_map_now("PUT", "ns", "lock", dict(have, metadata=meta))
            if code != 200:
                raise HarnessError(f"could not scribble: {code}")

        api._config_map_now("POST", "ns", None, dict(metadata=dict(name="lock", annotations={KEY: case["before"][0][1]})))
        events = []
        leading = set()
        usable = None
        tasks = {}

        def candidate(who):
            async def started():
                if usable is not None:
                    leading.add(who)
                events.append((now(), who, "start"))
                try:
                    await asyncio.sleep(1e9)
                finally:
                    leading.discard(who)

            async def stopped():
                events.append((now(), who, "stop"))

            lock = resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity=who), client.ApiClient())
            return leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
                lock=lock, callbacks=leaderelection.LeaderCallbacks(started, stopped, None), name=who,
                lease_duration=lease, renew_deadline=renew, retry_period=retry))

        for who in "ab"[:case["candidates"]]:
            tasks[who] = asyncio.ensure_future(candidate(who).run())
            await asyncio.sleep(0.0137)

        def judge():
            for who, t in tasks.items():
                if t.done() and not any(e[1:] == (who, "start") for e in events):
                    raise Violation(f"candidate {who} gave up without having led, at a record it cannot use: {t!r}; {events}")

        for d, raw in case["before"]:
            scribble(raw)
            await asyncio.sleep(d * retry)
            judge()
        if any(t.done() for t in tasks.values()) or any(e[2] == "start" for e in events):
            return False, ["led early"]  # some would take the lock then
        usable = now()
        scribble(case["usable"])
        await asyncio.sleep(at_most + (lease + at_most if case["usable"] == GHOST else 0))
        judge()
        if len(leading) != 1:
            raise Violation(f"the record is {case['usable']!r} since {usable}, but by {now()} {leading} lead; {events}")
        who = min(leading)
        for gap, share, raw in case["during"]:
            await asyncio.sleep(gap * retry)
            have = api.maps["ns", "lock"]["metadata"]["annotations"][KEY]
            scribble(raw)
            # Up to two retries are missed, and the next one still meets the deadline.
            await asyncio.sleep(share * (renew - 2.1 * retry))
            judge()
            now_there = api.maps["ns", "lock"]["metadata"]["annotations"][KEY]
            if now_there == raw:
                scribble(have)
            elif json.loads(now_there).get("holderIdentity") != who:
                raise Violation(f"the lock held by {who} was taken: {now_there}")
            await asyncio.sleep(at_most)
            judge()
            if leading != {who}:
                raise Violation(f"the record was unusable for {share * (renew - 2.1 * retry)} of {renew}; {who} led, "
                                f"now {leading} do; {events}")
        for t in tasks.values():
            t.cancel()
        await asyncio.wait(tasks.values())
        return True, ["scribbled" if case["during"] else "delayed"]

    return vrun(main)


scribbled = st.fixed_dictionaries(dict(
    conf=st.sampled_from([(2, 10, 15), (1, 5, 7), (0.5, 3, 4)]), candidates=st.integers(1, 2),
    before=st.lists(st.tuples(st.sampled_from([0.31, 1.13, 2.9, 7.3]), st.sampled_from(ODD)), min_size=1, max_size=3),
    usable=st.sampled_from(USABLE),
    during=st.lists(st.tuples(st.sampled_from([0.23, 1.31, 4.7]), st.sampled_from([0.1, 0.5, 1.0]),
                              st.sampled_from(UNUSABLE)), max_size=3)))

ALONE = ["scribbled", "calm", "faulty"]
TESTS = [Test("scribbled", scribbled, run_scribbled, quick=300, thorough=5000),
         Test("calm", worlds(faulty=False), run, quick=500, thorough=15_000),
         Test("faulty", worlds(), run, quick=600, thorough=25_000)]

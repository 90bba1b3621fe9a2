"""Candidates of a leader election: real electors on a versioned lock with latencies, faults, crashes and restarts.

The lock is either a plain versioned record or the real config-map lock on the fake API server of vf.apiserver.
"""
import asyncio
import contextvars
import json

from hypothesis import strategies as st

from vf.env import EPOCH, HarnessError, now, pause, skew_var
from vf.apiserver import Api
from vf.failures import pick, variants
from vf.gen import history, weighted

from kubernetes_asyncio import client

from aiok8s.leaderelection import leaderelection, resourcelock

KEY = resourcelock.LEADER_ELECTION_RECORD_ANNOTATION_KEY
EPS = 0.02
life_var = contextvars.ContextVar("life", default=None)
reporting_var = contextvars.ContextVar("reporting", default=False)  # a new leader


class Conflict(Exception):
    pass


class Failed(Exception):
    pass


FAILURES = variants(Failed)


class Server:
    """The stored record, its version and history."""

    def __init__(self, world):
        self.world = world
        self.version, self.record = 0, None
        self.log = []  # (time, life or None, record, version)

    def write(self, life, record, condition):
        if condition != (None if self.record is None else self.version):
            raise Conflict(f"condition {condition}, version {self.version}")
        previous = self.record
        self.store(life, record)
        self.world.written(life, previous, record)

    def store(self, life, record):
        self.version += 1
        self.record = json.loads(json.dumps(record))
        self.log.append((now(), life, self.record, self.version))


class PlainLock:
    def __init__(self, world, identity):
        self.world, self._identity = world, identity
        self.seen = None

    def identity(self):
        return self._identity

    def describe(self):
        return "the lock"

    async def get(self):
        server = self.world.server
        version, record, raw = await self.world.request(
            "get", lambda life: (server.version, server.record, json.dumps(server.record)))
        if record is None:
            self.seen = None
            return None, None
        self.seen = version
        return json.loads(raw), raw

    async def create(self, record):
        self.seen = await self.write(record, None)

    async def update(self, record):
        if self.seen is None:
            raise Failed("update before get")
        self.seen = await self.write(record, self.seen)

    async def write(self, record, condition):
        server = self.world.server
        record = json.loads(json.dumps(record))

        def f(life):
            server.write(life, record, condition)
            return server.version

        return await self.world.request("write", f)


class Life:
    """One run of an elector."""

    def __init__(self, world, cand, elector, identity, conf):
        self.world, self.cand, self.elector, self.identity, self.conf = world, cand, elector, identity, conf
        self.started_at = now()
        self.dead = False
        self.cancelled_at = None
        self.stops = []  # when on_stopped_leading was called
        self.stop_ends = []
        self.stop_error = None  # what on_stopped_leading raised
        self.starts = []
        self.work_cancelled = None
        self.work_ended = None
        self.run_ended = None
        self.last_success = None  # when the reply to the last successful write naming it came
        self.writes = 0
        self.fault_end = self.started_at  # until when it was disturbed
        self.in_flight = 0  # write requests
        self.write_in_flight_at_cancel = False
        self.looked = False  # whether it left something running
        self.faults = 0

    @property
    def ending(self):
        return self.dead or self.cancelled_at is not None or bool(self.stops) or self.run_ended is not None

    @property
    def leading(self):
        return self in self.world.leading

    def __repr__(self):
        return (f"<{self.identity} run from {self.started_at} started {self.starts} stopped {self.stops} "
                f"cancelled {self.cancelled_at} dead {self.dead} last success {self.last_success}>")

    async def on_started(self):
        self.starts.append(now())
        self.work_ended = None
        self.world.start_leading(self)
        how, ticks, cleanup = self.conf["work"]
        try:
            if how == "wait":
                await asyncio.sleep(1e9)
            await pause(ticks)
            if how == "raise":
                raise pick(FAILURES, ticks)("work failed")
        except asyncio.CancelledError:
            self.work_cancelled = now()
            await pause(cleanup)
            raise
        finally:
            self.work_ended = now()
            self.maybe_end()

    async def on_stopped(self):
        self.stops.append(now())
        if not self.dead:
            self.world.stopped(self)
        self.maybe_end()
        await pause(self.conf["slow_stop"])
        self.stop_ends.append(now())
        if self.conf["stop_fails"]:
            self.world.labels.add("stop_failed")
            self.stop_error = pick(FAILURES, len(self.world.lives))("on_stopped_leading failed")
            raise self.stop_error

    def maybe_end(self):
        if self.stops and (not self.starts or self.work_ended is not None):
            self.world.end_leading(self)


class Elector:
    """An elector object, and what it reported."""

    def __init__(self, world, cand, identity, conf):
        self.reported = []
        self.observed = {}  # version -> when a reply with it came
        self.life = None
        if world.case["config_map"]:
            self.api_client = client.ApiClient()
            lock = resourcelock.new("ns", "lock", resourcelock.ResourceLockConfig(identity=identity), self.api_client)
        else:
            lock = PlainLock(world, identity)

        async def on_new_leader(who):
            self.reported.append((now(), who))
            how = conf["new_leader"]
            token = reporting_var.set(True)
            try:
                if how == "slow":
                    await pause(200)
                if how == "raise":
                    raise pick(FAILURES, len(self.reported))("on_new_leader failed")
            finally:
                reporting_var.reset(token)

        async def on_started():
            await self.life.on_started()

        async def on_stopped():
            await self.life.on_stopped()

        self.real = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
            lock=lock,
            callbacks=leaderelection.LeaderCallbacks(on_started, on_stopped, on_new_leader if conf["new_leader"] else None),
            name=identity, lease_duration=conf["lease"], renew_deadline=conf["renew"], retry_period=conf["retry"],
            release_on_cancel=conf["release"]))


class World:
    """Subclasses override the hooks at the end."""

    def __init__(self, case):
        self.case = case
        self.server = Server(self)
        self.latency = case["latency"]  # of a request without fault, at most
        self.leading = []
        self.last_lead_end = 0.0
        self.lives = []
        self.requests = 0
        self.labels = set()
        self.background = set()
        initial = case["initial"]
        if initial is not None:
            initial = dict(initial)
            for k in ("renewTime", "acquireTime"):
                if k in initial:
                    initial[k] += EPOCH
        if case["config_map"]:
            self.api = Api()
            self.api.on_request = self.on_request
            if initial is not None:
                self.api._config_map_now("POST", "ns", None, dict(metadata=dict(
                    name="lock", annotations={KEY: json.dumps(initial)})))
        if initial is not None:
            self.server.store(None, initial)

    # ---- requests
    async def request(self, kind, f):
        """Pass one request to the server with the latencies and faults of the case; f(life) is its effect."""
        life = life_var.get()
        if life is None:
            raise HarnessError("request outside a life")
        cand = life.cand
        if life.dead:
            await asyncio.sleep(1e9)
        i = cand.requests
        cand.requests += 1
        self.requests += 1
        share, detach, fault = cand.conf["requests"][i % len(cand.conf["requests"])] if cand.conf["requests"] else (0.5, False, None)
        hang = 0
        for at, length, what in cand.conf["outages"]:
            if at <= now() < at + length:
                fault, hang = what, at + length - now()
        if fault:
            life.faults += 1
            life.fault_end = 1e9
        if kind == "write":
            life.in_flight += 1
        try:
            if fault is None:
                before = self.latency * cand.conf["speed"] * share
                after = self.latency * cand.conf["speed"] - before
                return await self.serve(life, kind, f, before, after, detach)
            if fault == "refuse":
                raise pick(FAILURES, i)("refused")
            if fault == "hang":
                await asyncio.sleep(hang or self.latency)
                raise pick(FAILURES, i)("timed out")
            # applied at the beginning or, whatever becomes of the caller, the end of the outage, but without reply
            if fault == "lose":
                await self.serve(life, kind, f, 0, hang or self.latency, True, False)
            else:
                await self.serve(life, kind, f, hang or self.latency, 0, True, False)
            raise pick(FAILURES, i)("reply lost")
        finally:
            if kind == "write":
                life.in_flight -= 1
            if fault:
                life.fault_end = now()

    async def serve(self, life, kind, f, before, after, detach, replied=True):
        async def server():
            await asyncio.sleep(before)
            try:
                return f(life), None
            except Conflict as e:
                return None, e

        async def whole():
            return await server()

        if detach:
            t = asyncio.ensure_future(whole())
            self.background.add(t)
            out, e = await asyncio.shield(t)
        else:
            out, e = await whole()
        await asyncio.sleep(after)
        if life.dead:
            await asyncio.sleep(1e9)
        if not replied:
            return None
        if e is not None:
            self.labels.add("conflict")
            raise e
        if kind == "get":
            life.elector.observed.setdefault(out[0], now())
        else:
            life.last_success = now()
            life.writes += 1
        return out

    async def on_request(self, method, ns, name, body, answer):
        """The same through config maps."""
        server = self.server
        if method == "GET":
            box = []

            def f(life):
                box.append(answer(method, ns, name, body))
                return server.version, server.record, None

            await self.request_http("get", f)
            return box[0]
        status = []

        def g(life):
            out = answer(method, ns, name, body)
            status.append(out)
            if out[0] >= 300:
                raise Conflict(str(out[0]))
            previous = server.record
            record = json.loads(body["metadata"]["annotations"][KEY])
            server.store(life, record)
            self.written(life, previous, record)
            return server.version

        try:
            await self.request_http("write", g)
        except Conflict:
            pass
        return status[0]

    async def request_http(self, kind, f):
        try:
            return await self.request(kind, f)
        except Failed as e:
            raise ConnectionError(str(e))

    # ---- candidates
    async def candidate(self, conf, index):
        cand = type("Cand", (), {})()
        cand.conf, cand.requests = conf, 0
        skew_var.set(conf["skew"])
        elector, identity = None, None
        for n, (gap, fresh, end) in enumerate(conf["lives"]):
            await asyncio.sleep(gap)
            if identity is None or fresh == "new":
                identity = f"{conf['name']}-{n}" if n else conf["name"]
                elector = None
            if elector is None or fresh != "again":
                elector = Elector(self, cand, identity, conf)
            life = Life(self, cand, elector, identity, conf)
            elector.life = life
            self.lives.append(life)
            life_var.set(life)
            t = asyncio.ensure_future(elector.real.run())
            self.background.add(t)
            kind, after, steps = end
            timer = asyncio.ensure_future(asyncio.sleep(after if kind else 1e8))
            try:
                await asyncio.wait([t, timer], return_when=asyncio.FIRST_COMPLETED)
            finally:
                timer.cancel()
            if not t.done():
                for _ in range(steps):
                    await asyncio.sleep(0)
            if not t.done() and kind == "crash":
                life.dead = True
                if life.leading:
                    self.labels.add("leader_crashed")
                self.end_leading(life)
                elector = None
                continue
            if not t.done():
                life.cancelled_at = now()
                life.write_in_flight_at_cancel = life.in_flight > 0
                life.leading_at_cancel = life.leading
                life.fault_end_at_cancel, life.faults_at_cancel = life.fault_end, life.faults
                self.labels.add("leader_cancelled" if life.leading else "candidate_cancelled")
                t.cancel()
                await asyncio.wait([t])
            life.run_ended = now()
            self.ended(life, t)

    def left(self, life):
        """What the life runs still, apart from requests the server has and reports of new leaders."""
        return [t for t in asyncio.all_tasks() if t not in self.tasks and t not in self.background and not t.done()
                and t.get_context().get(life_var) is life and not t.get_context().get(reporting_var)]

    def start_leading(self, life):
        if life.dead:
            return
        self.starting(life)
        self.leading.append(life)

    def end_leading(self, life):
        if life in self.leading:
            self.leading.remove(life)
            self.last_lead_end = now()

    async def run(self):
        self.tasks = tasks = [asyncio.ensure_future(self.candidate(c, i)) for i, c in enumerate(self.case["candidates"])]
        end = self.case["length"]
        t = 0.013
        while t < end:
            await asyncio.sleep(t - now())
            self.tick()
            for x in tasks:
                if x.done() and x.exception() is not None:
                    raise x.exception()
            t += self.case["tick"]
        self.finish()

    # ---- hooks
    def written(self, life, previous, record):
        """The record was written, by the life."""

    def starting(self, life):
        """The life starts leading."""

    def stopped(self, life):
        """on_stopped_leading was called."""

    def ended(self, life, task):
        """The run of the life ended."""

    def tick(self):
        pass

    def finish(self):
        pass


@st.composite
def worlds(draw, faulty=True):
    unit = draw(st.sampled_from([1.0, 1.0, 0.37]))
    retry = [unit * draw(st.sampled_from([1.0, 1.0, 0.61])) for _ in range(4)]
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    latency = draw(st.sampled_from([0, 0.0113, 0.1, 0.31])) * unit
    cleanups = [draw(st.sampled_from([-1, 0, 5, 20])) for _ in range(n)]
    renew = [retry[i] * draw(st.sampled_from([1.21, 2.03, 3.37, 5])) for i in range(n)]
    # what the property asks of the configuration
    need = max(renew[i] + retry[i] for i in range(n)) + latency + (max(cleanups) + 1) / 64
    lease = [need + unit * draw(st.sampled_from([0.03, 0.03, 0.7, 3])) for i in range(n)]
    scale = max(lease) + 2.2 * max(retry)
    length = scale * draw(st.sampled_from([3, 5, 8]))
    cands = []
    for i in range(n):
        lives = draw(st.lists(st.tuples(
            st.sampled_from([0, 0.0071, 0.3, 0.9, 1.7]).map(lambda x: x * unit + 0.00037 * i),
            st.sampled_from(["new", "same", "again"]),
            st.tuples(st.sampled_from(["cancel", "cancel", "crash"]),
                      st.one_of(st.floats(0, 1), st.floats(0, 0.05), st.sampled_from([0, 0.4])).map(lambda x: x * length * 0.8),
                      st.sampled_from([0, 0, 1, 2, 3, 5, 8]))), min_size=1, max_size=4))
        if draw(st.booleans()):
            lives[-1] = (lives[-1][0], lives[-1][1], (None, 0, 0))
        requests, outages = [], []
        if faulty:
            fault = weighted((6, st.none()), (1, st.sampled_from(["refuse", "hang", "lose", "late"])))
            requests = draw(st.one_of(st.just([]), history(
                st.tuples(st.sampled_from([0.5, 0, 1]), st.booleans(), fault), 12)))
            outages = draw(st.one_of(st.just([]), st.lists(st.tuples(
                st.floats(0, 1).map(lambda x: x * length),
                st.sampled_from([0.2, 0.6, 1.1, 1.6]).map(lambda x: x * scale),
                st.sampled_from(["refuse", "hang", "hang", "lose", "late"])), min_size=1, max_size=3)))
        cands.append(dict(
            name="abcd"[i], retry=retry[i], renew=renew[i], lease=lease[i], release=draw(st.booleans()),
            skew=draw(st.sampled_from([0, 0, 1000.0, -1000.0, 3.3])), speed=draw(st.sampled_from([1, 1, 0.5, 0])),
            work=draw(st.tuples(st.sampled_from(["wait", "wait", "wait", "return", "raise"]), st.integers(-1, 300),
                                st.just(cleanups[i]))),
            slow_stop=draw(st.sampled_from([-1, -1, 0, 10])), stop_fails=draw(st.sampled_from([False, False, False, True])), new_leader=draw(st.sampled_from(["fast", "fast", "slow", "raise", None])),
            lives=lives, requests=requests, outages=outages))
    initial = draw(st.one_of(st.none(), st.fixed_dictionaries(
        dict(holderIdentity=st.sampled_from(["ghost", "ghost", "a", ""])),
        optional=dict(leaseDurationSeconds=st.just(15), renewTime=st.sampled_from([-1e6, 0, 1e6]), acquireTime=st.just(-7.0),
                      leaderTransitions=st.integers(0, 9))), st.just({}), st.just(dict(leaderTransitions=3))))
    return dict(candidates=cands, latency=latency, initial=initial, length=length, tick=unit * 0.231,
                config_map=draw(st.sampled_from([False, False, True])), seed=draw(st.integers(0, 2**20)))

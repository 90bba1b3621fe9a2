"""Drives the generated checks of one property: generation, sharding, shrinking, evidence, replay."""
from vf import env
from vf.env import CpuHang, HarnessError, Stuck, Violation

import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies

_real = env._real_time
OUT = os.environ.get("VF_OUT", env.ROOT)


class Test:
    """One generated check.

    strategy: Hypothesis strategy producing a JSON-able case.
    run(case) -> (nontrivial: bool, labels: iterable of str); raises Violation.
    quick / thorough: total number of cases (over all shards).
    """

    def __init__(self, name, strategy, run, quick, thorough):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough


def side_by_side(test, quick=240, thorough=6000):
    """Two cases of a test at once in one process: what is done to one instance must not show in another."""
    def run(cases):
        results = env.together(test.run, cases)
        return any(r[0] for r in results), {l for r in results for l in r[1]}

    return Test(test.name + "_side_by_side", strategies.lists(test.strategy, min_size=2, max_size=2), run, quick, thorough)


class _StopShrink(KeyboardInterrupt):
    pass


def in_repo(e):
    """Does the exception come from or through the code under test?"""
    root = os.path.join(os.path.realpath(env.REPO), "")
    while e is not None:
        if any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__)):
            return True
        e = e.__cause__ or e.__context__
    return False


def execute(test, case):
    """Run one case. Returns (nontrivial, labels); raises Violation or HarnessError."""
    try:
        return test.run(case)
    except Violation:
        raise
    except Stuck as e:
        raise Violation(f"{e}") from e
    except CpuHang as e:
        raise Violation("endless loop: the case never finished") from e
    except (HarnessError, MemoryError):
        raise
    except (ImportError, OSError) as e:
        if not in_repo(e):
            raise
        raise Violation(f"unexpected {type(e).__name__}: {e}") from e
    except RecursionError as e:
        raise Violation("unbounded recursion") from e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        where = f"{os.path.relpath(last.filename, env.REPO)}:{last.lineno}"
        raise Violation(f"unexpected {type(e).__name__}: {e} (at {where})") from e


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _shard(test, n, seed, out):
    st = dict(
        evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[], failure=None, error=None
    )
    best = {}
    recent = collections.deque(maxlen=40)

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
        phases=[Phase.generate] if os.environ.get("VF_NOSHRINK") else [Phase.generate, Phase.shrink],
        print_blob=False,
    )
    @given(test.strategy)
    def prop(case):
        text = dumps(case)
        if best:
            best["runs"] += 1
            if best["runs"] > 1500 or _real() - best["t0"] > 60:
                raise _StopShrink()
        st["evaluations"] += 1
        try:
            nontrivial, labels = execute(test, json.loads(text))
        except Violation as e:
            if not best:
                best.update(runs=0, t0=_real(), first=text, recent=list(recent), msg0=str(e))
            if "text" not in best or (len(text), text) < (len(best["text"]), best["text"]):
                best.update(text=text, msg=str(e), tb="".join(traceback.format_exception(e)))
            raise
        if best:
            return
        recent.append(text)
        for l in labels:
            st["labels"][l] += 1
        if nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 2 and len(text) < 1500 and st["evaluations"] > 20:
                    st["samples"].append(json.loads(text))

    try:
        prop()
    except _StopShrink:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if not best:
            st["error"] = traceback.format_exc()
    except BaseException:
        if not best:
            st["error"] = traceback.format_exc()
    if best:
        st["failure"] = {k: best[k] for k in ("text", "msg", "tb", "first", "recent", "msg0")}
    out.send(st)
    out.close()


def load(prop_id):
    mod = importlib.import_module("props." + prop_id)
    if not hasattr(mod, "ALL"):
        alone = getattr(mod, "ALONE", ())  # tests that look at everything in the process, or run no loop
        mod.ALL = mod.TESTS + [side_by_side(t) for t in mod.TESTS if t.name not in alone]
    return mod


def _known_findings(prop_id):
    path = os.path.join(env.ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f) if k.get("property") == prop_id and not k.get("fixed")]


def replay(prop_id, path):
    try:
        mod = load(prop_id)
    except Exception as e:
        if not in_repo(e):
            raise
        traceback.print_exc()
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    with open(path) as f:
        data = json.load(f)
    if data["test"] == "import":
        print("replayed: no violation")
        return 0
    test = {t.name: t for t in mod.ALL}[data["test"]]
    try:
        for c in data.get("before", []):
            execute(test, c)
        execute(test, data["case"])
    except Violation as e:
        print(f"replayed: {e}")
        traceback.print_exc()
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    print("replayed: no violation")
    return 0


def _confirm(ctx, test, before, case):
    """Run the cases in a process of their own; the message of the violation, if any."""
    def f(w):
        try:
            for c in before + [case]:
                execute(test, c)
            w.send(None)
        except Violation as e:
            w.send(str(e))

    r, w = ctx.Pipe(False)
    p = ctx.Process(target=f, args=(w,))
    p.start()
    w.close()
    try:
        return r.recv()
    except EOFError:
        return None
    finally:
        p.join()


def main(prop_id, tier, seed, only=None, scale=1.0, workers=None):
    t0 = _real()
    try:
        mod = load(prop_id)
    except Exception as e:
        if not in_repo(e):
            raise
        traceback.print_exc()
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop_id}-import.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop_id, test="import", message=repr(e)), f)
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    workers = workers or int(os.environ.get("VF_WORKERS", "8"))
    jobs = []
    for ti, test in enumerate(mod.ALL):
        if only and test.name != only:
            continue
        total = max(1, int((test.quick if tier == "quick" else test.thorough) * scale))
        k = 8 if total >= 80 else 1
        if tier == "thorough":
            k = max(k, min(64, total // 2000))
        for s in range(k):
            n = total // k + (1 if s < total % k else 0)
            jobs.append((test, n, (seed * 1_000_003 + ti * 10_007 + s * 101 + 1) % (2**31)))
    ctx = multiprocessing.get_context("fork")
    jobs.sort(key=lambda j: -j[1])
    results, running, failed = [], [], None
    pending = list(jobs)
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < workers:
            test, n, s = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_shard, args=(test, n, s, w))
            p.start()
            w.close()
            running.append((p, r, test))
        ready = multiprocessing.connection.wait([r for _, r, _ in running], timeout=1.0)
        for item in list(running):
            p, r, test = item
            if r in ready:
                try:
                    st = r.recv()
                except EOFError:
                    st = dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[],
                              failure=None, error=f"worker of {test.name} died (exit {p.exitcode})")
                p.join()
                running.remove(item)
                st["test"] = test
                results.append(st)
                if st["failure"]:
                    stop = True
        if stop and running:
            for p, r, _ in running:
                p.terminate()
                p.join()
            running = []
    agg = {}
    for st in results:
        a = agg.setdefault(st["test"].name, dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[]))
        a["evaluations"] += st["evaluations"]
        a["nontrivial"] |= st["nontrivial"]
        a["labels"].update(st["labels"])
        a["samples"] += st["samples"]
    failures = [st for st in results if st["failure"]]
    errors = [st["error"] for st in results if st["error"]]

    status, lines = 0, []
    if failures:
        st = min(failures, key=lambda s: (len(s["failure"]["text"]), s["failure"]["text"]))
        case = json.loads(st["failure"]["text"])
        before = []
        confirmed = _confirm(ctx, st["test"], before, case)
        if confirmed is None:
            # something outlives the cases: find how many of those before are needed
            case = json.loads(st["failure"]["first"])
            recent = [json.loads(t) for t in st["failure"]["recent"]]
            n = 1
            while confirmed is None and n <= 2 * len(recent):
                before = recent[-n:]
                confirmed = _confirm(ctx, st["test"], before, case)
                n *= 2
        if confirmed is None:
            errors.append("failure did not reproduce outside Hypothesis:\n" + st["failure"]["tb"])
        else:
            d = os.path.join(OUT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop_id}-{st['test'].name}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop_id, test=st["test"].name, message=confirmed, case=case,
                               **({"before": before} if before else {})), f, indent=1)
            print(f"{prop_id}/{st['test'].name}: {confirmed}")
            print("minimal case: " + dumps(case)[:3000])
            print(st["failure"]["tb"][-1500:])
            lines.append(f"VIOLATION property={prop_id} replay={path}")
            status = 1
    if status == 0:
        for kf in _known_findings(prop_id):
            test = {t.name: t for t in mod.ALL + getattr(mod, "KNOWN", [])}[kf["test"]]
            try:
                execute(test, kf["case"])
            except Violation:
                print(f"KNOWN-FINDING: property={prop_id} {kf['what']}")
    if status == 0 and errors:
        sys.stderr.write("HARNESS ERROR\n" + "\n".join(errors) + "\n")
        status = 2
    wall = _real() - t0
    samples = []
    for name, a in agg.items():
        for s in a["samples"][:2]:
            samples.append({"test": name, "case": s})
    evidence = dict(
        property=prop_id, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(a["evaluations"] for a in agg.values()),
            distinct_nontrivial=sum(len(a["nontrivial"]) for a in agg.values()),
            rule=mod.RULE,
            samples=samples[:8],
            per_test={n: dict(evaluations=a["evaluations"], distinct_nontrivial=len(a["nontrivial"]),
                              labels=dict(sorted(a["labels"].items()))) for n, a in agg.items()},
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 3), violations=1 if status == 1 else 0,
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop_id + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    for n, a in agg.items():
        print(f"{prop_id}/{n}: {a['evaluations']} cases, {len(a['nontrivial'])} distinct non-trivial; "
              + ", ".join(f"{k}={v}" for k, v in sorted(a["labels"].items())))
    print(f"{prop_id}: status {status} in {wall:.1f}s")
    for l in lines:
        print(l)
    return status

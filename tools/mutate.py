#!/opt/venv/bin/python
"""mutate.py OUT.jsonl [FILE-REGEX] [--sample N]: run the checks on mechanical mutants of the sources, in scratch copies.

Tooling only: nothing registered in MANIFEST.json uses it. Prints the mutants no check notices.
"""
import ast, concurrent.futures, copy, json, os, random, re, shutil, subprocess, sys, tempfile

REPO = "/repo"
MAP = [
    (r"util/(_time|clock)", "C40 C21 C42"), (r"util/wait", "C42 C41 C61"), (r"util/retry", "C41"),
    (r"runtime/schema|api/meta", "C02 C10 C53"), (r"watch/mux", "C30 C31 C32 C34"), (r"watch/watch", "C33 C34 C30"),
    (r"cache/controller", "C17 C07 C16 C06"), (r"cache/fifo", "C03"), (r"cache/thread_safe_store|cache/index", "C01 C18"),
    (r"cache/store", "C02 C01"), (r"cache/reflector", "C08 C09 C10 C11 C16"), (r"cache/delta_fifo", "C04 C05 C06 C07"),
    (r"cache/shared_informer", "C12 C13 C14 C15 C16 C06 C18"), (r"workqueue/queue", "C20 C22 C21"),
    (r"workqueue/delaying", "C21 C22 C25 C20"), (r"workqueue/rate", "C25 C22 C20"), (r"workqueue/default", "C23 C24 C25"),
    (r"leaderelection/leaderelection", "C60 C61 C63"), (r"leaderelection/resourcelock", "C62 C61"),
    (r"controller/controller", "C51 C50 C56 C54"), (r"controller/(client|_cache_reader|_deleg)", "C52 C54 C50"),
    (r"controller/(_informers_map|cache)", "C52 C54 C55 C50"), (r"controller/(event|handler|source)", "C53 C50"),
    (r"controller/(manager|builder|reconcile)", "C54 C56 C50 C51"), (r"cache/list_watch|cache/fake_custom", "C08 C10"),
]
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def bodies(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                yield n, b


def mutants(src):
    """Yield (description, new source)."""
    base = ast.parse(src)
    nodes = list(ast.walk(base))

    def emit(i, what, edit):
        t = copy.deepcopy(base)
        n = list(ast.walk(t))[i]
        edit(n)
        ast.fix_missing_locations(t)
        return f"{getattr(n, 'lineno', '?')}: {what}", ast.unparse(t)

    # statements
    nb = len(list(bodies(base)))
    for bi in range(nb):
        owner, body = list(bodies(base))[bi]
        if isinstance(owner, (ast.Module, ast.ClassDef)):
            continue
        for si, s in enumerate(body):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Return)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.Expr) and "logger" in ast.unparse(s):
                    continue
                t = copy.deepcopy(base)
                b = list(bodies(t))[bi][1]
                b[si] = ast.Pass()
                ast.fix_missing_locations(t)
                yield f"{s.lineno}: delete `{ast.unparse(s)[:90]}`", ast.unparse(t)
            if isinstance(s, (ast.AsyncWith, ast.With, ast.Try)):
                t = copy.deepcopy(base)
                b = list(bodies(t))[bi][1]
                b[si:si + 1] = b[si].body
                ast.fix_missing_locations(t)
                yield f"{s.lineno}: unwrap {type(s).__name__} `{ast.unparse(s)[:60]}`", ast.unparse(t)
            if isinstance(s, ast.Expr) and si + 1 < len(body) and isinstance(body[si + 1], (ast.Expr, ast.Assign)):
                t = copy.deepcopy(base)
                b = list(bodies(t))[bi][1]
                b[si], b[si + 1] = b[si + 1], b[si]
                yield f"{s.lineno}: swap with next `{ast.unparse(s)[:60]}`", ast.unparse(t)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                yield emit(i, f"`{ast.unparse(n)}` op {op.__name__}", lambda n, op=op: n.ops.__setitem__(0, op()))
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield emit(i, f"`{ast.unparse(n)}` {o.__name__}", lambda n, o=o: setattr(n, "op", o()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield emit(i, f"`{ast.unparse(n)}` drop operand {k}", lambda n, k=k: n.values.pop(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield emit(i, f"`{ast.unparse(n)}` without not", lambda n: setattr(n, "op", ast.UAdd()) if False else n.__dict__.update(
                op=ast.Not(), operand=ast.UnaryOp(ast.Not(), n.operand)))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n.test, ast.Constant):
                    continue
                yield emit(i, f"test `{ast.unparse(n.test)}` := {v}", lambda n, v=v: setattr(n, "test", ast.Constant(v)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield emit(i, f"{n.value} flipped", lambda n: setattr(n, "value", not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield emit(i, f"{n.value} + 1", lambda n: setattr(n, "value", n.value + 1))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield emit(i, f"`{ast.unparse(n)}` other op", lambda n: setattr(n, "op", BIN[type(n.op)]()))
        elif isinstance(n, ast.Attribute) and n.attr in ("append", "appendleft", "popleft", "pop"):
            o = dict(append="appendleft", appendleft="append", popleft="pop", pop="popleft")[n.attr]
            yield emit(i, f"`{ast.unparse(n)}` {o}", lambda n, o=o: setattr(n, "attr", o))
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and len(n.args) == 2:
            if "logger" not in ast.unparse(n):
                yield emit(i, f"swap args `{ast.unparse(n)[:80]}`", lambda n: n.args.reverse())
        elif isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
                "set", "dict", "list", "frozenset", "tuple", "sorted", "int"):
            def drop(n):
                arg = n.args[0]
                n.func, n.args = ast.Name("_identity", ast.Load()), [arg]
            d, s = emit(i, f"drop {n.func.id}() in `{ast.unparse(n)[:60]}`", drop)
            yield d, s + "\ndef _identity(x):\n    return x\n"


def job(args):
    path, desc, src, checks = args
    d = tempfile.mkdtemp(prefix="mut.", dir="/dev/shm")
    try:
        shutil.copytree(REPO + "/aiok8s", d + "/r/aiok8s", ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{d}/r/{path}", "w") as f:
            f.write(src)
        env = dict(os.environ, VF_REPO=d + "/r", VF_OUT=d, VF_NOSHRINK="1", VF_WORKERS="2", VF_CPU_LIMIT="6")
        res = {}
        for c in checks:
            try:
                p = subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), c], env=env, capture_output=True, text=True, timeout=400)
                res[c] = p.returncode
                if p.returncode == 1:
                    break
            except subprocess.TimeoutExpired:
                res[c] = "timeout"
                break
        return dict(file=path, mutant=desc, results=res)
    finally:
        shutil.rmtree(d)


def main():
    out, pat = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else ""
    sample = int(sys.argv[sys.argv.index("--sample") + 1]) if "--sample" in sys.argv else None
    jobs = []
    files = subprocess.run(["git", "-C", REPO, "ls-files", "aiok8s"], capture_output=True, text=True).stdout.split()
    for f in files:
        if not f.endswith(".py") or "test" in f or not re.search(pat, f):
            continue
        checks = next((c.split() for p, c in MAP if re.search(p, f)), None)
        if not checks:
            continue
        src = open(f"{REPO}/{f}").read()
        seen = {ast.unparse(ast.parse(src))}
        for desc, s in mutants(src):
            if s not in seen:
                seen.add(s)
                jobs.append((f, desc, s, checks))
    random.Random(1).shuffle(jobs)
    jobs = jobs[:sample]
    print(len(jobs), "mutants")
    killed = 0
    with concurrent.futures.ThreadPoolExecutor(7) as ex, open(out, "w") as o:
        for r in ex.map(job, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()
            killed += 1 in r["results"].values()
            if 1 not in r["results"].values():
                print(r["file"], r["mutant"], r["results"], flush=True)
    print("killed", killed, "of", len(jobs))


main()

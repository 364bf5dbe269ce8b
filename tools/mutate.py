"""Breadth test of the checks: small syntactic changes to the library that pass its tests; which check notices each?

python tools/mutate.py N SEED OUT.jsonl [FILE-SUBSTRING ...]     (8 workers, scratch copies under /tmp/mut)
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
import concurrent.futures as cf

REPO, VERIF = "/repo", os.environ.get("MUT_VERIF", "/verif")
DISK = ["C01", "C02", "C24", "C03", "C04", "C05"]
SEP = ["C23", "C15", "C13", "C14", "C16", "C06", "C22", "C18", "C17", "C12", "C08", "C07", "C09", "C11", "C10"]


def skip_ranges(tree):
    """Lines that are not behaviour: docstrings, __repr__, warnings, raise statements."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            out.update(range(n.body[0].lineno, n.body[0].end_lineno + 1))
        if isinstance(n, ast.FunctionDef) and n.name == "__repr__":
            out.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            out.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "warn":
            out.update(range(n.lineno, n.end_lineno + 1))
    return out


def mutants(src):
    """-> list of (start offset, end offset, replacement, kind)"""
    tree = ast.parse(src)
    skip = skip_ranges(tree)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)

    def off(line, col):
        return starts[line - 1] + col
    out = []

    def rep(n, text, kind):
        if n.lineno not in skip:
            out.append((off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), text, kind, n.lineno))
    for n in ast.walk(tree):
        if isinstance(n, (ast.arguments,)):
            continue
        if isinstance(n, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.MatMult}.get(type(n.op))
            if isinstance(n.op, ast.MatMult):
                rep(n, "(" + ast.unparse(ast.BinOp(n.right, n.op, n.left)) + ")", "matmul-swap")
            elif swap:
                rep(n, "(" + ast.unparse(ast.BinOp(n.left, swap(), n.right)) + ")", "arith")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if swap:
                rep(n, "(" + ast.unparse(ast.Compare(n.left, [swap()], n.comparators)) + ")", "compare")
        elif isinstance(n, ast.BoolOp):
            other = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, "(" + ast.unparse(ast.BoolOp(other, n.values)) + ")", "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            rep(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, repr(not n.value), "flag")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, "(" + ast.unparse(n.operand) + ")", "unary")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in ("conj", "copy", "transpose", "swapaxes", "real") and not (isinstance(f.value, ast.Name) and f.value.id == "np"):
                    rep(n, "(" + ast.unparse(f.value) + ")", "drop-" + f.attr)
                sub = {"sum": "mean", "mean": "sum", "maximum": "minimum", "minimum": "maximum", "ones": "zeros", "abs": "real",
                       "argmax": "argmin", "argmin": "argmax", "sqrt": "abs", "log": "log1p", "max": "min", "min": "max"}.get(f.attr)
                if sub:
                    rep(n, ast.unparse(ast.Call(ast.Attribute(f.value, sub, ast.Load()), n.args, n.keywords)), "func")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.unparse(f) not in ("isinstance", "hasattr", "getattr", "setattr", "np.einsum"):
                a = [n.args[1], n.args[0]] + n.args[2:]
                rep(n, ast.unparse(ast.Call(f, a, n.keywords)), "args-swap")
            if n.keywords and isinstance(n.func, (ast.Attribute, ast.Name)) and ast.unparse(f) not in ("np.einsum",):
                for i, k in enumerate(n.keywords):
                    if k.arg in (None, "optimize", "dtype", "keepdims"):
                        continue
                    rep(n, ast.unparse(ast.Call(f, n.args, n.keywords[:i] + n.keywords[i + 1:])), "drop-kw-" + k.arg)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is not None and isinstance(n.ctx, ast.Load):
            rep(n, ast.unparse(ast.Subscript(n.value, ast.Slice(None, n.slice.upper, n.slice.step), n.ctx)), "slice")
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                rep(n, "pass", "drop-store")
            elif isinstance(n.value, ast.Call) and any(isinstance(x, ast.Name) and isinstance(t, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                rep(n, "pass", "drop-rebind")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "drop-call")
        elif isinstance(n, ast.If):
            rep(n.test, "(not (%s))" % ast.unparse(n.test), "negate-if")
    return out


def valid(src, s, e, t):
    new = (src[:s] + t.encode() + src[e:]).decode()
    try:
        return ast.dump(ast.parse(new)) != ast.dump(ast.parse(src))
    except SyntaxError:
        return False


PROBE = r'''
import sys, os, json, time, importlib
sys.path[:0] = [os.environ["SSSPY_REPO"], os.environ["MUT_VERIF"]]
from sim import main, engine
props, budget, focus = sys.argv[1].split(","), float(sys.argv[2]), sys.argv[3]
res = {}
from sim import zoo
if focus:  # configurations of the classes that contain the changed line only
    allowed = [c for c in zoo.ALL if focus in [k.__name__ for k in zoo.get_class(c).__mro__]]
    real = zoo.gen
    class Skip(Exception): pass
    def gen(rng, classes=None, *a, **k):
        cs = [c for c in allowed if classes is None or c in classes]
        if not cs: raise Skip
        return real(rng, cs, *a, **k)
    if allowed: zoo.gen = gen
else:
    class Skip(Exception): pass
for p in props:
    try:
        c = main.get_check(p); c.setup()
    except BaseException as e:
        print(json.dumps({"prop": p, "msg": "SETUP %r" % e})); break
    c.run_cpu_limit = 40
    skipped = 0
    end = time.process_time() + budget * (2 if p in ("C13", "C22", "C15", "C23") else 1)
    known = engine.load_known(p); i = 0; hit = None
    while time.process_time() < end:
        try:
            try:
                case = engine.make_case(c, 1, i, "quick")
            except Skip:
                i += 1; skipped += 1
                if skipped > 200: break
                continue
            r = engine.run_guarded(c, case)
            v = [x for x in r.violations if x.key not in known]
        except BaseException as e:
            print(json.dumps({"prop": p, "msg": "HARNESS %r" % e, "i": i})); sys.exit()
        if v:
            hit = {"prop": p, "cls": v[0].cls, "msg": v[0].msg[:300], "i": i}; break
        i += 1
    res[p] = i
    if hit:
        print(json.dumps(hit)); sys.exit()
print(json.dumps({"prop": None, "runs": res}))
'''


def one(job):
    k, f, s, e, t, kind, line, budget = job
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.exists(w):
        subprocess.run(["cp", "-a", REPO, w], check=True)
    p = os.path.join(w, f)
    src = open(os.path.join(REPO, f), "rb").read()
    new = src[:s] + t.encode() + src[e:]
    if not valid(src, s, e, t):
        return None
    r = {"file": f, "line": line, "kind": kind, "old": src[s:e].decode(), "new": t, "n": k}
    open(p, "wb").write(new)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    try:
        try:
            q = subprocess.run("/opt/venv/bin/python -m pytest tests/package -x -q -p no:cacheprovider -p vp_network_marker -m 'not network' 2>&1 | tail -3",
                               shell=True, cwd=w, env=dict(env, PYTHONPATH=w + ":/opt/vp/plugins"), capture_output=True, text=True, timeout=120)
            out = q.stdout.strip().splitlines()[-1:] or [""]
            if " passed" not in out[0] or " failed" in out[0] or " error" in out[0]:
                r["tests"] = "killed"
                return r
        except subprocess.TimeoutExpired:
            r["tests"] = "killed"
            return r
        r["tests"] = "pass"
        focus = ""
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.ClassDef) and n.lineno <= line <= n.end_lineno:
                focus = n.name
        r["in"] = focus
        props = DISK if ("/io/" in f or "/dataset/" in f) else SEP
        q = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", PROBE, ",".join(props), str(budget), focus], cwd="/tmp",
                           env=dict(env, SSSPY_REPO=w, MUT_VERIF=VERIF, PYTHONPATH=w + ":" + VERIF), capture_output=True, text=True, timeout=1500)
        try:
            r["check"] = json.loads(q.stdout.strip().splitlines()[-1])
        except Exception:
            r["check"] = {"prop": None, "msg": "DIED " + (q.stdout + q.stderr)[-400:]}
    except subprocess.TimeoutExpired:
        r["check"] = {"prop": None, "msg": "TIMEOUT"}
    finally:
        open(p, "wb").write(src)
    return r


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    subs = sys.argv[4:]
    budget = float(os.environ.get("MUT_BUDGET", "5"))
    rng = random.Random(seed)
    jobs = []
    for root, _, files in os.walk(os.path.join(REPO, "ssspy")):
        for fn in sorted(files):
            f = os.path.relpath(os.path.join(root, fn), REPO)
            if fn.endswith(".py") and fn not in ("_version.py",) and (not subs or any(x in f for x in subs)):
                src = open(os.path.join(REPO, f)).read()
                jobs += [(f,) + m for m in mutants(src)]
    jobs.sort()
    print(len(jobs), "mutants possible", flush=True)
    rng.shuffle(jobs)
    jobs = [(k,) + j + (budget,) for k, j in enumerate(jobs[:n])]
    os.makedirs("/tmp/mut", exist_ok=True)
    with open(out, "a", buffering=1) as o, cf.ProcessPoolExecutor(int(os.environ.get("MUT_WORKERS", "8"))) as ex:
        for fut in cf.as_completed([ex.submit(one, j) for j in jobs]):
            if fut.result():
                o.write(json.dumps(fut.result()) + "\n")
    for d in os.listdir("/tmp/mut"):
        if re.fullmatch(r"w\d+", d):
            shutil.rmtree("/tmp/mut/" + d)


if __name__ == "__main__":
    main()

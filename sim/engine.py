"""Engine shared by all checks: seed derivation, the result of one simulated run,
the parallel seeded search, known findings, minimisation, replay files, evidence.

One integer decides a run: case = check.gen(Random(derive(seed, prop, index))), and
check.run(case) is a pure function of the case and the code under test.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SSSPY_REPO", "/repo")


def derive(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


class Violation:
    def __init__(self, cls, msg, key=None):
        self.cls = cls  # class of violation: kept while minimising
        self.msg = msg
        self.key = key or cls  # identity used by the known-findings file

    def to_json(self):
        return {"class": self.cls, "key": self.key, "message": self.msg}


class HarnessError(Exception):
    pass


class RunTimeout(BaseException):
    pass


class Result:
    def __init__(self):
        self.violations = []
        self.stats = Counter()  # what happened: faults fired, probes, operations
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self._h = hashlib.blake2b(digest_size=12)
        self._sig = hashlib.blake2b(digest_size=12)
        self.logged = 0
        self.tail = []

    def log(self, *ev):
        """Event log. Its hash identifies the execution exactly."""
        s = repr(ev)
        self._h.update(s.encode())
        self.logged += 1
        if len(self.tail) < 400:
            self.tail.append(s[:200])

    def shape(self, *ev):
        """Coarser signature: what kind of interleaving / state was reached."""
        self._sig.update(repr(ev).encode())

    def bad(self, cls, msg, key=None):
        if len(self.violations) < 20:
            self.violations.append(Violation(cls, msg, key))

    def digest(self):
        return self._h.hexdigest()

    def signature(self):
        return self._sig.hexdigest()


class Check:
    prop = None
    level = "exploration"
    technique = "deterministic simulation with fault injection: seeded search over schedules and faults"
    rule = ""
    real = []
    stubs = []
    measure = "distinct run signatures"
    assumptions = []
    quick_runs = 400
    thorough_runs = 20000
    quick_wall = 150
    thorough_wall = 780
    run_cpu_limit = 120
    shrink_lists = ()  # keys of list-valued entries whose elements can be dropped
    shrink_ints = ()  # (key, minimum)

    def setup(self):
        pass

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    # candidate smaller cases, most aggressive first
    def shrinks(self, case):
        for key in self.shrink_lists:
            lst = case.get(key) or []
            n = len(lst)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    c = dict(case)
                    c[key] = lst[:i] + lst[i + size:]
                    if len(c[key]) < n:
                        yield c
                size //= 2
        for key, lo in self.shrink_ints:
            v = case.get(key)
            if isinstance(v, int) and v > lo:
                for w in sorted({lo, (v + lo) // 2, v - 1}):
                    if w < v:
                        c = dict(case)
                        c[key] = w
                        yield c


def run_guarded(check, case):
    """Run one case under the CPU-time watchdog. A run that never ends is a violation."""

    def on_alarm(signum, frame):
        raise RunTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, check.run_cpu_limit)
    try:
        res = check.run(case)
    except RunTimeout:
        res = Result()
        res.bad("no-progress", "run used more than %d s of CPU time: no progress" % check.run_cpu_limit)
        res.hung = True
    except Exception as e:
        e = e.__cause__ or e
        where = library_frame(e.__traceback__)
        res = Result()
        if where is not None:
            res.bad("raised", "the library raised %s: %s at %s" % (type(e).__name__, e, where))
        elif isinstance(e, (ValueError, IndexError, TypeError, AttributeError, ArithmeticError)):
            # never happens while the library shows arrays of the promised kind
            res.bad("malformed", "what the library returned or shows cannot be evaluated: %s: %s" % (type(e).__name__, e))
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return res


def library_frame(tb):
    """Innermost frame of the library in a traceback, or None."""
    root = os.path.join(os.path.realpath(REPO), "ssspy") + os.sep
    where = None
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if name.startswith(root):
            where = "%s:%d" % (os.path.basename(name), tb.tb_lineno)
        tb = tb.tb_next
    return where


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        entries = json.load(f)["findings"]
    return {e["key"]: e for e in entries if e["property"] == prop and e["status"] == "known"}


def make_case(check, seed, index, tier):
    rng = random.Random(derive("case", seed, check.prop, index))
    case = check.gen(rng, index, tier)
    case = json.loads(json.dumps(case))
    return case


def _worker(check, seed, tier, indices, deadline, known, wfd, current):
    out = os.fdopen(wfd, "w", buffering=1)
    sys.unraisablehook = lambda *a: None
    agg = Counter()
    sigs = {}
    digests = {}
    known_hits = {}
    samples = []
    n = nontrivial = 0
    sim_time = 0.0
    steps = 0
    try:
        check.setup()
        for idx in indices:
            if time.monotonic() > deadline:
                agg["stopped_at_wall_limit"] += 1
                break
            current.value = idx
            case = make_case(check, seed, idx, tier)
            res = run_guarded(check, case)
            n += 1
            agg.update(res.stats)
            sim_time += res.sim_time
            steps += res.steps
            digests[idx] = res.digest()
            if res.nontrivial:
                nontrivial += 1
                sigs[res.signature()] = 1
            if len(samples) < 1 and res.nontrivial:
                samples.append({"index": idx, "case": case, "events": res.tail[:25], "digest": res.digest()})
            new = [v for v in res.violations if v.key not in known]
            for v in res.violations:
                if v.key in known:
                    known_hits[v.key] = known_hits.get(v.key, 0) + 1
            if new:
                out.write(json.dumps({"t": "violation", "index": idx, "case": case, "v": new[0].to_json()}) + "\n")
                break
        out.write(json.dumps({
            "t": "done", "n": n, "nontrivial": nontrivial, "sigs": list(sigs), "digests": digests,
            "stats": agg, "sim_time": sim_time, "steps": steps, "known": known_hits, "samples": samples}) + "\n")
        out.flush()
    except BaseException:
        try:
            out.write(json.dumps({"t": "error", "index": int(current.value), "tb": traceback.format_exc()}) + "\n")
            out.flush()
        except BaseException:
            pass
    finally:
        os._exit(0)


def search(check, seed, tier, runs=None, wall=None, workers=None, start=0):
    import multiprocessing as mp
    import selectors

    runs = runs or (check.quick_runs if tier == "quick" else check.thorough_runs)
    wall = wall or (check.quick_wall if tier == "quick" else check.thorough_wall)
    workers = workers or int(os.environ.get("SSSPY_SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, runs))
    known = load_known(check.prop)
    t0 = time.monotonic()
    deadline = t0 + wall
    procs = {}
    sel = selectors.DefaultSelector()
    for w in range(workers):
        r, wfd = os.pipe()
        cur = mp.Value("q", -1, lock=False)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for p in procs.values():
                try:
                    os.close(p["fd"])
                except OSError:
                    pass
            _worker(check, seed, tier, range(start + w, start + runs, workers), deadline, known, wfd, cur)
        os.close(wfd)
        procs[r] = {"pid": pid, "fd": r, "buf": b"", "cur": cur, "done": False}
        sel.register(r, selectors.EVENT_READ)
    total = {"workers": workers, "n": 0, "nontrivial": 0, "sigs": set(), "digests": {}, "stats": Counter(), "sim_time": 0.0,
             "steps": 0, "known": Counter(), "samples": [], "violations": [], "errors": [], "deaths": []}
    open_fds = set(procs)
    hard = deadline + 3 * check.run_cpu_limit
    while open_fds:
        if time.monotonic() > hard:
            total["errors"].append("workers did not stop in time")
            break
        if total["violations"] and time.monotonic() > stop_at:
            break
        for key, _ in sel.select(timeout=1.0):
            p = procs[key.fd]
            data = os.read(key.fd, 1 << 20)
            if data:
                p["buf"] += data
                while b"\n" in p["buf"]:
                    line, p["buf"] = p["buf"].split(b"\n", 1)
                    m = json.loads(line)
                    if m["t"] == "violation":
                        if not total["violations"]:
                            stop_at = time.monotonic() + 2.0
                        total["violations"].append(m)
                    elif m["t"] == "error":
                        total["errors"].append("run %s:\n%s" % (m["index"], m["tb"]))
                        p["done"] = True
                    else:
                        p["done"] = True
                        for k in ("n", "nontrivial", "sim_time", "steps"):
                            total[k] += m[k]
                        total["sigs"].update(m["sigs"])
                        total["digests"].update(m["digests"])
                        total["stats"].update(m["stats"])
                        total["known"].update(m["known"])
                        total["samples"] += m["samples"]
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_fds.discard(key.fd)
                _, status = os.waitpid(p["pid"], 0)
                p["pid"] = None
                if not p["done"]:
                    total["deaths"].append({"index": int(p["cur"].value), "status": status})
    for p in procs.values():
        if p["pid"]:
            try:
                os.kill(p["pid"], signal.SIGKILL)
                os.waitpid(p["pid"], 0)
            except OSError:
                pass
    total["wall"] = time.monotonic() - t0
    return total

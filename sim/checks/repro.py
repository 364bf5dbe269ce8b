"""C11: the same seeded run, repeated under another clock, heap, global generator, history and process."""
import contextlib
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from .. import helper, zoo
from ..engine import HERE, REPO, Check, Result
from .isolation import perform

GLOBAL_DRAWS = ("rand", "randn", "randint", "random", "random_sample", "normal", "uniform", "standard_normal", "choice", "permutation",
                "shuffle", "seed", "default_rng", "bytes", "laplace", "exponential", "gamma")
CLOCKS = ("time", "perf_counter", "monotonic", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time")


@contextlib.contextmanager
def perturbed(salt, used, plain=False):
    """Simulated clock, poisoned fresh memory, spied global generators. used: what was drawn on."""
    g = random.Random(salt)
    saved = []
    depth = [0]

    def put(mod, name, new):
        saved.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)

    def spy(label, f):
        def h(*a, **k):
            used.append(label)
            return f(*a, **k)

        return h

    for k in GLOBAL_DRAWS:
        put(np.random, k, spy("numpy.random." + k, getattr(np.random, k)))
    for k in ("random", "randint", "choice", "shuffle", "uniform", "gauss", "randrange", "getrandbits", "sample"):
        put(random, k, spy("random." + k, getattr(random, k)))
    put(os, "urandom", spy("os.urandom", os.urandom))
    now = [g.uniform(0, 4e9)]

    def clock(ns):
        def f():
            now[0] += g.choice([0, 1e-6, 0.5, -3600.0, 86400.0])
            return int(now[0] * 1e9) if ns else now[0]

        return f

    for k in CLOCKS:
        put(time, k, clock(k.endswith("ns")))
    fill = g.uniform(-1e6, 1e6)

    def poison(f):
        def h(*a, **k):
            v = f(*a, **k)
            if isinstance(v, np.ndarray) and v.dtype.kind in "fc" and depth[0] == 0:
                v[...] = fill if v.dtype.kind == "f" else complex(fill, -fill / 3)
            return v

        return h

    put(np, "empty", poison(np.empty))
    put(np, "empty_like", poison(np.empty_like))
    if plain:  # only the memory is under control
        for mod, name, old in reversed(saved[:-2]):
            setattr(mod, name, old)
        del saved[:-2]
    try:
        yield
    finally:
        for mod, name, old in reversed(saved):
            setattr(mod, name, old)


class Helpers:
    """One repeating process per hash seed; each is used by one worker only."""

    def __init__(self):
        self.pid, self.procs = None, {}

    def ask(self, hashseed, msg):
        if self.pid != os.getpid():
            self.pid, self.procs = os.getpid(), {}
        p = self.procs.get(hashseed)
        if p is None:
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            env["PYTHONPATH"] = os.pathsep.join([REPO, HERE])
            p = self.procs[hashseed] = subprocess.Popen([sys.executable, "-m", "sim.helper"], cwd=HERE, env=env, text=True,
                                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        p.stdin.write(json.dumps(msg) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("helper process ended")
        return json.loads(line)


HELPERS = Helpers()


class Repro(Check):
    prop = "C11"
    quick_runs = 9000
    thorough_runs = 80000
    quick_wall = 110
    shrink_lists = ("before",)
    rule = ("A run = one seeded separation (1-2 runs) performed three times: plainly; after other separations in the same process "
            "with the simulated clock jumping, fresh uninitialised memory filled with garbage, global generators reseeded and "
            "spied on; and in a second interpreter with another hash seed and heap history. All results are compared bit for bit, "
            "and any draw from a generator other than the given one is recorded. Non-trivial: at least one update. Distinct: "
            "configurations.")
    measure = "distinct (class, update rule, options, sizes) signatures"
    real = ["ssspy.bss (all classes)", "numpy", "a second Python process"]
    stubs = ["clock (time module)", "numpy.empty contents", "global random generators (spied)", "hash seed"]
    assumptions = ["same machine and numerical library, one BLAS thread"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng)
        ops = [{"n": zoo.late(rng, cfg, rng.choice([0, 1, 2, 3])), "init": rng.random() < 0.5, "fault": None} for _ in range(rng.choice([1, 1, 2]))]
        before = [zoo.gen(rng) for _ in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.3:
            before.append(dict(cfg, rng=cfg["rng"] + 1))
        return {"cfg": cfg, "ops": ops, "before": before, "salt": rng.randrange(1 << 30), "hashseed": rng.choice([0, 1])}

    def run(self, case):
        res = Result()
        cfg, ops = case["cfg"], case["ops"]
        who = zoo.brief(cfg)
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), cfg["kw"], cfg["C"], cfg["F"], [o["n"] for o in ops])
        with perturbed(case["salt"] + 1, [], plain=True):
            a = helper.digest(perform(cfg, ops))
        res.log("plain", a)
        for b in case["before"]:
            perform(b, [{"n": 1, "init": False, "fault": None}])
        np.random.seed(case["salt"] % (1 << 31))
        random.seed(case["salt"])
        used = []
        X = zoo.make_input(cfg)
        gen = np.random.default_rng(cfg["rng"])
        with perturbed(case["salt"], used):
            b = helper.digest(perform_with(cfg, ops, X, gen))
        res.stats["clock_jumps_offered"] += 1
        if used:
            res.bad("foreign-randomness", "%s drew on %s" % (who, sorted(set(used))))
        if not zoo.uses_rng(cfg) and gen.bit_generator.state != np.random.default_rng(cfg["rng"]).bit_generator.state:
            res.bad("foreign-randomness", "%s drew random numbers" % who)
        self.diff(res, who, a, b, "after other runs, with other clock, memory contents and global generator")
        if zoo.uses_rng(cfg) and cfg["cls"] != "CACGMM" and all(x[0] != "raised" for x in a):
            state = gen.bit_generator.state
            gen2 = np.random.default_rng(cfg["rng"])
            perform_with(cfg, [{"n": 0, "init": False, "fault": None}], X, gen2)
            if gen2.bit_generator.state != state:
                res.stats["draws_after_initialisation"] += 1
        c = HELPERS.ask(case["hashseed"], {"cfg": cfg, "ops": ops, "salt": case["salt"]})
        res.stats["second_process_runs"] += 1
        self.diff(res, who, a, c, "in another process with another hash seed")
        res.steps = sum(o["n"] for o in ops)
        res.nontrivial = res.steps > 0
        return res

    def diff(self, res, who, a, b, what):
        if a != b:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            res.bad("not-repeatable", "%s: %s is not the same %s" % (who, a[k][0] if k < len(a) else "outcome", what))

    def shrinks(self, case):
        yield from super().shrinks(case)
        ops = case["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, ops=ops[:i] + ops[i + 1:])
            if ops[i]["n"] > 0:
                yield dict(case, ops=ops[:i] + [dict(ops[i], n=ops[i]["n"] - 1)] + ops[i + 1:])
        yield from zoo.shrink_cfg(case)


def perform_with(cfg, ops, X, gen):
    from ..session import Session

    s = Session(cfg, X=X, rng=gen)
    return perform(cfg, ops, X, session=s)


CHECK = Repro()

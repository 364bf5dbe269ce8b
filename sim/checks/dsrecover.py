"""C03: the dataset cache recovers from any interrupted preparation."""
import os
import re
import shutil
import tempfile

from .. import dsworld, faults
from ..engine import Check, Result
from ..world import World


def describe(e):
    text = re.sub(r"/[^ '\"]*/(ds|dsh|dsc)\.[^/ ]*/", "<root>/", str(e))
    return "%s: %s" % (type(e).__name__, text[:160])


_profiles = {}


def profile(variant, req, warm=()):
    """Step kinds of a fault-free preparation of `req` after the fault-free preparations `warm`."""
    key = (variant, repr(sorted(req.items())), repr(warm))
    if key not in _profiles:
        d = tempfile.mkdtemp(prefix="dsp.", dir=os.environ.get("SSSPY_SIM_TMP"))
        try:
            with World(d, Result(), server=dsworld.servers(variant).urls) as w:
                roots = (os.path.join(d, "a"), os.path.join(d, "b"))
                for q in list(warm) + [req]:
                    p = w.new_proc("p")
                    w.run_as(p, lambda: dsworld.perform(q, roots))
                _profiles[key] = list(p.profile)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _profiles[key]


class DsRecover(Check):
    prop = "C03"
    quick_runs = 3500
    thorough_runs = 60000
    quick_wall = 150
    run_cpu_limit = 120
    shrink_lists = ("attempts",)
    rule = ("A run = 1-4 attempts to prepare sample data (same or different requests, fresh process each) with 1-3 faults "
            "placed on steps of the attempt's own fault-free profile (network errors, early end of body, process kill "
            "before/after/inside an operation, full disk, I/O error, Ctrl-C), then fault-free attempts. Non-trivial: a "
            "fault fired during an attempt. Distinct: (fault, step kind, relative step, outcome) sequence.")
    measure = "distinct sequences of (fault kind, step kind hit, position decile, outcome)"
    real = ["ssspy.utils.dataset (all)", "ssspy.io.wavread", "urllib.request.urlretrieve", "shutil.unpack_archive",
            "zipfile", "numpy savez/load", "scipy loadmat/resample", "kernel file system (scratch dir)"]
    stubs = ["HTTP servers and connections", "raw file layer", "process kill", "clock"]
    assumptions = ["servers announce the length of the body", "process-crash model, no power loss",
                   "failing stat calls are not injected"]

    def setup(self):
        for v in range(dsworld.N_VARIANTS):
            dsworld.servers(v)
        import scipy.io  # noqa: F401
        import scipy.signal  # noqa: F401

    def gen(self, rng, index, tier):
        variant = rng.randrange(dsworld.N_VARIANTS)
        base = dsworld.valid_request(rng)
        attempts = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
            req = base if rng.random() < 0.7 else dsworld.valid_request(rng)
            prof = profile(variant, req)
            if rng.random() < 0.12:
                fs = []
            else:
                fs = faults.place(rng, prof, rng.choice([1, 1, 1, 1, 2, 3]))
            attempts.append({"req": req, "faults": fs})
        final = [base] + [dsworld.valid_request(rng) for _ in range(rng.choice([0, 1]))]
        return {"variant": variant, "attempts": attempts, "final": final, "same_root": rng.random() < 0.15,
                "bufsize": rng.choice([512, 8192, 8192])}

    def shrinks(self, case):
        yield from super().shrinks(case)
        if len(case["final"]) > 1:
            yield dict(case, final=case["final"][:1])
            yield dict(case, final=case["final"][1:])
        for i, a in enumerate(case["attempts"]):
            for j in range(len(a["faults"])):
                c = dict(case, attempts=[dict(x) for x in case["attempts"]])
                c["attempts"][i]["faults"] = a["faults"][:j] + a["faults"][j + 1:]
                yield c
            if a["req"]["conv"]:
                c = dict(case, attempts=[dict(x) for x in case["attempts"]])
                c["attempts"][i]["req"] = dict(a["req"], conv=False)
                yield c

    def run(self, case):
        res = Result()
        d = tempfile.mkdtemp(prefix="ds.", dir=os.environ.get("SSSPY_SIM_TMP"))
        srv = dsworld.servers(case["variant"])
        roots = (os.path.join(d, "a"), os.path.join(d, "a" if case["same_root"] else "b"))
        try:
            with World(d, res, server=srv.urls, chunk=case["bufsize"]) as w:
                for i, a in enumerate(case["attempts"]):
                    p = w.new_proc("try%d" % i, a["faults"])
                    before = res.stats.copy()
                    st, v = w.run_as(p, lambda: dsworld.perform(a["req"], roots))
                    fired = sorted(k[6:] for k in res.stats if k.startswith("fault:") and res.stats[k] != before[k])
                    hit = [p.profile[f["step"]] for f in a["faults"] if f["step"] < len(p.profile)]
                    res.log("attempt", i, st, describe(v) if st == "raised" else None, fired)
                    res.shape(st, fired, hit, 10 * p.steps // 900, a["req"]["conv"], a["req"]["n"])
                    res.stats["attempt_" + st] += 1
                    if fired:
                        res.nontrivial = True
                    if st == "ok" and not dsworld.matches(v, srv.expected(a["req"])):
                        res.bad("wrong-data-under-faults", "attempt %d returned wrong data after faults %s" % (i, fired))
                    hard = [f for f in fired if f not in ("short_read", "short_write", "net_slow", "disk_slow")]
                    if st == "raised" and not hard:
                        res.bad("no-recovery", "attempt %d met no failing fault but raised %s" % (i, describe(v)))
                for j, req in enumerate(case["final"]):
                    p = w.new_proc("final%d" % j)
                    st, v = w.run_as(p, lambda: dsworld.perform(req, roots))
                    res.log("final", j, st, describe(v) if st == "raised" else None, p.steps)
                    if st != "ok":
                        res.bad("no-recovery", "after faults stopped, request %s raised %s" % (req, describe(v)))
                    elif not dsworld.matches(v, srv.expected(req)):
                        res.bad("wrong-data-after-faults", "after faults stopped, request %s returned wrong data" % req)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res


CHECK = DsRecover()

"""C04: a request's answer depends only on the request, not on what the cache has served before."""
import os
import shutil
import tempfile

import numpy as np

from .. import dsworld
from ..engine import Check, Result
from ..world import World
from .dsrecover import describe


class DsHist(Check):
    prop = "C04"
    quick_runs = 2500
    thorough_runs = 60000
    quick_wall = 120
    shrink_lists = ("ops",)
    rule = ("A run = 2-9 requests (random tag, reverberation, number of sources, duration, mixing mode; repeats are "
            "frequent) against one cache, with separate or shared roots, process restarts in between, and the network "
            "switched off for requests that were already served. Non-trivial: at least two different requests and one "
            "repeat. Distinct: sequence of requests and outcomes.")
    measure = "distinct request sequences"
    real = ["ssspy.utils.dataset (all)", "ssspy.io.wavread", "urllib.request.urlretrieve", "shutil.unpack_archive",
            "numpy savez/load", "scipy loadmat/resample", "kernel file system (scratch dir)"]
    stubs = ["HTTP servers and connections", "clock"]

    def setup(self):
        for v in range(dsworld.N_VARIANTS):
            dsworld.servers(v)
        import scipy.io  # noqa: F401
        import scipy.signal  # noqa: F401

    def gen(self, rng, index, tier):
        ops = []
        pool = [dsworld.request(rng)]
        for _ in range(rng.randrange(2, 10)):
            r = rng.random()
            if r < 0.35:
                q = rng.choice(pool)
            elif r < 0.75:  # one option changed
                q = dict(rng.choice(pool))
                q.update({k: v for k, v in dsworld.request(rng).items() if k == rng.choice(sorted(q))})
            else:
                q = dsworld.request(rng)
            if rng.random() < 0.03:
                q = dict(q, n=5)
            if rng.random() < 0.25:
                q = dict(q, dur=rng.choice([0.005, 0.018, 0.02]))
            pool.append(q)
            ops.append({"req": q, "offline": rng.random() < 0.6})
        return {"variant": rng.randrange(dsworld.N_VARIANTS), "ops": ops, "same_root": rng.random() < 0.25}

    def run(self, case):
        res = Result()
        d = tempfile.mkdtemp(prefix="dsh.", dir=os.environ.get("SSSPY_SIM_TMP"))
        srv = dsworld.servers(case["variant"])
        roots = (os.path.join(d, "a"), os.path.join(d, "a" if case["same_root"] else "b"))
        served = set()
        kinds = set()
        repeats = 0
        try:
            with World(d, res, server=srv.urls) as w:
                for i, op in enumerate(case["ops"]):
                    q = op["req"]
                    exp = srv.expected(q)
                    ident = [("s", q["n"], q["tag"])] + ([("m", q["n"], q["rev"])] if q["conv"] else [])
                    cached = all(k in served for k in ident)
                    p = w.new_proc("req%d" % i)
                    if cached and op["offline"]:
                        p.net_down = True
                        res.stats["fault:network_off_for_cached_request"] += 1
                    st, v = w.run_as(p, lambda: dsworld.perform(q, roots))
                    res.log(i, sorted(q.items()), st, describe(v) if st == "raised" else None, len(p.requests))
                    res.shape(sorted(q.items()), st, p.net_down)
                    if cached:
                        repeats += 1
                        if p.requests or p.net_down and "net" in p.profile:
                            res.bad("network-access-for-cached-data", "request %d %s was served before but used the network"
                                    % (i, q))
                    kinds.add(repr(sorted(q.items())))
                    if exp is None:
                        if st == "ok":
                            res.bad("impossible-request-answered", "request %d %s asks for data that do not exist but got "
                                    "shape %s" % (i, q, np.shape(v[0])))
                    elif isinstance(exp, str):
                        pass
                    elif st != "ok":
                        res.bad("request-fails-after-history", "request %d %s raised %s" % (i, q, describe(v)))
                    elif not dsworld.matches(v, exp):
                        res.bad("answer-depends-on-history", "request %d %s returned other data than in a clean cache" % (i, q))
                    if st == "ok":
                        served.update(ident)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res.nontrivial = len(kinds) >= 2 and repeats >= 1
        return res


CHECK = DsHist()

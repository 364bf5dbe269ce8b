"""C05: concurrent first uses of one cache, under every interleaving of their I/O."""
import os
import shutil
import tempfile

from .. import dsworld, faults
from ..engine import Check, Result
from ..world import Sched, World
from .dsrecover import describe, profile


class DsConc(Check):
    prop = "C05"
    quick_runs = 3000
    thorough_runs = 60000
    quick_wall = 150
    shrink_lists = ("plan", "warm")
    rule = ("A run = 2-3 clients preparing sample data in the same roots, switched by the scheduler at seeded raw I/O steps "
            "(network reads, file operations), optionally on a partly filled cache, optionally with one client killed at a "
            "seeded step; then one more request. Non-trivial: at least two context switches inside preparations. "
            "Distinct: switch/outcome signature.")
    measure = "distinct (switch sequence, crash, outcomes) signatures"
    real = ["ssspy.utils.dataset (all)", "ssspy.io.wavread", "urllib.request.urlretrieve", "shutil.unpack_archive",
            "zipfile", "numpy savez/load", "scipy loadmat/resample", "kernel file system (scratch dir)"]
    stubs = ["HTTP servers and connections", "raw file layer", "thread scheduler", "process kill", "clock"]
    assumptions = ["switches happen at raw I/O operations (the only points where clients can affect each other)",
                   "renaming and creating files are atomic, as on POSIX"]

    def setup(self):
        for v in range(dsworld.N_VARIANTS):
            dsworld.servers(v)
        import scipy.io  # noqa: F401
        import scipy.signal  # noqa: F401

    def gen(self, rng, index, tier):
        variant = rng.randrange(dsworld.N_VARIANTS)
        n = rng.choice([2, 2, 2, 3])
        base = dsworld.valid_request(rng)
        clients = []
        for i in range(n):
            if i == 0 or rng.random() < 0.6:
                q = base
            elif rng.random() < 0.6:
                q = dict(base)
                k = rng.choice(sorted(q))
                q[k] = dsworld.valid_request(rng)[k]
                if q["tag"] == dsworld.TAGS[0] and q["n"] > 3:
                    q["n"] = 3
            else:
                q = dsworld.valid_request(rng)
            clients.append({"req": q, "faults": []})
        length = [len(profile(variant, c["req"])) for c in clients]
        total = sum(length)
        style = rng.choice(["few", "few", "many", "pingpong", "handover"])
        if style == "few":
            at = sorted(rng.randrange(int(total * 0.8)) for _ in range(rng.choice([2, 3, 4, 6])))
            plan = [[t, k + 1] for k, t in enumerate(at)]
        elif style == "many":
            plan = [[rng.randrange(total), rng.randrange(n)] for _ in range(rng.choice([20, 60]))]
        elif style == "handover":  # let one client get far, let another pass it, hand back
            a = rng.randrange(length[0])
            b = a + rng.randrange(1, length[1 % n] + 1)
            plan = [[a, 1 % n], [b, 0], [b + rng.randrange(1, 40), 1 % n]]
        else:
            s = rng.randrange(1, 9)
            o = rng.randrange(total)
            plan = [[o + k * s, k % n] for k in range(rng.choice([10, 40]))]
        if rng.random() < 0.35:
            c = rng.randrange(n)
            clients[c]["faults"] = faults.place(rng, profile(variant, clients[c]["req"]), 1,
                                                kinds=("crash", "crash_after"))
        warm = [dsworld.valid_request(rng)] if rng.random() < 0.25 else []
        return {"variant": variant, "clients": clients, "plan": sorted(plan), "warm": warm,
                "same_root": rng.random() < 0.2, "first": 0, "after": dsworld.valid_request(rng)}

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i in range(len(case["clients"])):
            if len(case["clients"]) > 2:
                yield dict(case, clients=case["clients"][:i] + case["clients"][i + 1:])
            if case["clients"][i]["faults"]:
                c = dict(case, clients=[dict(x) for x in case["clients"]])
                c["clients"][i]["faults"] = []
                yield c
            if case["clients"][i]["req"]["conv"]:
                c = dict(case, clients=[dict(x) for x in case["clients"]])
                c["clients"][i]["req"] = dict(c["clients"][i]["req"], conv=False)
                yield c

    def run(self, case):
        res = Result()
        d = tempfile.mkdtemp(prefix="dsc.", dir=os.environ.get("SSSPY_SIM_TMP"))
        srv = dsworld.servers(case["variant"])
        roots = (os.path.join(d, "a"), os.path.join(d, "a" if case["same_root"] else "b"))
        try:
            with World(d, res, server=srv.urls) as w:
                for j, q in enumerate(case["warm"]):
                    p = w.new_proc("warm%d" % j)
                    w.run_as(p, lambda: dsworld.perform(q, roots))
                cl = case["clients"]
                procs = [w.new_proc("c%d" % i, c["faults"]) for i, c in enumerate(cl)]
                w.sched = Sched(res, case["plan"], len(cl))
                outs = w.sched.run([(lambda p=p, c=c: w.run_as(p, lambda: dsworld.perform(c["req"], roots)))
                                    for p, c in zip(procs, cl)], first=case["first"])
                switches = w.sched.switches
                w.sched = None
                for i, (st, v) in enumerate(outs):
                    res.log("client", i, st, describe(v) if st == "raised" else None)
                    res.shape(i, st, cl[i]["req"]["conv"], cl[i]["req"] == cl[0]["req"])
                    if st == "raised":
                        res.bad("concurrent-client-fails", "client %d of %d raised %s" % (i, len(cl), describe(v)))
                    elif st == "ok" and not dsworld.matches(v, srv.expected(cl[i]["req"])):
                        res.bad("concurrent-client-wrong-data", "client %d got wrong data" % i)
                for j, q in enumerate([case["after"], cl[0]["req"]]):
                    p = w.new_proc("after%d" % j)
                    st, v = w.run_as(p, lambda: dsworld.perform(q, roots))
                    res.log("after", st)
                    if st != "ok":
                        res.bad("cache-broken-after-race", "a later request raised %s" % describe(v))
                    elif not dsworld.matches(v, srv.expected(q)):
                        res.bad("cache-wrong-after-race", "a later request returned wrong data")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res.nontrivial = switches >= 2
        return res


CHECK = DsConc()

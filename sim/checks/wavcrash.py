"""C01: a WAV file is all-or-nothing under disk faults and crashes."""
import os
import shutil
import tempfile

import numpy as np

from .. import faults, wav
from ..engine import Check, Result
from ..world import World


def scratch():
    return tempfile.mkdtemp(prefix="wav.", dir=os.environ.get("SSSPY_SIM_TMP"))


class WavCrash(Check):
    prop = "C01"
    quick_runs = 60000
    thorough_runs = 400000
    quick_wall = 100
    run_cpu_limit = 60
    shrink_lists = ("attempts", "reads")
    rule = ("A run = optional old file, 1-3 write attempts of random waveforms, each with faults placed on steps of its "
            "own fault-free profile, each followed by fault-free and faulty reads. Non-trivial: at least one injected "
            "fault fired while a write or read was in flight. Distinct: different (fault kind, step kind and relative "
            "position, outcome of write, outcome of reads) signature.")
    measure = "distinct (step, fault, write outcome, read outcome) signatures"
    real = ["ssspy.io (wavwrite, wavread)", "numpy memmap", "CPython buffered I/O", "kernel file system (scratch dir)"]
    stubs = ["raw file layer (short/torn/failed writes, read errors, process kill)", "clock"]
    assumptions = ["process-crash model: completed raw writes survive, user-space buffers do not; no power loss",
                   "floating-point samples beyond full scale saturate"]

    def setup(self):
        import ssspy.io as sio

        self.sio = sio

    def gen(self, rng, index, tier):
        case = {"bufsize": rng.choice([16, 64, 512, 8192, 8192]), "old": wav.spec(rng) if rng.random() < 0.5 else None,
                "attempts": [], "reads": []}
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            s = wav.spec(rng)
            prof = self.profile(s, case["bufsize"])
            case["attempts"].append({"wave": s, "faults": faults.place(rng, prof, rng.choice([1, 1, 1, 2, 3]))})
        if rng.random() < 0.7:
            case["attempts"].append({"wave": wav.spec(rng), "faults": []})
        for _ in range(rng.choice([0, 1, 2])):
            case["reads"].append({"off": rng.randrange(0, 50), "num": rng.choice([None, rng.randrange(0, 60)]),
                                  "r2d": rng.choice([None, True, False]), "cf": rng.choice([None, True, False]),
                                  "faults": faults.place(rng, ["open"] + ["read"] * 6, rng.choice([0, 1, 1]),
                                                         kinds=("eio", "short", "interrupt", "crash"))})
        return case

    def profile(self, s, bufsize):
        d = scratch()
        try:
            with World(d, Result(), chunk=bufsize) as w:
                p = w.new_proc("p")
                arr, cf, _, _ = wav.make(s)
                w.run_as(p, lambda: self.sio.wavwrite(os.path.join(d, "a.wav"), arr, s["rate"], channels_first=cf))
                return list(p.profile)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, case):
        res = Result()
        d = scratch()
        try:
            with World(d, res, chunk=case["bufsize"]) as w:
                self._run(case, res, w, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def _run(self, case, res, w, d):
        path = os.path.join(d, "a.wav")
        cands = []  # contents the file may legitimately hold: list of (spec, exp, tol)
        certain = False  # the file must hold cands[-1]
        n = 0
        if case["old"]:
            arr, cf, exp, tol = wav.make(case["old"])
            p = w.new_proc("old")
            st, e = w.run_as(p, lambda: self.sio.wavwrite(path, arr, case["old"]["rate"], channels_first=cf))
            if st != "ok":
                res.bad("write-fails-without-fault", "fault-free write failed: %r" % (e,))
                return
            cands = [(case["old"], exp, tol)]
            certain = True
            self.check_reads(case, res, w, path, cands, True)
        for a in case["attempts"]:
            s = a["wave"]
            arr, cf, exp, tol = wav.make(s)
            keep = arr.copy()
            n += 1
            p = w.new_proc("w%d" % n, a["faults"])
            before = res.stats.copy()
            n_open = len(w.opened)
            st, e = w.run_as(p, lambda: self.sio.wavwrite(path, arr, s["rate"], channels_first=cf))
            if st != "crashed" and w.leaked():
                res.bad("file-left-open", "writer left the file open (%s)" % st)
            fired = sorted(k[6:] for k in res.stats if k.startswith("fault:") and res.stats[k] != before[k])
            if fired:
                res.nontrivial = True
            hard = [f for f in fired if f not in ("short_write", "short_read", "disk_slow", "enospc_partial")]
            res.log("write", n, st, type(e).__name__ if st == "raised" else None, fired)
            res.shape(st, fired, p.steps, [min(f["step"], 12) for f in a["faults"]], bool(cands), s["kind"][0])
            if not np.array_equal(arr, keep):
                res.bad("writer-modified-waveform", "the caller's waveform changed during a write")
            if st == "ok":
                cands, certain = [(s, exp, tol)], True
            else:
                if not hard:
                    res.bad("write-fails-without-fault", "write failed though no failing fault fired: %r" % (e,))
                cands, certain = cands + [(s, exp, tol)], False
            self.check_reads(case, res, w, path, cands, certain)

    def check_reads(self, case, res, w, path, cands, certain):
        reads = [{"off": 0, "num": None, "r2d": None, "cf": None, "faults": []},
                 {"off": 0, "num": None, "r2d": True, "cf": True, "faults": []}] + case["reads"]
        for i, r in enumerate(reads):
            p = w.new_proc("r%d" % i, r["faults"])
            before = res.stats.copy()
            st, v = w.run_as(p, lambda: self.sio.wavread(path, frame_offset=r["off"], num_frames=r["num"],
                                                         return_2d=r["r2d"], channels_first=r["cf"]))
            if st != "crashed" and w.leaked():
                res.bad("file-left-open", "reader left the file open (%s)" % st)
            fired = [k for k in res.stats if k.startswith("fault:") and res.stats[k] != before[k]]
            if fired:
                res.nontrivial = True
                res.shape("rf", sorted(fired), st)
            hard = [f for f in fired if f not in ("fault:short_read", "fault:disk_slow")]
            if st == "raised":
                res.log("read", i, "raised", type(v).__name__)
                if certain and not hard:
                    exp = cands[-1][1]
                    nf = exp.shape[0]
                    lo = r["off"]
                    hi = nf if r["num"] is None else lo + r["num"]
                    if lo <= nf and hi <= nf and hi >= lo:
                        res.bad("read-fails-without-fault",
                                "reading window (%s,%s) of a completely written file of %d frames raised %r"
                                % (r["off"], r["num"], nf, v))
            elif st == "ok":
                data, rate = v
                res.log("read", i, "ok", np.asarray(data).tobytes()[:64], np.shape(data), rate)
                allowed = [cands[-1]] if certain else cands
                if not any(self.matches(c, r, data, rate) for c in allowed):
                    res.bad("wrong-data" if certain else "wrong-data-after-failed-write",
                            "window (%s,%s): got shape %s rate %s, which is not the content of %s" % (
                                r["off"], r["num"], np.shape(data), rate,
                                "the last successful write" if certain else "any write attempted"))

    def matches(self, cand, r, data, rate):
        s, exp, tol = cand
        if rate != s["rate"]:
            return False
        lo = r["off"]
        hi = exp.shape[0] if r["num"] is None else lo + r["num"]
        if hi > exp.shape[0] or lo > exp.shape[0]:
            return False
        return wav.same(wav.as_frames(data, s["n_ch"], r["r2d"], r["cf"]), exp[lo:hi], tol)

    def shrinks(self, case):
        yield from super().shrinks(case)
        if case["old"]:
            yield dict(case, old=None)
        for i, a in enumerate(case["attempts"]):
            for j in range(len(a["faults"])):
                c = dict(case, attempts=[dict(x) for x in case["attempts"]])
                c["attempts"][i]["faults"] = a["faults"][:j] + a["faults"][j + 1:]
                yield c
            if a["wave"]["frames"] > 1:
                for m in (1, a["wave"]["frames"] // 2):
                    c = dict(case, attempts=[dict(x) for x in case["attempts"]])
                    c["attempts"][i]["wave"] = dict(a["wave"], frames=m)
                    yield c


CHECK = WavCrash()

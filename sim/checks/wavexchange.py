"""C24: WAV files are shared with other programs."""
import os
import shutil
import tempfile

import numpy as np

from .. import faults, riff, wav
from ..engine import Check, Result
from ..world import Sched, World
from .wavhist import rand_window

MILD = ("short", "slow")


class WavExchange(Check):
    prop = "C24"
    quick_runs = 40000
    thorough_runs = 250000
    quick_wall = 100
    run_cpu_limit = 60
    rule = ("A run = 1-3 clients with 2-8 operations each on own and shared files, interleaved by the scheduler at raw I/O "
            "steps: the library writes a random waveform, another program (an independent strict RIFF implementation) reads "
            "it; another program writes a file (8/16/24/32-bit, float, extensible, extra chunks, 1-4 channels) or is killed "
            "while writing, the library reads windows of it. Library operations meet short reads and writes, I/O errors, a "
            "full disk and signals. Non-trivial: at least one file crossed in each direction or a faulty one did. Distinct: "
            "signature of (operation, form, outcome).")
    measure = "distinct sequences of (operation, file form, outcome, context switch)"
    real = ["ssspy.io (wavread, wavwrite)", "numpy memmap", "CPython buffered I/O", "kernel file system (scratch dir)"]
    stubs = ["raw file layer (faults)", "thread scheduler", "clock", "the other programs (sim/riff.py)"]
    assumptions = ["a file is not rewritten while it is being read",
                   "files that are not plain PCM (16-byte format chunk directly followed by 8-, 16- or 32-bit samples) may be refused"]
    shrink_lists = ("plan",)

    def setup(self):
        import ssspy.io as sio

        self.sio = sio

    def gen(self, rng, index, tier):
        n = rng.choice([1, 1, 2, 3])
        shared = [riff.spec(rng) if rng.random() < 0.6 else wav.spec(rng) for _ in range(rng.choice([1, 1, 2]))]
        clients = []
        for c in range(n):
            ops = []
            own = {}
            for _ in range(rng.randrange(2, 9)):
                r = rng.random()
                f = rng.randrange(2)
                if r < 0.2:
                    own[f] = wav.spec(rng)
                    ops.append({"op": "lib", "f": ["o", f], "wave": own[f]})
                    if rng.random() < 0.35:
                        ops[-1]["faults"] = faults.place(rng, ["create"] + ["write"] * 14, rng.choice([1, 1, 2]),
                                                         kinds=rng.choice([MILD, MILD, ("enospc", "eio", "short", "interrupt")]))
                elif r < 0.42:
                    own[f] = riff.spec(rng)
                    ops.append({"op": "tool", "f": ["o", f], "file": own[f], "killed": round(rng.random(), 3) if rng.random() < 0.15 else None})
                else:
                    pool = [("s", i) for i in range(len(shared))] + [("o", i) for i in sorted(own)]
                    tag, i = rng.choice(pool)
                    s = shared[i] if tag == "s" else own[i]
                    if r < 0.65:
                        ops.append({"op": "toolread", "f": [tag, i]})
                    else:
                        off, num = rand_window(rng, s["frames"])
                        if rng.random() < 0.4:
                            off, num = 0, None
                        ops.append({"op": "libread", "f": [tag, i], "off": off, "num": num, "r2d": rng.choice([None, True, False]),
                                    "cf": rng.choice([None, True, False])})
                        if rng.random() < 0.2:
                            ops[-1]["faults"] = faults.place(rng, ["open"] + ["read"] * 6, 1, kinds=("eio", "short", "interrupt"))
            clients.append({"ops": ops})
        plan = sorted([rng.randrange(0, 120), rng.randrange(n)] for _ in range(rng.choice([0, 4, 10, 25])))
        return {"shared": shared, "clients": clients, "plan": plan if n > 1 else [], "bufsize": rng.choice([16, 64, 8192])}

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i in range(len(case["clients"])):
            if len(case["clients"]) > 1:
                yield dict(case, clients=case["clients"][:i] + case["clients"][i + 1:], plan=[])
            ops = case["clients"][i]["ops"]
            for j in range(len(ops)):
                c = dict(case, clients=list(case["clients"]))
                c["clients"][i] = {"ops": ops[:j] + ops[j + 1:]}
                yield c
            for j, op in enumerate(ops):
                for k in ("wave", "file"):
                    if k in op and op[k]["frames"] > 1:
                        c = dict(case, clients=list(case["clients"]))
                        c["clients"][i] = {"ops": ops[:j] + [dict(op, **{k: dict(op[k], frames=op[k]["frames"] // 2)})] + ops[j + 1:]}
                        yield c

    def run(self, case):
        res = Result()
        d = tempfile.mkdtemp(prefix="wavx.", dir=os.environ.get("SSSPY_SIM_TMP"))
        try:
            with World(d, res, chunk=case["bufsize"]) as w:
                self._run(case, res, w, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def _run(self, case, res, w, d):
        files = {}  # path -> dict(by, spec, exp, tol, rate, whole)
        seen = {"out": 0, "in": 0, "faulty": 0}
        for i, s in enumerate(case["shared"]):
            path = os.path.join(d, "s%d.wav" % i)
            if "bits" in s:
                self.tool_write(path, s, None, files)
            else:
                arr, cf, exp, tol = wav.make(s)
                self.sio.wavwrite(path, arr, s["rate"], channels_first=cf)
                files[path] = dict(by="lib", exp=exp, tol=tol, rate=s["rate"], whole=True, kind=s["kind"], sure=True)

        def client(c, ops):
            proc = w.new_proc("c%d" % c)

            def body():
                for i, op in enumerate(ops):
                    self.do(op, c, i, res, w, d, files, proc, seen)

            return lambda: w.run_as(proc, body)

        fns = [client(c, cl["ops"]) for c, cl in enumerate(case["clients"])]
        if len(fns) > 1:
            w.sched = Sched(res, case["plan"], len(fns))
            outs = w.sched.run(fns)
            w.sched = None
        else:
            outs = [fns[0]()]
        for st, e in outs:
            if st == "raised":
                raise e
        if w.leaked():
            res.bad("file-left-open", "a file is still open at the end")
        res.nontrivial = bool(seen["out"] and seen["in"] or seen["faulty"])

    def tool_write(self, path, s, killed, files):
        b, exp = riff.write(s)
        n = len(b) if killed is None else int(len(b) * killed)
        with open(path, "wb") as f:
            f.write(b[:n])
        files[path] = dict(by="tool", exp=exp, tol=0.0, rate=s["rate"], whole=n == len(b), kind=(s["form"], s["bits"]),
                           sure=n == len(b) and riff.must_read(s))

    def do(self, op, c, i, res, w, d, files, proc, seen):
        tag, n = op["f"]
        path = os.path.join(d, "s%d.wav" % n if tag == "s" else "c%d_%d.wav" % (c, n))
        name = os.path.basename(path)
        m = files.get(path)
        if op["op"] == "tool":
            self.outside(lambda: self.tool_write(path, op["file"], op["killed"], files))
            if op["killed"] is not None:
                res.stats["fault:other_program_killed"] += 1
            res.log("tool", c, i, op["killed"])
            res.shape("t", files[path]["kind"], files[path]["whole"])
        elif op["op"] == "lib":
            arr, cf, exp, tol = wav.make(op["wave"])
            files.pop(path, None)
            err, hard, any_ = self.faulty(op, proc, res, lambda: self.sio.wavwrite(path, arr, op["wave"]["rate"], channels_first=cf))[1:]
            seen["faulty"] += any_
            res.log("lib", c, i, type(err).__name__)
            res.shape("l", op["wave"]["kind"], op["wave"]["n_ch"], op["wave"]["frames"] & 1, err is None, any_)
            if err is None:
                files[path] = dict(by="lib", exp=exp, tol=tol, rate=op["wave"]["rate"], whole=True, kind=op["wave"]["kind"], sure=True)
            elif not hard:
                res.bad("write-fails-without-fault", "writing %s raised %r" % (name, err))
        elif op["op"] == "toolread":
            if m is None or m["by"] != "lib":
                return
            seen["out"] += 1
            b = self.outside(lambda: open(path, "rb").read())
            try:
                got, rate, bits = riff.read(b)
            except riff.NotWave as e:
                res.bad("not-a-wave-file", "%s, written by the library from %s data of shape %s, is refused by another reader: %s"
                        % (name, m["kind"], m["exp"].shape, e))
                return
            res.log("toolread", c, i, got.shape, rate, bits)
            res.shape("T", m["kind"], got.shape[1])
            if rate != m["rate"] or got.shape != m["exp"].shape or not np.all(np.abs(got - m["exp"]) <= m["tol"] + 1e-12):
                res.bad("other-reader-disagrees", "%s, written by the library from %s data of shape %s at %d Hz, is read by another "
                        "program as %s at %d Hz%s" % (name, m["kind"], m["exp"].shape, m["rate"], got.shape, rate,
                                                      ", with other samples" if got.shape == m["exp"].shape else ""))
        elif op["op"] == "libread":
            if m is None:
                return
            nf, nc = m["exp"].shape
            off, num = op["off"], op["num"]
            valid = 0 <= off <= nf and (num is None or (num >= 0 and off + num <= nf))
            val, err, hard, any_ = self.faulty(op, proc, res, lambda: self.sio.wavread(
                path, frame_offset=off, num_frames=num, return_2d=op["r2d"], channels_first=op["cf"]))
            seen["faulty"] += any_
            seen["in"] += m["by"] == "tool"
            res.shape("r", m["by"], m["kind"], nc, err is None, valid, any_)
            if err is not None:
                res.log("libread", c, i, type(err).__name__)
                if valid and not hard and m["sure"]:
                    res.bad("cannot-read", "window (%s,%s) of %s (%s, %s, %d frames, %d channels) raised %r"
                            % (off, num, name, m["by"], m["kind"], nf, nc, err))
                return
            data, rate = val
            res.log("libread", c, i, np.asarray(data).tobytes()[:64], np.shape(data), rate)
            if not valid:
                res.bad("out-of-range-window-returns", "window (%s,%s) of a %d-frame file returned shape %s" % (off, num, nf, np.shape(data)))
                return
            hi = nf if num is None else off + num
            if rate != m["rate"] or not wav.same(wav.as_frames(data, nc, op["r2d"], op["cf"]), m["exp"][off:hi], m["tol"]):
                res.bad("wrong-samples", "window (%s,%s) of %s (%s, %s, %d frames, %d channels at %d Hz%s) was read as shape %s at %s Hz with "
                        "other samples" % (off, num, name, "by another program" if m["by"] == "tool" else "by the library", m["kind"], nf, nc,
                                           m["rate"], "" if m["whole"] else ", incomplete", np.shape(data), rate))

    def faulty(self, op, proc, res, fn):
        """Run fn with the operation's faults. -> (value, exception, a failing fault fired, any fault fired)"""
        base = proc.steps
        for f in op.get("faults", []):
            proc.faults[base + f["step"]] = f
        before = res.stats.copy()
        val = err = None
        try:
            val = fn()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        for k in [k for k in proc.faults if k >= base]:
            del proc.faults[k]
        proc.disk_dead = proc.disk_full = proc.enospc_next = False
        fired = [k[6:] for k in res.stats if k.startswith("fault:") and res.stats[k] != before[k]]
        hard = [f for f in fired if f not in ("short_write", "short_read", "disk_slow", "other_program_killed")]
        return val, err, bool(hard), bool(fired)

    def outside(self, fn):
        from .. import world

        p, world._tls.proc = world.cur_proc(), None
        try:
            return fn()
        finally:
            world._tls.proc = p


CHECK = WavExchange()

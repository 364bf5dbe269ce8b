"""C02: any history of windowed reads, rewrites and removals by several clients."""
import os
import shutil
import tempfile

import numpy as np

from .. import faults, wav
from ..engine import Check, Result
from ..world import Sched, World


def rand_window(rng, n):
    """Windows biased to the boundaries of a file with n frames."""
    off = rng.choice([0, 0, 1, n, n - 1, n + 1, -1, rng.randrange(0, n + 1), rng.randrange(0, n + 1), rng.randrange(-3, n + 4)])
    left = n - off
    num = rng.choice([None, None, 0, 1, left, left - 1, left + 1, -1, rng.randrange(0, n + 2),
                      rng.randrange(0, max(1, left + 1)), rng.randrange(0, max(1, left + 1))])
    return off, num


class WavHist(Check):
    prop = "C02"
    quick_runs = 40000
    thorough_runs = 200000
    quick_wall = 100
    run_cpu_limit = 60
    rule = ("A run = 1-3 clients with 3-12 operations each (write, rewrite, remove, cut short, windowed read with random "
            "layout flags, scribble over an array returned earlier) on own and shared files, interleaved by the "
            "scheduler at raw I/O steps, some reads with injected disk faults. Non-trivial: at least one partial-window "
            "read succeeded and a file was later rewritten, removed or cut. Distinct: operation/outcome/switch signature.")
    measure = "distinct sequences of (operation, outcome, context switch)"
    real = ["ssspy.io (wavread, wavwrite)", "numpy memmap", "CPython buffered I/O", "kernel file system (scratch dir)"]
    stubs = ["raw file layer", "thread scheduler", "clock"]
    assumptions = ["a file is not rewritten while a read of the same file is in progress (callers serialise that)"]

    def setup(self):
        import ssspy.io as sio

        self.sio = sio

    def gen(self, rng, index, tier):
        n_clients = rng.choice([1, 2, 2, 3])
        shared = [wav.spec(rng) for _ in range(rng.choice([1, 1, 2]))]
        clients = []
        for c in range(n_clients):
            ops = []
            sizes = {("s", i): s["frames"] for i, s in enumerate(shared)}
            for _ in range(rng.randrange(3, 13)):
                r = rng.random()
                if r < 0.25 or len(sizes) == len(shared):
                    f = rng.randrange(2)
                    s = wav.spec(rng)
                    ops.append({"op": "write", "f": ["o", f], "wave": s})
                    sizes[("o", f)] = s["frames"]
                elif r < 0.78:
                    key = rng.choice(sorted(sizes))
                    off, num = rand_window(rng, sizes[key])
                    op = {"op": "read", "f": list(key), "off": off, "num": num, "r2d": rng.choice([None, True, False]),
                          "cf": rng.choice([None, True, False])}
                    if rng.random() < 0.15:
                        op["faults"] = faults.place(rng, ["open"] + ["read"] * 4, 1, kinds=("eio", "short", "interrupt"))
                    ops.append(op)
                elif r < 0.86:
                    ops.append({"op": "scribble", "k": rng.randrange(8)})
                elif r < 0.93:
                    ops.append({"op": "remove", "f": ["o", rng.randrange(2)]})
                else:
                    ops.append({"op": "cut", "f": ["o", rng.randrange(2)], "frac": round(rng.random(), 3)})
            clients.append({"ops": ops})
        plan = sorted([rng.randrange(0, 120), rng.randrange(n_clients)] for _ in range(rng.choice([0, 4, 10, 25])))
        return {"shared": shared, "clients": clients, "plan": plan if n_clients > 1 else [],
                "bufsize": rng.choice([16, 128, 8192])}

    shrink_lists = ("plan",)

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i in range(len(case["clients"])):
            if len(case["clients"]) > 1:
                yield dict(case, clients=case["clients"][:i] + case["clients"][i + 1:])
            ops = case["clients"][i]["ops"]
            for j in range(len(ops)):
                c = dict(case, clients=list(case["clients"]))
                c["clients"][i] = {"ops": ops[:j] + ops[j + 1:]}
                yield c

    def run(self, case):
        res = Result()
        d = tempfile.mkdtemp(prefix="wavh.", dir=os.environ.get("SSSPY_SIM_TMP"))
        try:
            with World(d, res, chunk=case["bufsize"]) as w:
                self._run(case, res, w, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def _run(self, case, res, w, d):
        files = {}  # path -> dict(spec, exp, tol, bytes, whole, damaged)
        held = []  # arrays returned so far: (array, copy)
        real_read = lambda p: open(p, "rb").read()  # noqa: E731  (outside any simulated process)

        def note_written(path, s, exp, tol):
            files[path] = {"spec": s, "exp": exp, "tol": tol, "bytes": None, "whole": None, "damaged": False}

        for i, s in enumerate(case["shared"]):
            path = os.path.join(d, "s%d.wav" % i)
            arr, cf, exp, tol = wav.make(s)
            self.sio.wavwrite(path, arr, s["rate"], channels_first=cf)
            note_written(path, s, exp, tol)
            files[path]["bytes"] = real_read(path)

        seen = {"win": 0, "later": 0}

        def client(c, ops):
            proc = w.new_proc("c%d" % c)

            def body():
                for i, op in enumerate(ops):
                    self.do(op, c, i, res, w, d, files, held, proc, note_written, real_read, seen)

            return lambda: w.run_as(proc, body)

        fns = [client(c, cl["ops"]) for c, cl in enumerate(case["clients"])]
        if len(fns) > 1:
            w.sched = Sched(res, case["plan"], len(fns))
            outs = w.sched.run(fns)
            w.sched = None
        else:
            outs = [fns[0]()]
        for st, e in outs:
            if st == "raised":
                raise e
        for k, (a, keep) in enumerate(held):
            if not np.array_equal(a, keep):
                res.bad("returned-array-changed", "array %d returned earlier no longer has its contents" % k)
        for path, m in sorted(files.items()):
            if m["bytes"] is not None and real_read(path) != m["bytes"]:
                res.bad("file-changed", "%s changed though nobody wrote it" % os.path.basename(path))
        if w.leaked():
            res.bad("file-left-open", "a file is still open at the end")
        res.nontrivial = bool(seen["win"] and seen["later"])

    def do(self, op, c, i, res, w, d, files, held, proc, note_written, real_read, seen):
        kind = op["op"]
        if kind == "scribble":
            if held:
                a, keep = held[op["k"] % len(held)]
                if a.flags.writeable and a.size:
                    a += 1.0
                    held[op["k"] % len(held)] = (a, a.copy())
                    res.stats["scribbles"] += 1
            return
        tag, n = op["f"]
        path = os.path.join(d, "s%d.wav" % n if tag == "s" else "c%d_%d.wav" % (c, n))
        if kind == "write":
            if path in files:
                seen["later"] += 1
            arr, cf, exp, tol = wav.make(op["wave"])
            files.pop(path, None)
            self.sio.wavwrite(path, arr, op["wave"]["rate"], channels_first=cf)
            note_written(path, op["wave"], exp, tol)
            files[path]["bytes"] = self.outside(lambda: real_read(path))
            res.log("write", c, i)
            res.shape("w")
        elif kind == "remove":
            if path in files:
                del files[path]
                self.outside(lambda: os.remove(path))
                seen["later"] += 1
                res.shape("rm")
        elif kind == "cut":
            if path in files:
                size = int(len(files[path]["bytes"]) * op["frac"])
                self.outside(lambda: os.truncate(path, size))
                files[path]["bytes"] = files[path]["bytes"][:size]
                files[path]["damaged"] = True
                seen["later"] += 1
                res.stats["fault:file_cut_short"] += 1
                res.shape("cut")
        elif kind == "read":
            m = files.get(path)
            base = proc.steps
            for f in op.get("faults", []):
                proc.faults[base + f["step"]] = f
            before = sum(v for k, v in res.stats.items() if k in ("fault:eio", "fault:keyboard_interrupt"))
            try:
                data, rate = self.sio.wavread(path, frame_offset=op["off"], num_frames=op["num"], return_2d=op["r2d"],
                                              channels_first=op["cf"])
                err = None
            except (Exception, KeyboardInterrupt) as e:
                err = e
            for k in [k for k in proc.faults if k >= base]:
                del proc.faults[k]
            proc.disk_dead = proc.disk_full = proc.enospc_next = False
            hard = sum(v for k, v in res.stats.items() if k in ("fault:eio", "fault:keyboard_interrupt")) != before
            if m is None:
                if err is None:
                    res.bad("read-of-absent-file", "reading an absent file returned data")
                return
            nf = m["exp"].shape[0]
            off, num = op["off"], op["num"]
            valid = 0 <= off <= nf and (num is None or (num >= 0 and off + num <= nf))
            if err is not None:
                res.log("read", c, i, "raised", type(err).__name__)
                res.shape("r", "x", valid, hard)
                if valid and not hard and not m["damaged"]:
                    res.bad("valid-window-raises", "window (%s,%s) of %d frames raised %r" % (off, num, nf, err))
                return
            held.append((data, np.array(data)))
            res.log("read", c, i, np.asarray(data).tobytes()[:64], np.shape(data), rate)
            res.shape("r", valid, num is None, off == 0, op["r2d"], op["cf"], m["spec"]["n_ch"])
            if not valid:
                res.bad("out-of-range-window-returns", "window (%s,%s) of a %d-frame file returned shape %s instead of raising"
                        % (off, num, nf, np.shape(data)))
                return
            hi = nf if num is None else off + num
            if (off, hi) != (0, nf):
                seen["win"] += 1
            got = wav.as_frames(data, m["spec"]["n_ch"], op["r2d"], op["cf"])
            if rate != m["spec"]["rate"] or not wav.same(got, m["exp"][off:hi], m["tol"]):
                res.bad("wrong-window", "window (%s,%s) of %d frames x %d ch (flags %s %s): shape %s, wrong content" % (
                    off, num, nf, m["spec"]["n_ch"], op["r2d"], op["cf"], np.shape(data)))
                return
            if not m["damaged"]:
                if m["whole"] is None:
                    m["whole"] = self.outside(lambda: np.array(self.sio.wavread(path, return_2d=True)[0]))
                if not np.array_equal(got, m["whole"][off:hi]):
                    res.bad("window-disagrees-with-whole", "window (%s,%s) differs from the whole-file read" % (off, num))
            if self.outside(lambda: real_read(path)) != m["bytes"]:
                res.bad("read-changed-file", "a read changed the file")

    def outside(self, fn):
        from .. import world

        p, world._tls.proc = world.cur_proc(), None
        try:
            return fn()
        finally:
            world._tls.proc = p


CHECK = WavHist()

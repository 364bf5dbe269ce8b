"""C12: after an interruption anywhere, the object is well formed and a further run keeps every guarantee."""
import copy

import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import Session, dry_counts, gen_fault, shrink_fault


def expected_shapes(cfg):
    C, F, T = cfg["C"], cfg.get("F"), cfg["T"]
    N = cfg.get("N") or C
    K = cfg["kw"].get("n_basis")
    cls = cfg["cls"]
    out = {}
    if zoo.has_filter(cfg):
        out["demix_filter"] = (C, C) if cls in zoo.ICA else (F, C, C)
        out["output"] = (C, T) if cls in zoo.ICA else (C, F, T)
    else:
        out["output"] = None
    if cls in zoo.ILRMA + ["GaussMNMF"]:
        part = cfg["kw"].get("partitioning")
        n = C if cls in zoo.ILRMA else N
        out["basis"] = (F, K) if part else (n, F, K)
        out["activation"] = (K, T) if part else (n, K, T)
        if part:
            out["latent"] = (n, K)
    if cls == "GaussMNMF":
        out["spatial"] = (N, F, C, C)
    if cls == "FastGaussMNMF":
        out["spatial"], out["diagonalizer"] = (F, N, C), (F, C, C)
        out["basis"], out["activation"] = (N, F, K), (N, K, T)
    if cls in zoo.IPSDTA:
        out["activation"] = (C, K, T)
    if cls == "CACGMM":
        out["mixing"], out["covariance"], out["posterior"] = (N, F), (N, F, C, C), (N, F, T)
    return out


def well_formed(obj, cfg, complete):
    """-> complaint or None"""
    shapes = expected_shapes(cfg)
    for k in zoo.state_keys(cfg) + ["output", "posterior"]:
        v = getattr(obj, k, None)
        if v is None:
            if complete and k in shapes and not (k == "demix_filter" and zoo.by_signal(cfg)):
                return "%s is missing" % k
            continue
        if not all(isinstance(a, np.ndarray) for a in zoo.flat(v)):
            return "%s is a %s" % (k, type(v).__name__)
        if not zoo.finite(v):
            return "%s is not finite" % k
        if shapes.get(k) is not None and v.shape != shapes[k]:
            return "%s has shape %s instead of %s" % (k, v.shape, shapes[k])
    if obj.loss is not None and not all(np.isfinite(x) for x in obj.loss) and cfg["cls"] not in zoo.ADMM:
        return "recorded losses are not finite: %s" % obj.loss
    return None


def output_error(obj, cfg, X, Y):
    """How far the output is from what the reported filter extracts (or from the row space of the input)."""
    if not zoo.has_filter(cfg):
        return 0.0
    if obj.demix_filter is None:
        W = zoo.recovered_filter(X, Y)
    else:
        W = obj.demix_filter
    Z = obj.whitened_input if zoo.whitened(cfg) else X
    return zoo.dist(zoo.apply_filter(W, Z), Y)


class Interrupt(Check):
    prop = "C12"
    quick_runs = 14000
    thorough_runs = 120000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = 1-3 interrupted runs of one object (exception, keyboard interrupt, memory error or numerical failure at a "
            "seeded source line, numpy.linalg call, user-function call or callback), each followed by a look at the whole state, "
            "then a run without faults. Non-trivial: an interruption fired and the following run finished. Distinct: "
            "(configuration kind, where it was interrupted).")
    measure = "distinct (class, update rule, interruption point) signatures"
    real = ["ssspy.bss (all classes)", "numpy"]
    stubs = ["callbacks and user functions", "interpreter line hook (interrupts)", "numpy.linalg failure injector"]
    assumptions = ["interrupts arrive between source lines", "flooring is on", "every source is visited by the pair schedule"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, floors=("max", "max", "add"))
        if "pairs" in cfg:
            cfg["pairs"] = rng.choice(["default", "combination", "sequential"])
        if cfg["cls"] in zoo.ADMM + zoo.PDS:  # their first iterations give a zero or diagonal filter: no scale to restore
            cfg["kw"]["scale_restoration"] = False
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 1, 2, 3])
            ops.append({"n": n, "init": rng.random() < 0.6, "fault": gen_fault(rng, ("cb", "user", "linalg", "line", "line", "line"), n)})
        return {"cfg": cfg, "ops": ops, "n": zoo.late(rng, cfg, rng.choice([1, 2, 3])), "init": rng.random() < 0.6}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        ok = Session(cfg)
        r = ok.run(sum(o["n"] for o in case["ops"]) + case["n"], True)
        if r[0] != "ok" or not all(zoo.finite(getattr(ok.obj, k, None)) for k in zoo.state_keys(cfg) + ["output"]):
            res.stats["numerically_singular_skipped"] += 1
            return res
        s = Session(cfg)
        where = []
        for i, op in enumerate(case["ops"]):
            counts = dry_counts(cfg, op["n"], op["init"])
            r, v = s.run(op["n"], op["init"], op["fault"], counts)
            if r == "raise" and not s.fired:
                res.bad("later-run-failed", "%s: run %d raised %s: %s after earlier interruptions at %s"
                        % (who, i, type(v).__name__, v, where))
                return res
            if s.fired:
                where.append("%s (%s)" % (s.user_where or op["fault"][0], op["fault"][-1]))
                res.stats["fault_" + op["fault"][0]] += 1
            c = well_formed(s.obj, cfg, False)
            if c:
                res.bad("malformed-state", "%s: after interruption at %s %s" % (who, where, c))
                return res
            res.log(i, r, s.user_where)
            res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), op["fault"][0], s.user_where, r)
        twin = self.twin(cfg, s)
        calls = len(s.events)
        before = len(s.obj.loss) if s.obj.loss is not None else 0
        r, v = s.run(case["n"], case["init"])
        res.log("final", r, v if r == "raise" else v.tobytes()[:64])
        if r == "raise" and case["n"] > 10 and isinstance(v, np.linalg.LinAlgError) and (
                twin is None or twin.run(case["n"], case["init"], **twin.state)[0] == "raise"):
            res.stats["numerically_singular_skipped"] += 1  # long runs may end in a filter that cannot be inverted
            return res
        if r == "raise":
            res.bad("later-run-failed", "%s: run after interruption at %s raised %s: %s" % (who, where, type(v).__name__, v))
            return res
        c = well_formed(s.obj, cfg, True)
        if c:
            res.bad("malformed-state", "%s: after a full run following interruption at %s: %s" % (who, where, c))
            return res
        if zoo.dist(v, s.obj.output) > 0:
            res.bad("output", "%s: the returned signal is not the reported output" % who)
        e = output_error(s.obj, cfg, s.X, v)
        if e > 1e-6:
            res.bad("output", "%s: output differs by %.3g from what the filter extracts, after interruption at %s" % (who, e, where))
        want = case["n"] + (1 if case["init"] else 0)
        if s.obj.loss is not None and len(s.obj.loss) - before != want or len(s.events) - calls != want:
            res.bad("protocol", "%s: run of %d iterations after interruption at %s: %d callbacks, %s losses"
                    % (who, case["n"], where, len(s.events) - calls, s.obj.loss and len(s.obj.loss) - before))
        if twin is not None and not res.violations:
            tr, tv = twin.run(case["n"], case["init"], **twin.state)
            if tr == "raise":
                if not isinstance(tv, np.linalg.LinAlgError):
                    raise tv
                return res
            self.compare(res, who, cfg, s, twin, before, want, where)
        res.steps += case["n"]
        res.nontrivial = bool(where)
        return res

    def twin(self, cfg, s):
        """A fresh object given the visible state of the interrupted one: what else an interruption left behind must not matter."""
        state = zoo.snap(s.obj, cfg)
        signal = zoo.by_signal(cfg) and state.get("demix_filter", 0) is None
        missing = [k for k, v in state.items() if v is None and not (k == "demix_filter" and signal)]
        if cfg["cls"] == "CACGMM":  # starts over with parameters drawn from its generator
            state = {}
        elif missing or (signal and getattr(s.obj, "output", None) is None):
            return None
        t = Session(cfg, rng=copy.deepcopy(getattr(s.obj, "rng", None)))
        t.state = {k: v for k, v in state.items() if v is not None}
        if signal:  # continues from its output, which is no argument
            if t.run(0, False, **t.state)[0] != "ok":
                return None
            t.state = {}
            t.obj.output, t.obj.demix_filter = s.obj.output.copy(), None
        return t

    def compare(self, res, who, cfg, s, t, before, want, where):
        res.stats["compared_with_fresh_object"] += 1
        for k in zoo.state_keys(cfg) + ["output"]:
            e = zoo.dist(getattr(s.obj, k, None), getattr(t.obj, k, None))
            if e > 1e-6:
                res.bad("leftover", "%s: after interruption at %s a run ends with %s differing by %.3g from that of a fresh object "
                        "given the same state" % (who, where, k, e))
                return
        if s.obj.loss is not None and not zoo.loss_dist(s.obj.loss[before:], t.obj.loss[-want:]) <= 1e-6:
            res.bad("leftover", "%s: after interruption at %s a run records losses %s, a fresh object given the same state %s"
                    % (who, where, s.obj.loss[before:], t.obj.loss[-want:]))

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i, op in enumerate(case["ops"]):
            def put(**k):
                return dict(case, ops=case["ops"][:i] + [dict(op, **k)] + case["ops"][i + 1:])
            for f in shrink_fault(op["fault"]):
                if f is not None:
                    yield put(fault=f)
            if op["n"] > 1:
                yield put(n=op["n"] - 1)
            if op["init"]:
                yield put(init=False)
        if case["n"] > 1:
            yield dict(case, n=1)
        if case["init"]:
            yield dict(case, init=False)
        yield from zoo.shrink_cfg(case)


CHECK = Interrupt()

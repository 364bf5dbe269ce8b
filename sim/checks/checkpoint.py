"""C08: the process is lost at an iteration boundary; a fresh object continues from the saved public state."""
import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import Session
from .resume import TOL, compare, finish, sensitivity

CLASSES = [c for c in zoo.ALL if c != "CACGMM"]


class Checkpoint(Check):
    prop = "C08"
    quick_runs = 20000
    thorough_runs = 100000
    quick_wall = 110
    shrink_lists = ("cuts",)
    rule = ("A run = one separation of n (1-7) iterations on a reference object, and the same separation by a chain of "
            "processes: at seeded iteration boundaries the public state is saved (to bytes), the object is dropped, and an object "
            "built afresh from the same configuration (a differently seeded generator), or one which separated a mixture of another size before, is started from the saved state. Filters, "
            "parameters, output and losses are compared, and the saved arrays with their bytes. Non-trivial: a restore with updates "
            "after it. Distinct: (configuration kind, cut positions, way of cutting).")
    measure = "distinct (class, update rule, options, cuts) signatures"
    real = ["ssspy.bss (all classes but CACGMM)", "numpy"]
    stubs = ["process loss (object dropped, state kept as bytes)", "pair schedules (scripted)"]
    assumptions = ["methods that update signals are checkpointed through the filter recovered from their output",
                   "a case is judged only if a 1e-13 relative change of the input moves the result by less than 1e-8",
                   "flooring is on", "the pair schedule is periodic, and a restored process continues its period"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, CLASSES, floors=("max", "max", "add"))
        n = zoo.late(rng, cfg, rng.choice([1, 2, 3, 4, 5, 7]))
        cuts = sorted({rng.randrange(0, n + 1) for _ in range(rng.choice([1, 1, 2, 3]))})
        used = None
        if rng.random() < 0.35:
            same = isinstance(cfg.get("pairs"), list) or rng.random() < 0.5
            used = {"C": cfg["C"] + (0 if same else 1), "F": cfg.get("F", 1) + rng.choice([0, 0, 1, 2]),
                    "T": cfg["T"] + rng.choice([0, 0, -2, 5]), "seed": rng.randrange(1 << 30), "n": rng.choice([0, 1, 2]),
                    "init": rng.random() < 0.5, "fail": rng.random() < 0.2}
        return {"cfg": cfg, "n": n, "cuts": cuts, "used": used, "via": rng.choice(["run", "callback", "kill"]), "init": rng.random() < 0.7,
                "layout": rng.choice(["C", "C", "F", "readonly", "strided"]), "restore": rng.random() < 0.5,
                "order": rng.randrange(6)}

    def run(self, case):
        res = Result()
        cfg, n = case["cfg"], case["n"]
        who = zoo.brief(cfg)
        off, back = finish(cfg)
        final = back if case["restore"] else off
        ref = Session(cfg)
        final(ref)
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), cfg["kw"].get("normalization"), cfg["kw"].get("partitioning"),
                  case["cuts"], n, case["via"], case["layout"])
        r = ref.run(n, case["init"])
        if r[0] != "ok" or not np.all(np.isfinite(r[1])):
            res.stats["numerically_singular_skipped"] += 1
            return res
        cuts = [c for c in case["cuts"] if c <= n]
        state, at, losses, init = None, 0, [], case["init"]
        if not cuts:
            return res
        for i, stop in enumerate(cuts + [n]):
            last = i == len(cuts)
            saved = {}

            def save(s):
                st = zoo.snap(s.obj, cfg)
                if zoo.by_signal(cfg):
                    st["demix_filter"] = zoo.recovered_filter(s.X, s.obj.output)
                saved.clear()
                saved.update({k: v for k, v in st.items() if v is not None})

            shifted = dict(cfg, rng=cfg["rng"] + 1 + at)
            if isinstance(cfg.get("pairs"), list):
                k = at % len(cfg["pairs"])
                shifted["pairs"] = cfg["pairs"][k:] + cfg["pairs"][:k]
            if at == 0 and state is None:
                shifted = cfg
            via = case["via"]
            if case.get("used") and state is not None and isinstance(shifted.get("pairs"), list):
                k = case["used"]["n"] % len(shifted["pairs"])
                shifted = dict(shifted, pairs=shifted["pairs"][len(shifted["pairs"]) - k:] + shifted["pairs"][:len(shifted["pairs"]) - k])
            s = Session(shifted, observe=None if last or via == "run" else save)
            args = {}
            offset = 0
            if state is not None:
                if case.get("used"):
                    off(s)
                    if not self.use(s, cfg, case["used"], res):
                        return res
                    offset = len(s.obj.loss) if s.obj.loss is not None else 0
                keys = sorted(state)
                for _ in range(case["order"]):
                    keys = keys[1:] + keys[:1]
                args = {k: relayout(state[k], case["layout"]) for k in keys}
            (final if last else off)(s)
            before = {k: [(a.dtype, a.shape, a.tobytes()) for a in zoo.flat(v)] for k, v in args.items()}
            ids = {k: [id(a) for a in zoo.flat(v)] for k, v in args.items()}
            k = stop - at
            fault = None
            extra = 0
            if not last and via == "kill" and (k or init):
                fault, extra = ["cb", k - 1 + (1 if init else 0), 0, "kbd"], 2
            q = s.run(k + extra, init, fault, **args)
            if fault:
                res.stats["fault_kill_in_callback"] += 1
            if (q[0] != "ok") != bool(fault):
                if isinstance(q[1], np.linalg.LinAlgError) and not sensitivity(cfg, n, ref, TOL, final) < 1e-8:
                    res.stats["ill_conditioned_skipped"] += 1
                    return res
                res.bad("raised", "%s: continuing from the state saved after %d iterations raised %s: %s"
                        % (who, at, type(q[1]).__name__, q[1]))
                return res
            for kk, v in args.items():
                if [id(a) for a in zoo.flat(v)] != ids[kk] or [(a.dtype, a.shape, a.tobytes()) for a in zoo.flat(v)] != before[kk]:
                    res.bad("saved-state-changed", "%s: the caller's saved %s was modified" % (who, kk))
                    return res
            if s.obj.loss is not None:
                losses += s.obj.loss[offset:][:(k + (1 if init else 0))]
            if not last:
                if via == "run" or not saved:
                    save(s)
                state = {kk: zoo.cp(v) for kk, v in saved.items()}
                res.stats["fault_process_lost"] += 1
                if n > stop:
                    res.nontrivial = True
            init = False
            res.log("stop", stop, sorted(args), fault)
            res.steps += k
            at = stop
        bad = Result()
        what = "between an undisturbed run of %d iterations and one restored in fresh objects after %s" % (n, cuts)
        compare(bad, who, cfg, ref, s, what, TOL)
        if ref.obj.loss is not None and not zoo.loss_dist(ref.obj.loss, losses) <= TOL:
            bad.bad("losses", "%s: recorded losses differ %s: %s / %s" % (who, what, ref.obj.loss, losses))
        if bad.violations:
            structural = ref.obj.loss is not None and len(losses) != len(ref.obj.loss)
            if structural or sensitivity(cfg, n, ref, TOL, final) < 1e-8:
                res.violations += bad.violations
            else:
                res.stats["ill_conditioned_skipped"] += 1
        return res

    def use(self, s, cfg, u, res):
        """The object that will continue has separated another mixture before."""
        other = zoo.make_input(dict(cfg, C=u["C"], F=u["F"], T=u["T"], x=dict(cfg["x"], seed=u["seed"])))
        watch, s.observe = s.observe, None
        r = s.run(u["n"], u["init"], ["cb", u["n"] - 1 + u["init"], 0, "kbd"] if u["fail"] and u["n"] + u["init"] else None, X=other)
        s.observe = watch
        if r[0] != "ok" and not s.fired:
            if not isinstance(r[1], np.linalg.LinAlgError):
                res.bad("raised", "%s: separating another mixture raised %s: %s" % (zoo.brief(cfg), type(r[1]).__name__, r[1]))
            return False
        res.stats["restored_into_used_object"] += 1
        res.shape("used", u["C"], u["F"], u["T"], u["n"])
        return True

    def shrinks(self, case):
        if case.get("used"):
            u = case["used"]
            yield dict(case, used=None)
            yield dict(case, used=dict(u, C=case["cfg"]["C"]))
            yield dict(case, used=dict(u, F=case["cfg"].get("F", 1), T=case["cfg"]["T"]))
        for c in super().shrinks(case):
            if c["cuts"]:
                yield c
        if case["n"] > 1:
            yield dict(case, n=case["n"] - 1, cuts=[c for c in case["cuts"] if c < case["n"]] or [0])
        for k, v in (("via", "run"), ("layout", "C"), ("restore", False), ("init", False), ("order", 0)):
            if case[k] != v:
                yield dict(case, **{k: v})
        yield from zoo.shrink_cfg(case)


def relayout(v, how):
    if isinstance(v, tuple):
        return tuple(relayout(a, how) for a in v)
    if how == "F":
        return v.copy(order="F")
    if how == "readonly":
        v = v.copy()
        v.flags.writeable = False
        return v
    if how == "strided":
        big = np.zeros(v.shape[:-1] + (2 * v.shape[-1],), dtype=v.dtype)
        big[..., ::2] = v
        return big[..., ::2]
    return v.copy()


CHECK = Checkpoint()

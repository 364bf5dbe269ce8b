"""C07: any split of a run into consecutive runs, also across aborts in callbacks, gives the same result."""
import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import CB_EXCS, Session

TOL = 1e-5


def compare(res, who, cfg, a, b, what, tol, keys=None):
    """Final state of two sessions; a is the reference."""
    for k in keys or zoo.state_keys(cfg) + ["output"]:
        d = zoo.dist_state(cfg, k, getattr(a.obj, k, None), getattr(b.obj, k, None), a.obj.__dict__.get("scale_restoration"))
        if not d <= tol:
            res.bad("state", "%s: %s differs by %.3g (relative) %s" % (who, k, d, what))
            return False
    return True


def sensitivity(cfg, n, ref, tol, final=None):
    """How far rounding-sized changes of the input move the result of this run: the yardstick for equality."""
    X = zoo.make_input(cfg)
    g = np.random.default_rng(7)
    lost = []

    def look(t):
        if zoo.by_signal(cfg) and not lost and t.obj.output is not None:
            try:
                lost[:] = [1] * zoo.loses(zoo.recovered_filter(t.X, t.obj.output), t.X, t.obj.output)
            except np.linalg.LinAlgError:
                lost[:] = [1]

    t = Session(cfg, observe=look, X=X * (1 + 1e-13 * g.standard_normal(X.shape)))
    if final:
        final(t)
    if t.run(n, True)[0] != "ok" or lost:
        return float("inf")
    worst = 0.0
    for k in zoo.state_keys(cfg) + ["output"]:
        worst = max(worst, zoo.dist_state(cfg, k, getattr(ref.obj, k, None), getattr(t.obj, k, None),
                                          ref.obj.__dict__.get("scale_restoration")))
    if t.obj.loss and ref.obj.loss:
        worst = max(worst, zoo.loss_dist(ref.obj.loss, t.obj.loss))
    return worst


def finish(cfg):
    """Turn the end-of-run steps off, and on again for the last run."""
    on = {k: cfg["kw"][k] for k in ("scale_restoration", "permutation_alignment") if cfg["kw"].get(k)}

    def off(s):
        for k in on:
            setattr(s.obj, k, False)

    def back(s):
        for k, v in on.items():
            setattr(s.obj, k, v)

    return off, back


class Resume(Check):
    prop = "C07"
    quick_runs = 20000
    thorough_runs = 100000
    quick_wall = 110
    rule = ("A run = one separation of n (1-7) iterations on a reference object, and the same separation on a second object cut "
            "into a seeded sequence of consecutive runs (also empty ones), some aborted by an exception from a callback between "
            "two iterations and continued; pair schedules and generators go on where they were. Final filters, model parameters, "
            "output and all losses are compared. Non-trivial: at least two runs with updates. Distinct: (configuration kind, "
            "split, aborts).")
    measure = "distinct (class, update rule, options, split, aborts) signatures"
    real = ["ssspy.bss (all classes but CACGMM)", "numpy"]
    stubs = ["callbacks that abort the run", "pair schedules (scripted)"]
    assumptions = ["a case is judged only if a 1e-13 relative change of the input moves the result by less than 1e-8 "
                   "(rounding is not amplified)", "flooring is on"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, [c for c in zoo.ALL if c != "CACGMM"], floors=("max", "max", "add"))
        n = zoo.late(rng, cfg, rng.choice([1, 2, 3, 4, 5, 7]))
        parts = []
        left = n
        while left:
            k = rng.randrange(0, left + 1) if rng.random() < 0.8 else left
            part = {"n": k, "abort": None}
            if k >= 1 and rng.random() < 0.35:
                # asked for more iterations, stopped by the callback after k
                part["abort"] = [rng.choice(CB_EXCS), rng.randrange(0, 3)]
            parts.append(part)
            left -= k
        if rng.random() < 0.3:
            parts.insert(rng.randrange(len(parts) + 1), {"n": 0, "abort": None})
        for p in parts[1:]:
            p["direct"] = not p["abort"] and rng.random() < 0.15
        if parts[-1]["abort"] or parts[-1].get("direct"):
            parts.append({"n": 0, "abort": None})
        return {"cfg": cfg, "parts": parts, "init": rng.random() < 0.7, "restore": rng.random() < 0.5}

    def run(self, case):
        res = Result()
        cfg, parts = case["cfg"], case["parts"]
        who = zoo.brief(cfg)
        n = sum(p["n"] for p in parts)
        off, back = finish(cfg)
        final = back if case["restore"] else off
        ref, s = Session(cfg, n_callbacks=1), Session(cfg, n_callbacks=1)
        final(ref)
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), cfg["kw"].get("normalization"), cfg["kw"].get("partitioning"),
                  case["restore"], [(p["n"], bool(p["abort"])) for p in parts])
        r = ref.run(n, case["init"])
        if r[0] != "ok" or not np.all(np.isfinite(r[1])):
            if r[0] != "ok" and not isinstance(r[1], np.linalg.LinAlgError):
                res.bad("raised", "%s: run of %d iterations raised %r" % (who, n, r[1]))
            res.stats["numerically_singular_skipped"] += 1
            return res
        init = case["init"]
        for i, p in enumerate(parts):
            (final if i == len(parts) - 1 else off)(s)
            fault, k = None, p["n"]
            if p.get("direct"):  # the caller's own loop
                self.by_hand(s, k)
                res.log("direct", i, k)
                continue
            if p["abort"]:
                fault = ["cb", k - 1 + (1 if init else 0), 0, p["abort"][0]]
                k = k + p["abort"][1]
            q = s.run(k, init, fault)
            init = False
            if fault:
                res.stats["fault_callback_abort"] += 1
                if q[0] == "ok":
                    res.bad("raised", "%s: callback exception was swallowed" % who)
                    return res
            elif q[0] != "ok":
                if isinstance(q[1], np.linalg.LinAlgError) and not sensitivity(cfg, n, ref, TOL, final) < 1e-8:
                    res.stats["ill_conditioned_skipped"] += 1
                    return res
                res.bad("raised", "%s: consecutive run %d of %s raised %s: %s"
                        % (who, i, [x["n"] for x in parts], type(q[1]).__name__, q[1]))
                return res
            res.log("part", i, k, bool(fault), len(s.obj.loss or []))
        what = "between %d iterations at once and as consecutive runs %s" % (
            n, [x["n"] if not x["abort"] else "%d, aborted" % x["n"] for x in parts])
        sens = None
        # cheap exact comparison first; the yardstick is only needed when something differs
        bad = Result()
        ok = compare(bad, who, cfg, ref, s, what, TOL)
        ld = zoo.loss_dist(ref.obj.loss, s.obj.loss) if ref.obj.loss is not None else 0.0
        if ld > TOL:
            bad.bad("losses", "%s: recorded losses differ %s: %s / %s" % (who, what, ref.obj.loss[-4:], s.obj.loss[-4:]))
        if q[0] == "ok" and zoo.dist(q[1], s.obj.output) > 0:
            bad.bad("state", "%s: returned array is not the output" % who)
        if bad.violations:
            structural = ld == float("inf") and len(ref.obj.loss) != len(s.obj.loss)
            sens = sensitivity(cfg, n, ref, TOL, final)
            if structural or sens < 1e-8:
                res.violations += bad.violations
            else:
                res.stats["ill_conditioned_skipped"] += 1
        res.steps += 2 * n
        if sum(p["n"] > 0 for p in parts) >= 2:
            res.nontrivial = True
        return res

    def by_hand(self, s, k):
        for _ in range(k):
            with np.errstate(all="ignore"):
                s.obj.update_once()
                if s.obj.loss is not None:
                    s.obj.loss.append(s.obj.compute_loss())

    shrink_lists = ("parts",)

    def shrinks(self, case):
        for c in super().shrinks(case):
            if c["parts"] and not c["parts"][-1]["abort"] and not c["parts"][0].get("direct") and not c["parts"][-1].get("direct"):
                yield c
        for i, p in enumerate(case["parts"]):
            def put(**k):
                return dict(case, parts=case["parts"][:i] + [dict(p, **k)] + case["parts"][i + 1:])
            if p.get("direct"):
                yield put(direct=False)
            if p["abort"]:
                yield put(abort=None)
                if p["abort"][1]:
                    yield put(abort=[p["abort"][0], 0])
            if p["n"] > (1 if p["abort"] else 0):
                yield put(n=p["n"] - 1)
        if case["restore"]:
            yield dict(case, restore=False)
        if case["init"]:
            yield dict(case, init=False)
        yield from zoo.shrink_cfg(case)


CHECK = Resume()

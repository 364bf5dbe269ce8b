"""C13: the reported objective never increases, in any pair order, split, restored or aborted history."""
import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..history import History, gen_ops, partial_updates, shrink_ops, total_iterations

CLASSES = (["AuxFDICA", "AuxLaplaceFDICA"] + zoo.AUXIVA + zoo.ILRMA + zoo.IPSDTA + zoo.MNMF + ["CACGMM"])
TOL = 1e-8


def collapsing(obj, cfg, X, tiny=1e-4):
    """A source is about to vanish in some frame or bin, or a filter to become singular: likelihoods are unbounded
    there and the floors, which are not part of the objective, take over."""
    for k in ("basis", "activation"):
        v = getattr(obj, k, None)
        for a in zoo.flat(v):
            if cfg["cls"] in zoo.IPSDTA and k == "basis":
                e = np.linalg.eigvalsh(a)
                if not e.min() > 1e-5 * np.abs(e).max():
                    return True
            elif not (np.min(a) > tiny * np.max(np.abs(a)) and np.min(a) > 100 * zoo.EPS):
                return True
    if cfg["kw"].get("domain", 2) < 2:
        T, V, p = obj.basis, obj.activation, cfg["kw"]["domain"]
        TV = np.einsum("nk,fk,kt->nft", obj.latent, T, V) if cfg["kw"].get("partitioning") else T @ V
        if not (np.min(TV ** (2 / p)) > 1e-7 and np.max(TV ** (2 / p)) < 1e7):
            return True
    W = getattr(obj, "diagonalizer", None)
    if zoo.has_filter(cfg):
        W = obj.demix_filter
        if W is None:
            W = zoo.recovered_filter(X, obj.output)
        if cfg["cls"] in zoo.AUXIVA:
            r = np.linalg.norm(zoo.apply_filter(W, X), axis=1)
            if not np.min(r) > 1e-3 * np.median(r):
                return True
        if cfg["cls"] in zoo.FDICA + ["GGDILRMA"]:
            r = np.abs(zoo.apply_filter(W, X))
            if not np.min(r) > 1e-6 * np.median(r):
                return True
    if W is not None and not np.max(np.linalg.cond(W)) < 1e5:
        return True
    if cfg["cls"] == "CACGMM" or cfg["cls"] == "GaussMNMF":
        e = np.linalg.eigvalsh(obj.covariance if cfg["cls"] == "CACGMM" else obj.spatial)
        if not np.min(e) > 1e-6 * np.max(np.abs(e)):
            return True
    if cfg["cls"] == "FastGaussMNMF" and not np.min(obj.spatial) > 1e-5 * np.max(obj.spatial):
        return True
    return False


class Monotone(Check):
    prop = "C13"
    quick_runs = 15000
    thorough_runs = 200000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object: consecutive runs with and without the initial evaluation, aborts by callbacks "
            "between iterations, process losses with the state restored in a fresh object, from the default or a random starting "
            "filter, under a scripted pair schedule. Every loss it records is compared with the one before. Non-trivial: three "
            "losses compared. Distinct: (configuration kind, history).")
    measure = "distinct (class, update rule, source model, options, history) signatures"
    real = ["ssspy.bss (auxiliary-function, low-rank and mixture methods)", "numpy"]
    stubs = ["callbacks", "pair schedules (scripted)", "process loss (object dropped, state kept)"]
    assumptions = ["scale restoration is off (it leaves the objective's domain)", "non-degenerate mixtures",
                   "relative rounding of 1e-8 is allowed"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, CLASSES, floors=("max", "max", "max", "add"))
        if cfg["cls"] == "GaussMNMF" and cfg["kw"].get("partitioning"):
            cfg["kw"]["normalization"] = False  # the code says it may change the objective then
        if cfg["cls"] in zoo.ILRMA and cfg["src"] == "MM" and rng.random() < 0.3:
            cfg["kw"]["domain"] = rng.choice([0.5, 0.7, 1])
        cfg["T"] = max(cfg["T"], rng.choice([24, 32]), 8 * cfg["C"])
        ops = gen_ops(rng, cfg, iters=(1, 2, 3, 4, 6))
        start = rng.choice([None, rng.randrange(1 << 30)])
        roles = sorted(partial_updates(cfg)) + ["once"]
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                ops.insert(rng.randrange(1, len(ops) + 1), {"op": "steps", "names": rng.choices(roles, k=rng.randrange(2, 9))})
        if rng.random() < 0.2:
            cfg["x"]["faults"] = [["gain", 0, rng.choice([-3, -2, 2, 3])]]
            if cfg.get("alg") == "IPA":
                cfg["kw"].pop("lqpqm_normalization", None)
        return {"cfg": cfg, "ops": ops, "start": start, "params": start is not None and rng.random() < 0.5}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        seen = []
        stop = []

        def observe(h, moment):
            if moment == "end" or stop:
                return
            if moment == "start" and (cfg["cls"] == "AuxGaussIVA" or cfg["cls"] == "CACGMM"):
                seen.append(None)  # evaluated with variances (parameters) that were just set anew
            loss = h.obj.compute_loss() if moment.startswith("step") else h.obj.loss[-1]
            if moment == "step latent":
                seen.append(None)  # partitioning weights are rescaled to sum to one right after; the rest of an iteration makes up for it
            seen.append((loss, moment, h.chain, h.s.run_no))
            if collapsing(h.obj, cfg, h.X):
                res.stats["stopped_at_a_collapsing_source_" + cfg["cls"]] += 1
                stop.append(1)

        h = History(cfg, case["ops"], observe, case["start"], restoring=False, params=case.get("params", False))
        c = None
        if cfg["cls"] == "CACGMM":
            keep = h.observe
            last = [None]

            def observe2(hh, moment):
                if last[0] != hh.s.run_no:
                    seen.append(None)
                    last[0] = hh.s.run_no
                keep(hh, moment)

            h.observe = observe2
        c = h.play(res)
        if c is not None and not isinstance(h.error, np.linalg.LinAlgError):
            res.bad(c[0], "%s: %s" % (who, c[1]))
            return res
        if c is not None:
            res.stats["numerically_singular_skipped"] += 1
        prev = None
        compared = 0
        for x in seen:
            if x is None or prev is None:
                prev = x
                continue
            compared += 1
            a, b = prev[0], x[0]
            if not (np.isfinite(a) and np.isfinite(b)):
                res.bad("not-finite", "%s: objective went from %r to %r" % (who, a, b))
                break
            if b - a > TOL * max(1.0, abs(a)):
                res.bad("increase", "%s: objective rose from %.12g to %.12g (at %s, object %d, run %d; start %s, history %s, pairs %s)"
                        % (who, a, b, x[1], x[2], x[3], case["start"], h.brief(), cfg.get("pairs")))
                break
            prev = x
        res.stats["compared_" + cfg["cls"]] += compared
        res.nontrivial = compared >= 3
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), h.brief())
        return res

    def shrinks(self, case):
        for c in super().shrinks(case):
            if c["ops"]:
                yield c
        yield from shrink_ops(case)
        if case["start"] is not None:
            yield dict(case, start=None)
        yield from zoo.shrink_cfg(case)


CHECK = Monotone()

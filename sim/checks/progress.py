"""C22: once faults stop, iterating keeps lowering the objective for as long as plain descent still could."""
import numpy as np

from .. import stationary, zoo
from ..engine import Check, Result
from ..history import History, gen_ops, partial_updates, shrink_ops
from .monotone import collapsing

MM = ["AuxFDICA", "AuxLaplaceFDICA"] + zoo.AUXIVA + zoo.ILRMA + zoo.IPSDTA + zoo.MNMF + ["CACGMM"]
PROX = ["PDSIVA", "PDSBSS", "ADMMIVA", "ADMMBSS", "MaskingPDSBSS", "MaskingADMMBSS"]
FAST = ["FastICA", "FastIVA", "FasterIVA"]
REMAINS = {"FastICA": 1e-5, "FastIVA": 1e-2, "FasterIVA": 1e-2}  # the last one minimises a bound per source, so stops nearby
ROLE_BLOCKS = {"basis": ("basis",), "activation": ("activation",), "spatial": ("filter", "spatial"), "diagonalizer": ("diagonalizer",),
               "latent": ("latent", "basis")}  # weights are rescaled to sum to one, so their part of the fixed point includes the bases
KEY = {"filter": "demix_filter"}
TOL = 1e-7


def covering(rng, C):
    """A caller's pair schedule visiting every source."""
    if rng.random() < 0.4:
        return rng.choice(["default", "sequential", "combination", "sequential_sorted", "sequential_step2"])
    out = []
    for _ in range(rng.choice([1, 2])):
        order = list(range(C))
        rng.shuffle(order)
        lst = [[order[i], order[(i + 1) % C]] for i in range(C if C > 2 else 1)]
        out.append(lst)
    return out


class Progress(Check):
    prop = "C22"
    quick_runs = 5000
    thorough_runs = 30000
    quick_wall = 250
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object with injected failures (exceptions at any line, callback aborts, numerical failures, "
            "process loss and restore), after which faults stop and the object keeps iterating. At one of its iterations the "
            "objective is probed as a black box: how far could steepest descent on each parameter block lower it? Non-trivial: "
            "the probe found something to gain or the method had converged. Distinct: (configuration kind, history, horizon).")
    measure = "distinct (class, update rule, source model, options, mode, history, horizon) signatures"
    real = ["ssspy.bss", "numpy"]
    stubs = ["callbacks", "user functions", "pair schedules (scripted)", "numpy.linalg failures", "process loss (object dropped, state kept)"]
    assumptions = ["gradients by central differences in natural coordinates",
                   "runs where a source or a parameter collapses towards its floor are not judged",
                   "primal-dual and ADMM methods are given step sizes matched to the scale of the input"]

    def gen(self, rng, index, tier):
        r = rng.random()
        mode = "prox" if r < 0.1 else "fast" if r < 0.2 else "grad" if r < 0.32 else "role" if r < 0.55 else "mm"
        classes = {"prox": PROX, "fast": [rng.choice(FAST)], "grad": zoo.GRAD, "role": zoo.ILRMA + zoo.IPSDTA + zoo.MNMF, "mm": MM}[mode]
        cfg = zoo.gen(rng, classes, floors=("max",), scale=(False,))
        while cfg.get("user") == "nopenalty":
            cfg = zoo.gen(rng, classes, floors=("max",), scale=(False,))
        kw = cfg["kw"]
        cfg["C"] = min(cfg["C"], 3)
        if "reference_id" in kw:
            kw["reference_id"] = min(kw["reference_id"], cfg["C"] - 1)
        cfg["F"] = min(cfg["F"], 3) if cfg["cls"] != "AuxGaussIVA" else cfg["F"]
        if "n_blocks" in kw:
            kw["n_blocks"] = min(kw["n_blocks"], cfg["F"])
        cfg["T"] = min(max(cfg["T"], rng.choice([24, 32])), 65)
        if "pairs" in cfg:
            cfg["pairs"] = covering(rng, cfg["C"])
        if cfg["cls"] == "GaussMNMF" and kw.get("partitioning"):
            kw["normalization"] = False
        n = rng.choice([3, 10, 10, 30, 30, 60])
        case = {"cfg": cfg, "mode": mode, "more": 30}
        if cfg["cls"] in zoo.FDICA + ["AuxGaussIVA", "CACGMM"]:
            cfg["T"] = rng.choice([48, 64])
        if cfg["cls"] in zoo.ILRMA + zoo.IPSDTA + zoo.MNMF:
            n, case["more"] = rng.choice([1, 2, 3, 5, 10, 20]), rng.choice([6, 10, 20])
            if cfg["cls"] not in zoo.IPSDTA and rng.random() < 0.5:  # more bins share a frame: fewer sources vanish
                cfg["F"], cfg["T"] = rng.choice([4, 6]), rng.choice([32, 48])
            if mode == "mm" and rng.random() < 0.2:
                n, case["more"] = rng.choice([50, 100, 200]), 50
            if not kw.get("partitioning"):
                kw["n_basis"] = rng.choice([1, 1, kw["n_basis"]])
        if mode == "grad":
            kw["step_size"] = rng.choice([0.05, 0.02, 0.01])
            n, case["more"] = rng.choice([1, 2, 5, 20]), 2
        if mode == "fast":
            cfg["C"], cfg["F"], cfg["T"] = rng.choice([2, 3, 3, 4]), rng.choice([2, 4, 6]), 500
            if "reference_id" in kw:
                kw["reference_id"] = rng.randrange(cfg["C"])
            n, case["more"] = 100, 0
        if mode == "prox":
            rho = rng.choice([50.0, 100.0]) if cfg["cls"] != "ADMMBSS" else 100.0
            cfg["C"], cfg["F"] = 2, 2
            kw["reference_id"] = min(kw["reference_id"], 1)
            if cfg["cls"].startswith("Masking"):
                cfg["user"] = "proxmask"
            if cfg["user"] == "l1+l21":
                rho, kw["relaxation"] = 100.0, min(kw["relaxation"], 1)
            if cfg["cls"] in zoo.PDS:
                kw["mu1"], kw["mu2"] = rng.choice([1, 0.6, 0.3]) / rho, rho
            else:
                kw["rho"] = rho
            n, case["more"] = rng.choice([500, 1000, 2000]), 1500
        if mode == "role":
            roles = sorted(set(partial_updates(cfg)) & set(ROLE_BLOCKS))
            case["role"] = rng.choice(roles)
            n = rng.choice([1, 3, 10])
            if case["role"] == "latent":
                n, case["more"] = rng.choice([10, 30, 100, 300]), rng.choice([30, 100])
        case["n"] = n
        case["ops"] = gen_ops(rng, cfg, faults=True, runs=(1, 1, 2, 3), iters=(1, 2, 3))
        return case

    def input(self, cfg):
        X = zoo.make_input(cfg)
        if cfg["cls"] in zoo.ADMM:
            X = X / (2 if cfg["user"] == "l1+l21" else 1) / max(np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2))), 1e-300)
        return X

    def run(self, case):
        res = Result()
        cfg, mode = case["cfg"], case["mode"]
        who = zoo.brief(cfg)
        X = self.input(cfg)
        probe = {}
        if mode == "grad":
            return self.run_gradient(case, res, X)
        if mode == "fast":
            return self.run_fast(case, res)

        def look(h):
            probe["state"] = zoo.snap(h.obj, cfg)
            probe["output"] = zoo.cp(getattr(h.obj, "output", None))
            probe["calm"] = not collapsing(h.obj, cfg, X, 1e-7) if mode in ("mm", "role") else True
            if probe["calm"]:
                probe["L"], probe["D"] = stationary.achievable(h.obj, cfg)

        def observe(h, moment):
            if probe.get("armed") and h.s.updates - probe["armed"][0] == case["n"] and "state" not in probe:
                look(h)

        h = History(cfg, case["ops"], observe, X=X, restoring=False)
        c = h.play(res)
        if c is not None:
            if isinstance(h.error, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
                return res
            res.bad(c[0], "%s: %s" % (who, c[1]))
            return res
        obj = h.obj
        try:
            if mode == "role":
                if h.s.run_no < 0 or h.dirty:
                    q, v = h.s.run(2, True, **h.state)
                    if q == "raise":
                        raise v
                parts = partial_updates(cfg)
                steps = [getattr(obj, parts[p]) for p in (("latent", "basis") if case["role"] == "latent" else (case["role"],))]
                for _ in range(case["n"]):
                    for step in steps:
                        step()
                look(h)
                for _ in range(case["more"]):
                    for step in steps:
                        step()
                L1 = obj.compute_loss()
                res.steps += case["n"] + case["more"]
            else:
                probe["armed"] = (h.s.updates,)
                n = len(obj.loss)
                q, v = h.s.run(case["n"] + case["more"], True, **h.state)
                if q == "raise":
                    raise v
                L1 = obj.loss[-1]
                res.steps += case["n"] + case["more"]
        except np.linalg.LinAlgError:
            res.stats["numerically_singular_skipped"] += 1
            return res
        except Exception as e:
            res.bad("raised", "%s: failed after faults had stopped: %r (history %s)" % (who, e, h.brief()))
            return res
        if not probe["calm"] or (mode in ("mm", "role") and collapsing(obj, cfg, X, 1e-7)):
            res.stats["collapsing_not_judged_" + cfg["cls"]] += 1
            return res
        L0, D = probe["L"], probe["D"]
        if mode == "role":
            D = {k: d for k, d in D.items() if k.startswith(ROLE_BLOCKS[case["role"]])}
        if not np.isfinite(L0) or not np.isfinite(L1):
            res.stats["not_finite_not_judged"] += 1
            return res
        b = max(D, key=D.get)
        d, moved = D[b], L0 - L1
        res.stats["judged_" + cfg["cls"]] += 1
        res.nontrivial = True
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), mode, case.get("role"), case["n"], h.brief())
        res.log(d, moved)
        probe["out"] = (d, moved, b, L0, L1)
        self.last = probe
        tol = (1e-4 if mode == "prox" else TOL) * max(1.0, abs(L0))
        if cfg["cls"] in zoo.ADMM:
            away = zoo.dist(obj.demix_filter, obj.auxiliary1)
            probe["extra"] = away
            if cfg["cls"] == "ADMMBSS" and away > 1e-2:
                res.stats["limit_cycle_not_judged"] += 1
                return res
            if away > 2e-2:
                res.bad("not-feasible", "%s: after %d iterations the filters still differ from their auxiliary copy by %.2g (history %s)"
                        % (who, case["n"] + case["more"], away, h.brief()))
                return res
        if mode in ("mm", "role") and d > tol:
            name = KEY.get(b.split()[0], b.split()[0])
            old, new = probe["state"].get(name), getattr(obj, name, None)
            if old is None and zoo.has_filter(cfg) and name == "demix_filter":
                old, new = probe["output"], obj.output
            i = b.rsplit(" ", 1)[1] if " of source " in b else None
            if i is not None:
                i = int(i)
                old, new = (old[..., i, :], new[..., i, :]) if name == "demix_filter" and old.shape[-1] == cfg["C"] and new is not obj.output else (old[i], new[i])
            if not zoo.dist(old, new) > 1e-13:
                res.bad("stands-still", "%s: %d more iterations left its %s untouched, although descent on it would lower the objective %.10g by %.3g "
                        "(history %s, pairs %s)" % (who, case["more"], b, L0, d, h.brief(), cfg.get("pairs")))
                return res
        if d > tol and (np.max(np.abs(np.array(obj.loss[-case["more"]:]) - L0)) if mode == "prox" else moved) < d / (100 if case.get("role") == "latent" else 20):
            res.bad("stalled", "%s: after %d iterations descent on its %s would lower the objective %.10g by %.3g, but %d more %s "
                    "lowered it by %.3g (history %s, pairs %s)"
                    % (who, case["n"], b, L0, d, case["more"], "calls of the %s update" % case["role"] if mode == "role" else "iterations",
                       moved, h.brief(), cfg.get("pairs")))
            return res
        if d > tol:
            res.stats["descended"] += 1
        else:
            res.stats["converged"] += 1
        return res

    def run_fast(self, case, res):
        """Fixed-point methods end where no rotation of the filters helps. They carry no guarantee for one mixture, so
        the claim is about three independent ones."""
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        left = []
        for k in range(3):
            c = dict(cfg, x=dict(cfg["x"], seed=cfg["x"]["seed"] + k))
            h = History(c, case["ops"], lambda *a: None, restoring=False)
            q = h.play(res)
            if q is None:
                q, v = h.s.run(case["n"], True, **h.state)
                q = None if q == "ok" else ("raised", "failed after faults had stopped: %r" % v)
            if q is not None:
                res.bad(q[0], "%s: %s" % (who, q[1]))
                return res
            res.steps += case["n"]
            D = stationary.achievable(h.obj, c)[1]
            left.append(max(D.values()))
            res.log(left[-1])
            res.stats["judged_" + cfg["cls"]] += 1
            if left[-1] <= REMAINS[cfg["cls"]]:
                break
        self.last = {"out": (min(left), 1, str(left), 0, 0)}
        res.nontrivial = True
        res.shape(cfg["cls"], cfg["C"], cfg["F"], "fast", h.brief())
        if min(left) > REMAINS[cfg["cls"]]:
            res.bad("not-converging", "%s: after %d iterations on each of three mixtures, rotating the filters of a source would still lower "
                    "the objective by %s (history %s)" % (who, case["n"], ["%.2g" % x for x in left], h.brief()))
        return res

    def run_gradient(self, case, res, X):
        """Every step of a gradient method is the negative (natural) gradient of the objective it reports, times its step size."""
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        kept = {}
        bad = []

        def observe(h, moment):
            if "from" not in kept or moment == "end":
                return
            k = h.s.updates - kept["from"]
            W = h.obj.demix_filter
            if "W" in kept and k == kept["k"] + 1:
                step = (kept["W"] - W) / h.obj.step_size
                V = kept["W"]
                E = step @ np.linalg.inv(V) if cfg["cls"].startswith("Natural") else step @ np.swapaxes(V, -1, -2).conj()
                g = kept["g"]
                if not cfg["kw"]["is_holonomic"]:
                    g = g * (1 - np.eye(g.shape[-1]))
                err = zoo.dist(E, g)
                res.stats["steps_compared_" + cfg["cls"]] += 1
                res.log(err)
                self.last = {"out": (err, 1, "", 0, 0), "extra": ""}
                if not err < 1e-4:
                    bad.append((k, err))
            kept.pop("W", None)
            if case["n"] - 1 <= k < case["n"] + case["more"]:
                Y = np.abs(zoo.apply_filter(W, X))
                if Y.ndim == 3 and "FDICA" not in cfg["cls"]:
                    Y = np.linalg.norm(Y, axis=1)
                if not (np.linalg.cond(W).max() < 1e3 and Y.min() > 1e-3 * Y.max()):
                    res.stats["kink_or_singular_not_judged"] += 1
                    return
                g = stationary.relative_gradient(h.obj, cfg)
                kept.update(k=k, W=W.copy(), g=g / (2 if np.iscomplexobj(W) else 1))

        h = History(cfg, case["ops"], observe, X=X, restoring=False)
        c = h.play(res)
        if c is not None:
            if isinstance(h.error, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
                return res
            res.bad(c[0], "%s: %s" % (who, c[1]))
            return res
        kept["from"] = h.s.updates
        q, v = h.s.run(case["n"] + case["more"], True, **h.state)
        res.steps += case["n"] + case["more"]
        if q == "raise":
            if not isinstance(v, np.linalg.LinAlgError):
                res.bad("raised", "%s: failed after faults had stopped: %r (history %s)" % (who, v, h.brief()))
            return res
        res.nontrivial = "k" in kept
        res.shape(cfg["cls"], sorted(cfg["kw"].items(), key=str), "grad", case["n"], h.brief())
        if bad:
            res.bad("not-the-gradient", "%s: iteration %d does not follow the negative gradient of the objective (relative error %.3g; history %s)"
                    % (who, bad[0][0], bad[0][1], h.brief()))
        return res

    def shrinks(self, case):
        for c in super().shrinks(case):
            yield c
        yield from shrink_ops(case)


CHECK = Progress()

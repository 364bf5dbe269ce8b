"""C15: every recorded loss is the documented objective of the state visible at that moment."""
import numpy as np

from .. import ref, zoo
from ..engine import Check, Result
from ..history import History, gen_inputs, gen_ops, shrink_ops

CLASSES = [c for c in zoo.ALL if c not in zoo.HVAS]
TOL = 1e-6


class Loss(Check):
    prop = "C15"
    quick_runs = 12000
    thorough_runs = 100000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object (runs, splits, aborts by callbacks, interruptions at seeded lines, linear-algebra and "
            "user-function calls, process losses with restored state, changed inputs, scale restored between runs or not). At every callback the "
            "newest loss is compared with the objective computed by an independent loop-by-loop model from the public state; "
            "earlier losses must stay as they were. Non-trivial: two losses compared. Distinct: (configuration kind, history).")
    measure = "distinct (class, update rule, source model, options, history) signatures"
    real = ["ssspy.bss (all classes that record losses)", "numpy"]
    stubs = ["callbacks and user functions", "pair schedules (scripted)", "interpreter line hook", "process loss"]
    assumptions = ["methods that update signals: the filter is recovered from the separated signal by least squares",
                   "relative agreement of 1e-6 is required while filters and covariances are well conditioned (< 1e6)"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, CLASSES, floors=("max", "max", "add", "none"))
        if cfg.get("user") == "nopenalty":
            cfg["user"] = "l21"
        ops = gen_ops(rng, cfg, faults=True)
        gen_inputs(rng, cfg, ops, rng.choice((0, 0, 0.3)))
        if cfg["floor"] == "none" and cfg["cls"] in zoo.AUXIVA + zoo.ILRMA + ["AuxFDICA", "AuxLaplaceFDICA"] and rng.random() < 0.5:
            cfg["x"]["faults"] = [["gain", 0, rng.choice([-5, -4, -2, 1, 2])]]
        restoring = rng.random() < 0.5 and cfg["cls"] not in zoo.PDS + zoo.ADMM and not isinstance(cfg.get("pairs"), list)
        return {"cfg": cfg, "ops": ops, "start": rng.choice([None, rng.randrange(1 << 30)]), "restoring": restoring,
                "again": rng.choice([None, None, 0, 1])}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        X = zoo.make_input(cfg)
        count = [0]
        past = []

        def observe(h, moment):
            if res.violations:
                return
            obj, X = h.obj, h.played
            if moment == "end" and case.get("again") is None:
                return
            if past and past[0] is obj.loss:
                if obj.loss[:len(past[1])] != past[1]:
                    res.bad("history-rewritten", "%s: recorded losses changed from %s to %s" % (who, past[1], obj.loss))
            past[:] = [obj.loss, list(obj.loss)]
            if ill(obj, cfg, X):
                res.stats["ill_conditioned_moment"] += 1
                return
            before = {k: zoo.cp(v) if isinstance(v, (np.ndarray, tuple)) else v for k, v in obj.__dict__.items()}
            losses = list(obj.loss)
            got = obj.loss[-1] if moment != "end" else obj.compute_loss()
            if case.get("again") is not None and (moment == "end" or (h.done() + case["again"]) % 2):
                val = obj.compute_loss()
                res.stats["evaluated_again"] += 1
                if not (val == got or val != val and got != got):
                    res.bad("not-reproducible", "%s: evaluated again at the same moment (%s of run %d) the objective is %.17g instead of %.17g"
                            % (who, moment, h.s.run_no, val, got))
                for k in sorted(set(before) | set(obj.__dict__)):
                    if (k in before) != (k in obj.__dict__) or any(
                            not np.array_equal(x, y, equal_nan=True) for x, y in zip(zoo.flat(before.get(k)), zoo.flat(obj.__dict__.get(k)))
                            if isinstance(x, np.ndarray)):
                        res.bad("changes-state", "%s: evaluating the objective changed %s (%s of run %d)" % (who, k, moment, h.s.run_no))
                if list(obj.loss) != losses and not any(x != x for x in losses):
                    res.bad("changes-state", "%s: evaluating the objective by hand was recorded" % who)
            Z = obj.whitened_input if zoo.whitened(cfg) else None
            want = ref.loss(obj, cfg, X, Z)
            if not np.isfinite(want):  # diverged: there is no value to agree with (a contrast may overflow in one order of summation only)
                res.stats["objective_not_finite"] += 1
                return
            count[0] += 1
            slack = TOL * max(1.0, abs(want), 1e-3 * X.size)
            if cfg["cls"] == "GaussMNMF":  # its covariances are stabilised by 1e-10 before they are inverted
                low = np.min(np.linalg.eigvalsh(ref.model_covariances(obj, cfg).sum(axis=0)))
                slack += 2e-9 * cfg["F"] / max(low, 1e-300)
            if not (np.isfinite(got) and abs(got - want) <= slack):
                res.bad("wrong-loss", "%s: recorded %.12g, but the objective of the visible state is %.12g (%s of run %d, object %d, "
                        "history %s)" % (who, got, want, moment, h.s.run_no, h.chain, h.brief()))

        h = History(cfg, case["ops"], observe, case["start"], X=X, restoring=None if case["restoring"] else False)
        c = h.play(res)
        if c is not None:
            if isinstance(h.error, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
            elif not res.violations:
                res.bad(c[0], "%s: %s" % (who, c[1]))
        elif not res.violations and case.get("again") is not None:
            self.silent(case, h, X, who, res)
        res.nontrivial = count[0] >= 2
        res.stats["losses_compared"] += count[0]
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), h.brief())
        return res

    def silent(self, case, h, X, who, res):
        """The same history with nothing recorded ends in the same state."""
        if any(o["op"] == "fault" for o in case["ops"]):  # the places to interrupt are not the same
            return
        t = History(case["cfg"], case["ops"], lambda *a: None, case["start"], X=X, restoring=None if case["restoring"] else False, record=False)
        if t.play() is not None:
            return
        res.stats["compared_without_recording"] += 1
        for k in zoo.state_keys(case["cfg"]) + ["output"]:
            d = zoo.dist_state(case["cfg"], k, getattr(h.obj, k, None), getattr(t.obj, k, None), h.obj.__dict__.get("scale_restoration"))
            if not d < 1e-9:
                res.bad("changes-state", "%s: without recording losses, %s ends up different by %.3g (history %s)" % (who, k, d, h.brief()))
                return

    def shrinks(self, case):
        for c in super().shrinks(case):
            if c["ops"]:
                yield c
        yield from shrink_ops(case)
        if case["start"] is not None:
            yield dict(case, start=None)
        if case.get("again") is not None:
            yield dict(case, again=None)
        if case["restoring"]:
            yield dict(case, restoring=False)
        yield from zoo.shrink_cfg(case)


def ill(obj, cfg, X):
    """The objective itself is not determined to the required accuracy."""
    W = None
    if zoo.has_filter(cfg):
        W = obj.demix_filter if obj.demix_filter is not None else zoo.recovered_filter(X, obj.output)
    elif cfg["cls"] == "FastGaussMNMF":
        W = obj.diagonalizer
    if W is not None and not (np.all(np.isfinite(W)) and np.max(np.linalg.cond(W)) < 1e6):
        return True
    for k in ("basis", "activation"):
        for a in zoo.flat(getattr(obj, k, None)):
            if cfg["cls"] in zoo.IPSDTA and k == "basis":
                e = np.linalg.eigvalsh(a)
                if not e.min() > 1e-4 * e.max():
                    return True
            elif not np.min(a) > 1e-5 * np.max(a):
                return True
    if cfg["cls"] == "AuxGaussIVA" and not np.min(obj.variance) > 1e-5 * np.max(obj.variance):
        return True
    if cfg["cls"] in ("GaussMNMF", "CACGMM"):
        e = np.linalg.eigvalsh(obj.spatial if cfg["cls"] == "GaussMNMF" else obj.covariance)
        if not np.min(e) > 1e-6 * np.max(e):
            return True
    if cfg["cls"] == "FastGaussMNMF" and not np.min(obj.spatial) > 1e-6 * np.max(obj.spatial):
        return True
    return False


CHECK = Loss()

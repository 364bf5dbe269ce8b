"""C23: every iteration, and every public partial update, is the documented step from the state visible before it."""
import inspect

import numpy as np

from .. import step, zoo
from ..engine import Check, Result
from ..history import History, gen_inputs, gen_ops, partial_updates, shrink_ops
from .lossref import ill
from .output import PB, mdp_error, reference_error

TOL = 1e-6
ROOTS = 3e-4  # for updates by geometric means, whose square roots halve the number of digits
EPS = 1e-8
LIMIT = 1e-3  # steps that amplify a change of EPS beyond this are not decided


def takes(f):
    """A method that needs nothing and takes a flooring."""
    ps = list(inspect.signature(f).parameters.values())[1:]
    return any(p.name == "flooring_fn" for p in ps) and all(p.default is not p.empty for p in ps)


class Step(Check):
    prop = "C23"
    quick_runs = 20000
    thorough_runs = 60000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object (runs, splits, aborts by callbacks, interruptions at seeded lines, linear-algebra and "
            "user-function calls, process losses with restored state, changes of the input between runs, public partial updates in seeded order). At every callback, "
            "after every partial update and after every fault the visible state is recorded; the state after an iteration (partial "
            "update) must be the one an independent model of the documented formulas computes from the state recorded before it. "
            "Non-trivial: two steps compared. Distinct: (configuration kind, history).")
    measure = "distinct (class, update rule, source model, options, history) signatures"
    real = ["ssspy.bss (all classes)", "numpy"]
    stubs = ["callbacks and user functions", "pair schedules (scripted)", "interpreter line hook", "process loss"]
    assumptions = ["a step is compared where the model itself is stable: its weighted covariances have condition below 3e4, and a "
                   "relative change of 1e-8 of the state before it moves its result by less than 3e-5; agreement to 1e-6 (3e-4 for "
                   "updates by geometric means) plus thirty times that movement is required",
                   "rows that the formulas determine up to a phase (pairwise updates, eigenvector updates) are compared up to a phase"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, floors=("max", "max", "add", "none"))
        if rng.random() < 0.05:
            zoo.set_defaults(cfg)
            return {"kind": "defaults", "cfg": cfg, "ops": [], "n": rng.choice([1, 2, 3])}
        if rng.random() < 0.04:
            cfg["floor"] = "max"
            return {"kind": "handed", "cfg": cfg, "ops": [], "n": rng.choice([1, 2, 3]), "calls": [
                [rng.choice(["once", rng.randrange(100)]), rng.choice(["big", "more", "none", None])] for _ in range(rng.randrange(1, 5))]}
        if rng.random() < 0.03:
            cfg = zoo.gen(rng, [rng.choice(zoo.ALL)], floors=("max",))
            return {"kind": "configured", "cfg": cfg, "ops": [], "n": rng.choice([1, 2, 3]), "floor": rng.choice(["big", "more", "more", "none"])}
        ops = gen_ops(rng, cfg, faults=True)
        roles = sorted(partial_updates(cfg)) + ["once"]
        if roles != ["once"] or rng.random() < 0.3:
            for _ in range(rng.choice((0, 1, 1, 2))):
                names = [rng.choice(roles) for _ in range(rng.randrange(1, 5))]
                ops.insert(rng.randrange(1, len(ops) + 1), {"op": "steps", "names": names,
                                                            "floor": rng.choice([None, None, "add", "none"] + ["big"] * (
                                                                cfg["cls"] in zoo.ILRMA + ["FastGaussMNMF"] and cfg.get("alg") != "IPA"))})
        gen_inputs(rng, cfg, ops, rng.choice((0, 0, 0.3)))
        if cfg["floor"] == "none" and rng.random() < 0.3:
            cfg["x"]["faults"] = [["gain", 0, rng.choice([1, 2] if cfg["cls"] == "GaussMNMF" else [-3, -2, 1, 2])]]
        return {"cfg": cfg, "ops": ops, "start": rng.choice([None, rng.randrange(1 << 30)]), "params": rng.random() < 0.5}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        if case.get("kind") == "defaults":
            return self.defaults(case, res, who)
        if case.get("kind") == "handed":
            return self.handed(case, res, who)
        if case.get("kind") == "configured":
            return self.configured(case, res, who)
        g = np.random.default_rng(cfg["rng"])
        count = [0]
        prev = [None, None]  # object, state
        last = [None]

        def pairs(h):
            log = h.s.pair_log
            last = max((i for i, e in enumerate(log) if e[0] == "ask"), default=-1)
            return [e[1:] for e in log[last + 1:]]

        def observe(h, moment):
            if res.violations:
                return
            obj, X = h.obj, h.played
            now = step.visible(obj, cfg)
            before, prev[:] = (prev[1] if prev[0] is obj else None), [obj, now]
            if cfg["cls"] == "CACGMM" and last[0] != h.s.run_no and moment != "start":  # every call draws new parameters
                before = None
            last[0] = h.s.run_no
            if moment == "end" and before is not None and zoo.has_filter(cfg) and "scale_restoration" in cfg["kw"]:
                self.restored(cfg, obj, X, who, h, res)
            if before is None or any(v is None for v in before.values()) or moment in ("start", "end"):
                return
            if ill(obj, cfg, X) or not all(zoo.finite(v) for v in before.values()):
                res.stats["ill_conditioned_moment"] += 1
                return
            by_hand = moment.startswith("step ")
            roles = [moment[5:]] if by_hand and moment != "step once" else None
            model = dict(cfg, floor=h.floor) if by_hand and h.floor else cfg
            try:
                with np.errstate(all="ignore"):
                    want = step.step(model, before, X, roles, pairs(h))
                    near = [step.step(model, step.nudge(cfg, before, g, EPS), X, roles, pairs(h)) for _ in range(2)]
            except (step.Undetermined, np.linalg.LinAlgError):
                res.stats["undetermined_step"] += 1
                return
            tol = ROOTS if cfg["cls"] in zoo.IPSDTA + ["GaussMNMF"] else TOL
            for k in now:
                slack = 30 * max(step.distance(cfg, k, want[k], n[k]) for n in near)
                if not slack < LIMIT:
                    res.stats["unstable_step"] += 1
                    continue
                d = step.distance(cfg, k, want[k], now[k])
                count[0] += 1
                res.stats["compared_" + cfg["cls"]] += 1
                if not d <= tol + slack:
                    res.bad("wrong-step", "%s: after %s, %s differs from the documented update by %.3g (tolerance %.2g; run %d, object "
                            "%d, history %s)" % (who, "an iteration" if roles is None else "the partial update of " + roles[0], k, d,
                                                 tol + slack, h.s.run_no, h.chain, h.brief()))
                    return

        def broken(h, op):
            prev[:] = [h.obj, step.visible(h.obj, cfg)]
            if cfg["cls"] == "CACGMM" or zoo.by_signal(cfg) and h.switched:  # the signal may still be that of the input before
                prev[:] = [None, None]

        def changed(h, old, new):
            """The filter, not the separated signal, carries over to another input."""
            if prev[0] is h.obj and zoo.by_signal(cfg) and prev[1]["output"] is not None and zoo.finite(prev[1]["output"]):
                prev[1]["output"] = zoo.apply_filter(zoo.recovered_filter(old, prev[1]["output"]), new)

        h = History(cfg, case["ops"], observe, case["start"], params=case["params"])
        h.after_fault, h.on_input = broken, changed
        c = h.play(res)
        if c is not None:
            if isinstance(h.error, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
            elif not res.violations:
                res.bad(c[0], "%s: %s" % (who, c[1]))
        res.nontrivial = count[0] >= 2
        res.stats["arrays_compared"] += count[0]
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), h.brief())
        return res

    def restored(self, cfg, obj, X, who, h, res):
        """At the end of a run the scale is restored as configured, left out meaning projection back to channel 0."""
        scale, r = cfg["kw"]["scale_restoration"], cfg["kw"].get("reference_id", 0)
        if not scale or ill(obj, cfg, X):
            return
        if scale in PB:
            e = reference_error(obj.output, X, r)
        else:
            e = mdp_error(obj.output, X, r)
        res.stats["restored_judged"] += 1
        if e > TOL:
            res.bad("not-restored", "%s: after a run the scale is not restored to channel %d (%.3g; history %s)" % (who, r, e, h.brief()))

    def defaults(self, case, res, who):
        """Options left out act like their documented defaults, written out."""
        X = zoo.make_input(case["cfg"])
        got = []
        for leave in ("none", "all"):
            cfg = dict(case["cfg"], leave=leave)
            obj = zoo.build(cfg)
            try:
                with np.errstate(all="ignore"):
                    out = obj(X.copy(), n_iter=case["n"])
            except np.linalg.LinAlgError:
                out = None
            got.append((out, obj.loss, zoo.snap(obj, cfg)))
            res.log(None if out is None else out.tobytes()[:32])
        (a, la, sa), (b, lb, sb) = got
        res.steps += 2 * case["n"]
        res.nontrivial = True
        res.stats["defaults_compared"] += 1
        res.shape("defaults", cfg["cls"], cfg.get("alg"), case["n"])
        if (a is None) != (b is None):
            return res.bad("defaults", "%s: fails only with options %s" % (who, "left out" if b is None else "written out")) or res
        if a is None:
            return res
        worst = max([zoo.dist(a, b), 0.0 if la is None or lb is None else zoo.dist(np.array(la), np.array(lb))]
                    + [zoo.dist(sa[k], sb[k]) for k in sa])
        if worst > 1e-9:
            res.bad("defaults", "%s: leaving the options out changes the result by %.3g" % (who, worst))
        return res

    def handed(self, case, res, who):
        """A flooring handed to a public method acts like one the object was given, for that call only."""
        cfg = case["cfg"]
        X = zoo.make_input(cfg)
        a, b = zoo.build(cfg), zoo.build(cfg)
        own = getattr(b, "flooring_fn", None)
        try:
            with np.errstate(all="ignore"):
                a(X.copy(), n_iter=case["n"]), b(X.copy(), n_iter=case["n"])
        except np.linalg.LinAlgError:
            return res
        names = [] if own is None else sorted(n for n, f in inspect.getmembers(type(a), inspect.isfunction) if n.startswith(("update", "normalize")) and takes(f))
        res.shape("handed", cfg["cls"], cfg.get("alg"), str(case["calls"]))
        for which, name in case["calls"]:
            if not names:
                break
            n = "update_once" if which == "once" and "update_once" in names else names[(0 if which == "once" else which) % len(names)]
            f = {"big": lambda x: np.maximum(x, 0.3), "more": lambda x: x + 0.1, "none": None, None: "self"}[name]
            b.flooring_fn = own if name is None else f or (lambda x: x)
            ends = []
            for o, kw in ((a, {"flooring_fn": f}), (b, {})):
                try:
                    with np.errstate(all="ignore"):
                        getattr(o, n)(**kw)
                    ends.append(None)
                except Exception as e:  # the method of another algorithm
                    ends.append(e)
            b.flooring_fn = own
            res.steps += 2
            if any(e is not None for e in ends):
                if not all(e is not None for e in ends) and not any(isinstance(e, np.linalg.LinAlgError) for e in ends):
                    res.bad("handed-flooring", "%s: %s with flooring %s: handed in, the call ends with %r, as the object's own with %r"
                            % ((who, n, name) + tuple(ends)))
                break
            res.stats["handed_floorings"] += 1
            res.nontrivial = True
            for k in zoo.state_keys(cfg) + ["output"]:
                d = zoo.dist(getattr(a, k, None), getattr(b, k, None))
                if not d < 1e-9:
                    res.bad("handed-flooring", "%s: flooring %s handed to %s moves %s elsewhere than as the object's own (%.3g; calls %s)"
                            % (who, name, n, k, d, case["calls"]))
                    return res
        return res

    def configured(self, case, res, who):
        """A flooring given at construction is the one that the iterations use."""
        cfg = case["cfg"]
        f = {"big": lambda x: np.maximum(x, 0.3), "more": lambda x: x + 0.1, "none": None}[case["floor"]]
        if "flooring_fn" not in inspect.signature(zoo.get_class(cfg["cls"]).__init__).parameters:
            return res
        X = zoo.make_input(cfg)
        ends = []
        for o in (zoo.build(cfg, extra={"flooring_fn": f}), zoo.build(cfg)):
            if ends:
                o.flooring_fn = f or (lambda x: x)
            try:
                with np.errstate(all="ignore"):
                    o(X.copy(), n_iter=case["n"])
            except np.linalg.LinAlgError:
                return res
            ends.append(o)
        res.steps += 2 * case["n"]
        res.nontrivial = True
        res.stats["configured_floorings"] += 1
        res.shape("configured", cfg["cls"], cfg.get("alg"), sorted(cfg["kw"].items(), key=str), case["floor"], case["n"])
        for k in zoo.state_keys(cfg) + ["output"]:
            u, v = (getattr(o, k, None) for o in ends)
            if isinstance(u, np.ndarray) and not (np.all(np.isfinite(u)) and np.all(np.isfinite(v))):
                continue
            d = zoo.dist(u, v)
            if not d < 1e-9:
                res.bad("configured-flooring", "%s: flooring %s given at construction: %s after %d iterations is not that of the flooring set (%.3g)"
                        % (who, case["floor"], k, case["n"], d))
                return res
        return res

    def shrinks(self, case):
        if case.get("kind") == "configured":
            if case["n"] > 1:
                yield dict(case, n=case["n"] - 1)
            yield from zoo.shrink_cfg(case)
            return
        if case.get("kind") == "handed":
            for i in range(len(case["calls"])):
                if len(case["calls"]) > 1:
                    yield dict(case, calls=case["calls"][:i] + case["calls"][i + 1:])
            yield from zoo.shrink_cfg(case)
            return
        if case.get("kind") == "defaults":
            if case["n"] > 1:
                yield dict(case, n=case["n"] - 1)
            return
        for c in super().shrinks(case):
            if c["ops"]:
                yield c
        yield from shrink_ops(case)
        if case["start"] is not None:
            yield dict(case, start=None)
        if case["params"]:
            yield dict(case, params=False)
        yield from zoo.shrink_cfg(case)


CHECK = Step()

"""C14: the separated signal is what the reported filters (or models) extract from the input, at the restored scale."""
import numpy as np

from .. import ref, zoo
from ..engine import Check, Result
from ..history import History, gen_inputs, gen_ops, shrink_ops, total_iterations
from ..session import Session
from .lossref import ill

TOL = 1e-6
# methods that refresh the output with every update, not only at the end of a run
LIVE = zoo.GRAD + ["FastICA"]
PB = (True, "projection_back")


def reference_error(Y, X, r):
    """Outputs of all sources add up to the reference channel."""
    return zoo.dist(Y.sum(axis=0), X[r])


def mdp_error(Y, X, r):
    """Each output is the least-squares fit of its own shape to the reference channel."""
    worst = 0.0
    for n in range(Y.shape[0]):
        for f in range(Y.shape[1]):
            y, x = Y[n, f], X[r, f]
            p = float(np.linalg.norm(y) * np.linalg.norm(x))
            if p > 0:
                worst = max(worst, abs(np.vdot(y, x - y)) / p)
    return worst


def only_scaled(A, B):
    """Largest angle (sine) between the rows of two signals."""
    worst = 0.0
    for n in range(A.shape[0]):
        for f in range(A.shape[1]):
            a, b = A[n, f], B[n, f]
            aa, bb = float(np.vdot(a, a).real), float(np.vdot(b, b).real)
            if aa == 0 or bb == 0:
                continue
            worst = max(worst, np.sqrt(max(0.0, 1 - abs(np.vdot(a, b)) ** 2 / (aa * bb))))
    return worst


def by_hand(X, Y, W, seed):
    """Scale restoration applied by the caller, to every channel at once and one by one -> complaint or None."""
    from ssspy.algorithm import minimal_distortion_principle, projection_back

    g = np.random.default_rng(seed)
    D = np.exp(g.standard_normal(Y.shape[:2])) * np.exp(2j * np.pi * g.random(Y.shape[:2]))
    V = D[:, :, np.newaxis] * Y
    P = projection_back(V, reference=X, reference_id=None)
    M = minimal_distortion_principle(V, reference=X, reference_id=None)
    if P.shape != (X.shape[0],) + Y.shape or M.shape != P.shape:
        return "restoring the scale to all channels gave shapes %s and %s" % (P.shape, M.shape)
    R = None
    if W is not None:
        R = projection_back(D.T[:, :, np.newaxis] * W, reference_id=None)
        if R.shape != (X.shape[0],) + W.shape:
            return "projecting the filters back to all channels gave shape %s" % (R.shape,)
    for c in range(X.shape[0]):
        pairs = [("projection back, channels at once: reference", P[c].sum(axis=0), X[c]),
                 ("projection back of one channel", projection_back(V, reference=X, reference_id=c), P[c]),
                 ("projection back after rescaling", projection_back(Y, reference=X, reference_id=c), P[c]),
                 ("minimal distortion of one channel", minimal_distortion_principle(V, reference=X, reference_id=c), M[c]),
                 ("minimal distortion after rescaling", minimal_distortion_principle(Y, reference=X, reference_id=c), M[c])]
        if W is not None:
            pairs += [("projection back of the filters", zoo.apply_filter(R[c], X), P[c]),
                      ("filters projected to one channel", projection_back(W, reference_id=c), R[c])]
        for what, a, b in pairs:
            e = zoo.dist(a, b)
            if e > TOL:
                return "%s %d differs by %.3g" % (what, c, e)
        e = mdp_error(M[c], X, c)
        if e > TOL:
            return "minimal distortion is no least-squares fit to channel %d (%.3g)" % (c, e)
    return None


def stabilised(obj, cfg):
    """What the 1e-10 added to model covariances before they are inverted may change in the output."""
    if cfg["cls"] not in zoo.MNMF:
        return 0.0
    low = np.min(np.linalg.eigvalsh(ref.model_covariances(obj, cfg).sum(axis=0)))
    return 2e-9 / max(low, 1e-300)


def elsewhere(obj, cfg, X, seed):
    """What was learned from one recording, applied by the caller to another one -> complaint or None."""
    T = X.shape[-1] if cfg["cls"] in zoo.MNMF or cfg["cls"] == "CACGMM" and not seed & 1 else (X.shape[-1], 2 * X.shape[-1] + 1, 3 + X.shape[0], 300)[seed % 4]
    Z = zoo.make_input(dict(cfg, C=X.shape[0], T=T, x={"seed": seed, "faults": []}))
    given, before = Z.copy(), {k: zoo.cp(v) if isinstance(v, (np.ndarray, tuple)) else v for k, v in obj.__dict__.items()}
    if zoo.has_filter(cfg):
        W = zoo.recovered_filter(X, obj.output) if zoo.by_signal(cfg) else obj.demix_filter
        if seed & 1:  # or filters from somewhere else
            g = np.random.default_rng(seed)
            W = W + g.standard_normal(W.shape) * np.abs(W).max()
        V, want = W.copy(), zoo.apply_filter(W, Z)
        if zoo.whitened(cfg):
            Y = obj.separate(Z, demix_filter=W)
            G = Y @ Y.T / T if Y.ndim == 2 else np.einsum("ift,jft->fij", Y, Y.conj()) / T
            H = W @ np.swapaxes(W, -1, -2).conj()
            mean = Z - Z.mean(axis=-1, keepdims=True)
            S = [zoo.recovered_filter(a, Y) for a in (Z, mean)] if Y.ndim == 3 else [Y @ np.linalg.pinv(a) for a in (Z, mean)]
            e = min(zoo.dist(zoo.apply_filter(A, a), Y) for A, a in zip(S, (Z, mean)))
            if Y.shape != Z.shape or not (zoo.dist(G, H) < 1e-5 and e < 1e-5):
                return "signals separated from another recording are not the filters applied to it whitened (%.3g, %.3g)" % (zoo.dist(G, H), e)
            Y = obj.separate(Z, demix_filter=W, use_whitening=False)
        else:
            Y = obj.separate(Z, demix_filter=W)
        if np.any(V != W):
            return "separate changed the filter it was given"
    elif cfg["cls"] == "CACGMM":
        P = ref.posterior(obj, Z) if seed & 1 else obj.posterior
        want = P * Z[cfg["kw"].get("reference_id", 0)]
        Y = obj.separate(Z) if seed & 1 else obj.separate(Z, posterior=P)
    else:
        want, Y = ref.wiener(obj, cfg, Z), obj.separate(Z)
    if Y.shape != want.shape or not zoo.dist(want, Y) < TOL + stabilised(obj, cfg):
        return "separating another recording (%s) differs by %.3g from what the model extracts" % (
            Z.shape, zoo.dist(want, Y) if Y.shape == want.shape else float("inf"))
    if np.any(given != Z):
        return "separate changed the recording it was given"
    for k in sorted(set(before) | set(obj.__dict__)):
        a, b = before.get(k), obj.__dict__.get(k)
        if (k in before) != (k in obj.__dict__) or any(
                not np.array_equal(x, y, equal_nan=True) for x, y in zip(zoo.flat(a), zoo.flat(b)) if isinstance(x, np.ndarray)):
            return "separating another recording changed %s of the object" % k
    return None


class Output(Check):
    prop = "C14"
    quick_runs = 14000
    thorough_runs = 100000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object (runs, splits, aborts, interruptions at seeded lines, linear-algebra and user calls, "
            "process losses with restored state, changed inputs, scripted pair schedules). At the callbacks and after each run the output is "
            "compared with the reported filter applied to the input (or with an independent model of the Wiener filter and masks), "
            "after each run also its scale. Non-trivial: one completed run judged. Distinct: (configuration kind, history).")
    measure = "distinct (class, update rule, options, history) signatures"
    real = ["ssspy.bss (all classes)", "ssspy.algorithm.projection_back", "ssspy.algorithm.minimal_distortion_principle", "numpy"]
    stubs = ["callbacks and user functions", "pair schedules (scripted)", "interpreter line hook", "process loss"]
    assumptions = ["methods that keep the output until the end of the run are judged then, the others at every callback",
                   "relative agreement of 1e-6 while filters and models are well conditioned (< 1e6)",
                   "every source is visited by the pair schedule before its scale is restored"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, floors=("max", "max", "max", "add"), scale=(True, False, "MDP", "minimal_distortion_principle",
                                                                       "projection_back"))
        if cfg["cls"] in zoo.PDS + zoo.ADMM + ["CACGMM"]:
            iters = (3, 4, 5)
        else:
            iters = (1, 1, 2, 3, 4)
        ops = gen_ops(rng, cfg, faults=True, iters=iters)
        gen_inputs(rng, cfg, ops, rng.choice((0, 0, 0.3)))
        last = [i for i, o in enumerate(ops) if o["op"] == "run"]
        if not last:
            ops.append({"op": "run", "n": rng.choice(iters), "init": False})
        each = rng.random() < 0.5
        if each and cfg["cls"] in zoo.PDS + zoo.ADMM:  # a rescaled filter is no start for these
            ops = [{"op": "run", "n": rng.choice(iters), "init": rng.random() < 0.5}]
        if isinstance(cfg.get("pairs"), list):
            C = cfg["C"]
            cfg["pairs"] = [p + [q for q in _cover(rng, C) if not p or set(q) != set(p[-1])] if C > 2 else [[0, 1]]
                            for p in cfg["pairs"]]
        return {"cfg": cfg, "ops": ops, "hand": rng.randrange(1 << 30) if rng.random() < 0.3 else None, "start": rng.choice([None, rng.randrange(1 << 30)]), "each": each,
                "apply": rng.randrange(1 << 30) if rng.random() < 0.3 else None}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        X = zoo.make_input(cfg)
        scale = cfg["kw"].get("scale_restoration") or False
        r = cfg["kw"].get("reference_id", 0)
        judged = [0]
        ends = [i for i, o in enumerate(case["ops"]) if o["op"] not in ("restore", "input")]

        def fail(cls, msg, h, moment):
            if not res.violations:
                res.bad(cls, "%s: %s (%s of run %d, object %d, history %s, interruptions %s)"
                        % (who, msg, moment, h.s.run_no, h.chain, h.brief(), h.fired))

        def observe(h, moment):
            obj, end, X = h.obj, moment == "end", h.played
            if res.violations:
                return
            if obj.input is None or zoo.dist(obj.input, X) != 0:
                fail("input", "the object's input is not the given input", h, moment)
            if zoo.has_filter(cfg):
                if ill(obj, cfg, X):
                    res.stats["ill_conditioned_moment"] += 1
                    return
                Z = obj.whitened_input if zoo.whitened(cfg) else X
                if zoo.by_signal(cfg):
                    W = zoo.recovered_filter(X, obj.output)
                    e = zoo.dist(zoo.apply_filter(W, X), obj.output)
                    if e > TOL:
                        fail("not-extracted", "the separated signal is no combination of the input channels (%.3g)" % e, h, moment)
                elif end or cfg["cls"] in LIVE:
                    e = zoo.dist(zoo.apply_filter(obj.demix_filter, Z), obj.output)
                    if e > TOL:
                        fail("not-extracted", "the output differs by %.3g from the reported filter applied to the input" % e, h, moment)
            else:
                if not end:
                    return
                n = cfg.get("N") or X.shape[0]
                if obj.output.shape != (n,) + X.shape[1:]:
                    fail("sources", "%d sources are expected of this mixture, the output has shape %s" % (n, obj.output.shape), h, moment)
                    return
                if ill(obj, cfg, X):
                    res.stats["ill_conditioned_moment"] += 1
                    return
                if cfg["cls"] == "CACGMM":
                    P = ref.posterior(obj, X)
                    e = zoo.dist(P, obj.posterior)
                    want = P * X[r]
                else:
                    e = 0.0
                    want = ref.wiener(obj, cfg, X)
                e = max(e, zoo.dist(want, obj.output))
                if e > TOL + stabilised(obj, cfg):
                    fail("not-extracted", "the output differs by %.3g from what the model extracts" % e, h, moment)
                e = reference_error(obj.output, X, r)
                if e > TOL:
                    fail("scale", "the separated signals miss the reference channel by %.3g" % e, h, moment)
            if not end:
                return
            judged[0] += 1
            if zoo.has_filter(cfg) and (scale if case["each"] else obj.__dict__.get("scale_restoration")):
                if scale in PB:
                    e = reference_error(obj.output, X, r)
                    if e > TOL:
                        fail("scale", "after projection back the separated signals miss the reference channel by %.3g" % e, h, moment)
                else:
                    e = mdp_error(obj.output, X, r)
                    if e > TOL:
                        fail("scale", "after minimal distortion the separated signals are not scaled to the reference (%.3g)" % e,
                             h, moment)
            if case.get("apply") is not None and not res.violations:
                what = elsewhere(obj, cfg, X, case["apply"] + judged[0])
                res.stats["applied_elsewhere"] += 1
                if what:
                    fail("elsewhere", what, h, moment)

        h = History(cfg, case["ops"], observe, case["start"], X=X, restoring=None if case["each"] else False)
        if not case["each"] and scale:
            # restored at the end of the last operation only
            orig = h.s.run
            n_ops = len(ends)
            seen = [0]

            def arm(sess):
                inner = sess.run

                def run(*a, **k):
                    seen[0] += 1
                    if seen[0] == n_ops:
                        sess.obj.scale_restoration = scale
                    return inner(*a, **k)

                sess.run = run

            arm(h.s)
            new = h._new

            def fresh():
                new()
                arm(h.s)

            h._new = fresh
        c = h.play(res)
        if c is not None:
            if isinstance(h.error, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
            elif not res.violations:
                res.bad(c[0], "%s: %s" % (who, c[1]))
        elif not res.violations and case.get("hand") is not None and zoo.has_filter(cfg) and h.played.ndim == 3:
            X = h.played
            if zoo.whitened(cfg) or zoo.by_signal(cfg):
                W, Y = None, h.obj.__dict__.get("output")
            else:
                W = h.obj.__dict__.get("demix_filter")
                Y = None if W is None else zoo.apply_filter(W, X)
            what = None
            if Y is not None and Y.shape == X.shape:
                V = zoo.recovered_filter(X, Y)
                if np.all(np.isfinite(V)) and np.all(np.isfinite(Y)) and np.linalg.cond(Y.transpose(1, 0, 2)).max() < 1e3 and zoo.dist(zoo.apply_filter(V, X), Y) < TOL:
                    what = by_hand(X, Y, W, case["hand"])
                    res.stats["restored_by_hand"] += 1
            if what:
                res.bad("by-hand", "%s: applied to the results by hand, %s" % (who, what))
        elif not res.violations and scale and len(ends) == 1 and case["ops"][0]["op"] == "run" and zoo.has_filter(cfg):
            # the same run without restoration: only the scale of each row may differ
            o = case["ops"][0]
            t = History(cfg, case["ops"], lambda *a: None, case["start"], X=X, restoring=False)
            if t.play() is None and not ill(t.obj, cfg, X):
                e = only_scaled(t.obj.output, h.obj.output)
                if e > 1e-5:
                    res.bad("not-only-scaled", "%s: restoring the scale changed the shape of the separated signals (%.3g)" % (who, e))
                res.stats["twin_runs"] += 1
        res.nontrivial = judged[0] >= 1
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), h.brief())
        return res

    def shrinks(self, case):
        for c in super().shrinks(case):
            if c["ops"]:
                yield c
        yield from shrink_ops(case)
        if case["start"] is not None:
            yield dict(case, start=None)
        if not case["each"]:
            yield dict(case, each=True)
        if case.get("hand") is not None:
            yield dict(case, hand=None)
        if case.get("apply") is not None:
            yield dict(case, apply=None)
        yield from zoo.shrink_cfg(case)


def _cover(rng, n):
    """Pairs that visit every source."""
    p = list(range(n))
    rng.shuffle(p)
    return [[p[i], p[(i + 1) % n]] for i in range(n)]


CHECK = Output()

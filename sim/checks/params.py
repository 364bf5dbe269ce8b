"""C16: model parameters stay valid at every step, also on mixtures with dropouts, bursts and extreme gains."""
import numpy as np

from .. import ref, zoo
from ..engine import Check, Result
from ..history import History, gen_inputs, gen_ops, shrink_ops
from .lossref import ill
from .output import reference_error

TOL = 1e-8
EARLY, LATER = 2, 6  # iterations until overfitting may reach the limits of double precision (with, without input faults)


def hermitian_psd(A):
    """-> complaint or None. A (..., c, c)"""
    A = A.reshape((-1,) + A.shape[-2:])
    size = np.maximum(np.max(np.abs(A), axis=(1, 2)), 1e-300)
    skew = np.max(np.abs(A - A.transpose(0, 2, 1).conj()), axis=(1, 2)) / size
    if np.max(skew) > TOL:
        return "not Hermitian (%.3g)" % np.max(skew)
    low = np.linalg.eigvalsh((A + A.transpose(0, 2, 1).conj()) / 2)[:, 0] / size
    if np.min(low) < -TOL:
        return "not positive semidefinite (%.3g)" % np.min(low)
    return None


def invalid(obj, cfg, X, moment, calm=True):
    """-> (class, complaint) or None. moment: start | iteration | end | aborted (torn inside an iteration)"""
    c, kw = cfg["cls"], cfg["kw"]
    for k in zoo.state_keys(cfg) + ["posterior", "variance", "output"]:
        v = getattr(obj, k, None)
        if v is not None and not zoo.finite(v):
            return "not-finite", "%s is not finite" % k
    for k in ("basis", "activation", "latent", "mixing", "variance", "posterior"):
        v = getattr(obj, k, None)
        if v is None or (k == "basis" and c in zoo.IPSDTA) or (k == "posterior" and c != "CACGMM"):
            continue
        if any(np.iscomplexobj(a) for a in zoo.flat(v)) or min(float(np.min(a)) for a in zoo.flat(v)) < 0:
            return "negative", "%s has negative or complex entries" % k
    if c == "FastGaussMNMF" and getattr(obj, "spatial", None) is not None and np.min(obj.spatial) < 0:
        return "negative", "spatial has negative entries"
    if moment in ("iteration", "end") and cfg["floor"] == "big":
        for k in ("basis", "activation") if c not in zoo.IPSDTA else ("activation",):
            low = min(float(np.min(a)) for a in zoo.flat(getattr(obj, k)))
            if low < zoo.BIG * (1 - 1e-12):
                return "below-floor", "%s falls to %.3g although the flooring keeps everything at %g or more" % (k, low, zoo.BIG)
    psd = []
    if c == "GaussMNMF":
        psd = [("spatial", getattr(obj, "spatial", None))]
    elif c == "CACGMM":
        psd = [("covariance", getattr(obj, "covariance", None))]
    elif c in zoo.IPSDTA:
        psd = [("basis", b) for b in zoo.flat(getattr(obj, "basis", None))]
    for k, v in psd:
        if v is not None:
            e = hermitian_psd(v)
            if e:
                return "not-psd", "%s is %s" % (k, e)
    if moment == "aborted":
        return None
    for k, axis in (("latent", 0), ("mixing", 0), ("posterior", 0)):
        v = getattr(obj, k, None)
        if v is None or (k == "posterior" and c != "CACGMM") or (k == "latent" and not kw.get("partitioning")):
            continue
        e = float(np.max(np.abs(np.sum(v, axis=axis) - 1)))
        if e > (1e-6 if k != "latent" else TOL):
            return "not-summing", "%s does not sum to one over the sources (off by %.3g)" % (k, e)
    if moment != "iteration":
        return None
    return unnormalised(obj, cfg, X, calm)


def collapsed(obj, cfg, X):
    """A source practically vanished, or a filter or a weighted covariance is singular to working precision."""
    c = cfg["cls"]
    if c in zoo.ILRMA + ["FastGaussMNMF"]:
        W = ref.filter_of(obj, cfg, X) if c in zoo.ILRMA else obj.diagonalizer
        p = np.mean(np.abs(zoo.apply_filter(W, X)) ** 2, axis=(1, 2))
        k = float(np.max(np.linalg.cond(W)))
        return "singular" if not k < 1e12 else "vanished" if np.min(p) < 1e-6 * np.max(p) or k > 1e8 else None
    if c in zoo.IPSDTA:
        V = obj.activation
        for a, b, U in ref._blocks(obj, cfg, X.shape[1]):
            R = np.einsum("nkij,nkt->ntij", U, V)
            d = np.real(np.diagonal(np.linalg.inv(R), axis1=-2, axis2=-1))  # (N, T, bins of the block)
            Q = np.einsum("ntf,cft,dft->nfcd", d, X[:, a:b], X[:, a:b].conj())
            if np.max(np.linalg.cond(Q)) > 1e8 or np.max(np.linalg.cond(R)) > 1e7:
                return "singular"
    return None


def unnormalised(obj, cfg, X, calm):
    """Normalisation as configured, right after an iteration."""
    c, kw = cfg["cls"], cfg["kw"]
    norm = kw.get("normalization")
    if c in ("GaussMNMF", "CACGMM") and norm:
        A = obj.spatial if c == "GaussMNMF" else obj.covariance
        e = float(np.max(np.abs(np.trace(A, axis1=-2, axis2=-1) - 1)))
        if e > TOL:
            return "not-normalised", "traces differ from one by %.3g" % e
    if c in zoo.IPSDTA and kw.get("source_normalization"):
        e = float(np.max(np.abs(sum(np.trace(b, axis1=-2, axis2=-1).sum(axis=-1) for b in zoo.flat(obj.basis)) - 1)))
        if e > TOL:
            return "not-normalised", "traces of the basis differ from one by %.3g" % e
    if c in zoo.ILRMA + ["FastGaussMNMF"] and norm in (True, "power"):
        W = ref.filter_of(obj, cfg, X) if c in zoo.ILRMA else obj.diagonalizer
        Y = obj.output if c in zoo.ILRMA and zoo.by_signal(cfg) else zoo.apply_filter(W, X)
        p = np.mean(np.abs(Y) ** 2, axis=(1, 2))
        if np.max(p) > 1 + 1e-6 or calm and np.min(p) < 1 - 1e-6:  # a power below the floor is divided by the floor
            return "not-normalised", "powers of the sources are %s instead of 1" % p
    if c in zoo.ILRMA and norm == "projection_back" and not ill(obj, cfg, X):
        Y = obj.output if zoo.by_signal(cfg) else zoo.apply_filter(obj.demix_filter, X)
        e = reference_error(Y, X, kw.get("reference_id", 0))
        if e > 1e-5:
            return "not-normalised", "sources miss the reference channel by %.3g" % e
    return None


class Params(Check):
    prop = "C16"
    quick_runs = 15000
    thorough_runs = 120000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one history of an object (runs, splits, aborts, interruptions at seeded lines, linear-algebra and user calls, process "
            "losses with restored state) on a mixture with injected dropouts, bursts and gains. All model parameters are judged at every "
            "callback, after every run and after every abort. Non-trivial: two moments judged. Distinct: (configuration kind, input faults, "
            "history).")
    measure = "distinct (class, update rule, options, input faults, history) signatures"
    real = ["ssspy.bss (all classes)", "ssspy.special", "numpy"]
    stubs = ["input mixtures with dropouts", "callbacks and user functions", "interpreter line hook", "process loss"]
    assumptions = ["flooring is on", "no channel and no bin is silent throughout", "runs that become numerically singular are not judged further"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, floors=("max", "max", "add"), scale=(True, False, "MDP"))
        T = cfg["T"]
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(["dead_frame", "dead_frame", "dead_channel_frames", "burst", "gain"])
            faults.append([k, rng.randrange(T), rng.randrange(1, T // 3) if k == "dead_channel_frames" else rng.choice([1, 2, 3])])
            if k == "gain":
                faults[-1][2] = rng.choice([-2, -1, 1, 2, 3])
        if cfg["cls"] in zoo.GRAD:  # a fixed step size presumes a fixed scale, and has to be small
            faults = [f for f in faults if f[0] not in ("gain", "burst")]
            cfg["kw"]["step_size"] = rng.choice([1e-2, 1e-3])
        if cfg.get("alg") == "IPA":  # silent frames and extreme gains together exceed double precision
            faults = [f for f in faults if f[0] != "gain"]
        if cfg["cls"] in zoo.ILRMA or cfg.get("alg") == "IPA":  # (a source stuck at one dead channel outweighs the others by 1e10)
            faults = [f for f in faults if f[0] != "dead_channel_frames"]
        cfg["x"]["faults"] = faults
        if isinstance(cfg.get("pairs"), list):
            cfg["pairs"] = rng.choice(["default", "combination", "sequential"])
        if cfg["cls"] in zoo.PDS + zoo.ADMM:
            cfg["kw"]["scale_restoration"] = False
        if cfg["cls"] in zoo.ILRMA + zoo.MNMF + zoo.IPSDTA and not cfg["kw"].get("partitioning") and rng.random() < 0.25:  # a floor that matters, nothing rescaled afterwards
            cfg["floor"] = "big"
            cfg["kw"]["source_normalization" if cfg["cls"] in zoo.IPSDTA else "normalization"] = False
        ops = gen_ops(rng, cfg, faults=True, iters=(1, 1, 2, 3, 4, 6))
        gen_inputs(rng, cfg, ops, rng.choice((0, 0, 0.3)))
        return {"cfg": cfg, "ops": ops, "start": rng.choice([None, rng.randrange(1 << 30)]), "restoring": rng.random() < 0.5}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        X = zoo.make_input(cfg)
        faults = cfg["x"]["faults"]
        for f in faults:
            res.stats["fault_input_" + f[0]] += 1
        judged = [0]
        lost = {None}

        def look(h, moment):
            if res.violations or "singular" in lost:
                return
            judged[0] += 1
            c = invalid(h.obj, cfg, h.played, moment, not faults and lost == {None} and h.done() <= LATER)
            if c and c[0] == "not-finite" and h.done() > (EARLY if faults else LATER):
                res.stats["late_breakdown_skipped"] += 1
                lost.add("singular")
                return
            if not c and moment != "aborted":
                lost.add(collapsed(h.obj, cfg, h.played))
            if c:
                res.bad(c[0], "%s, input %s: %s (%s of run %d, object %d, history %s, interruptions %s)"
                        % (who, faults, c[1], moment, h.s.run_no, h.chain, h.brief(), h.fired))

        with np.errstate(all="ignore"):
            h = History(cfg, case["ops"], look, case["start"], X=X, restoring=None if case["restoring"] else False)
            h.after_fault = lambda h, op: look(h, "aborted")
            c = h.play(res)
        if c is not None and not res.violations:
            # updates null short bursts ever better, whereupon their weighted covariances become singular
            if isinstance(h.error, np.linalg.LinAlgError) and (
                    lost != {None} or cfg.get("alg") == "IP2" or cfg["cls"] in zoo.IPSDTA or h.done() > (EARLY if faults else LATER)):
                res.stats["numerically_singular_skipped"] += 1
            else:
                res.bad(c[0], "%s, input %s: %s" % (who, faults, c[1]))
        res.nontrivial = judged[0] >= 2
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), sorted(cfg["kw"].items(), key=str), sorted(f[0] for f in faults), h.brief())
        return res

    def shrinks(self, case):
        for c in super().shrinks(case):
            if c["ops"]:
                yield c
        yield from shrink_ops(case)
        if case["start"] is not None:
            yield dict(case, start=None)
        yield from zoo.shrink_cfg(case)


CHECK = Params()

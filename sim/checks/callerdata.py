"""C09: whatever happens during and after runs, the caller's arrays and option objects stay as they were."""
import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import Session, dry_counts, gen_fault, shrink_fault

CLASSES = zoo.ALL


class Guard:
    """One caller-owned array, inside a larger buffer so that stray writes show too."""

    def __init__(self, name, v, how, dtype=None):
        self.name = name
        v = np.asarray(v)
        if dtype is not None:
            v = v.astype(dtype)
        if how == "F":
            buf = v.copy(order="F")
            a = buf
        elif how == "strided":
            buf = np.full(v.shape[:-1] + (2 * v.shape[-1] + 1,), 7, dtype=v.dtype)
            buf[..., 1::2] = v
            a = buf[..., 1::2]
        elif how == "reversed":
            buf = np.ascontiguousarray(v[..., ::-1])
            a = buf[..., ::-1]
        elif how == "transposed" and v.ndim > 1:
            buf = np.ascontiguousarray(np.swapaxes(v, 0, 1))
            a = np.swapaxes(buf, 0, 1)
        else:
            buf = np.full((v.shape[0] + 2,) + v.shape[1:], 7, dtype=v.dtype)
            buf[1:-1] = v
            a = buf[1:-1]
            if how == "readonly":
                a.flags.writeable = False
        self.buf, self.a = buf, a
        self.meta = (a.dtype, a.shape, a.strides, a.flags.writeable)
        self.bytes = buf.tobytes()

    def changed(self):
        a = self.a
        if (a.dtype, a.shape, a.strides, a.flags.writeable) != self.meta:
            return "dtype, shape or flags changed"
        if self.buf.tobytes() != self.bytes:
            now = np.frombuffer(self.bytes, dtype=self.buf.dtype).reshape(self.buf.shape)
            n = int(np.sum(~((now == self.buf) | ((now != now) & (self.buf != self.buf)))))
            return "%d of %d entries changed" % (n, self.buf.size)
        return None


def helper_call(name, cfg, X, W, g):
    """-> (function, {argument name: array}, other arguments) of a helper the caller applies around a separation."""
    if name.endswith("_r"):
        # the same helper on real arrays
        fn, arrays, other = helper_call(name[:-2], cfg, X, W, g)
        return fn, {k: np.ascontiguousarray(np.real(a)) for k, a in arrays.items()}, other
    from ssspy import algorithm, linalg, special, transform
    from ssspy.linalg import prox

    C = cfg["C"]
    ref = int(g.integers(C + 1))
    ref = None if ref == C else ref
    A = g.standard_normal((5, C, C)) + 1j * g.standard_normal((5, C, C))
    P = A @ A.conj().swapaxes(-2, -1) + 0.1 * np.eye(C)
    B = g.standard_normal((5, C, C)) + 1j * g.standard_normal((5, C, C))
    Q = B @ B.conj().swapaxes(-2, -1) + 0.1 * np.eye(C)
    if X.ndim == 2:
        X = X[:, np.newaxis, :] + 0j
    if W.ndim == 2:
        W = W[np.newaxis] + 0j
    Y = np.einsum("fnc,cft->nft", W, X)
    R = np.abs(g.standard_normal((3, 4))) + 0.01
    from ssspy.bss import _update_spatial_model as spatial
    phi = np.abs(g.standard_normal(Y.shape)) + 0.1
    Z = X.transpose(1, 0, 2)
    ZZ = Z[:, np.newaxis, :, np.newaxis, :] * Z[:, np.newaxis, np.newaxis, :, :].conj()
    U = np.mean(phi.transpose(1, 0, 2)[:, :, np.newaxis, np.newaxis, :] * ZZ, axis=-1) + 0.1 * np.eye(C)
    return {
        "projection_back": (algorithm.projection_back, {"Y": Y, "reference": X}, {"reference_id": ref}),
        "projection_back_filter": (algorithm.projection_back, {"W": W}, {"reference_id": ref}),
        "minimal_distortion": (algorithm.minimal_distortion_principle, {"Y": Y, "reference": X}, {"reference_id": ref}),
        "whiten": (transform.whiten, {"X": X}, {}),
        "whiten_real": (transform.whiten, {"X": X[:, 0].real}, {}),
        "pca": (transform.pca, {"X": X}, {"ascend": bool(g.integers(2))}),
        "pca_real": (transform.pca, {"X": X[:, 0].real}, {"ascend": bool(g.integers(2))}),
        "prox_l1": (prox.l1, {"X": X}, {"step_size": 0.3}),
        "prox_l21": (prox.l21, {"X": X}, {"step_size": 0.3, "axis2": 1}),
        "prox_neg_log": (prox.neg_log, {"X": R}, {"step_size": 0.3}),
        "prox_neg_logdet": (prox.neg_logdet, {"W": W}, {"step_size": 0.3}),
        "logsumexp": (special.logsumexp, {"X": R}, {"axis": 1}),
        "softmax": (special.softmax, {"X": R}, {"axis": 1}),
        "to_psd": (special.to_psd, {"X": P - 0.3 * np.eye(C)}, {}),
        "max_flooring": (special.max_flooring, {"X": R}, {"eps": 0.5}),
        "add_flooring": (special.add_flooring, {"X": R}, {"eps": 0.5}),
        "eigh": (linalg.eigh, {"A": P, "B": Q}, {"type": int(g.integers(1, 4))}),
        "eigh2": (linalg.eigh2, {"A": P[:, :2, :2], "B": Q[:, :2, :2]}, {"type": int(g.integers(1, 4))}),
        "inv2": (linalg.inv2, {"A": A[:, :2, :2]}, {}),
        "sqrtmh": (linalg.sqrtmh, {"A": P}, {}),
        "invsqrtmh": (linalg.invsqrtmh, {"A": P}, {}),
        "gmeanmh": (linalg.gmeanmh, {"A": P, "B": Q}, {"type": int(g.integers(1, 4))}),
        "cbrt": (linalg.cbrt, {"X": A.real}, {}),
        "solve_cubic": (linalg.solve_cubic, {"A": R, "B": R + 1, "C": R - 1, "D": R ** 2}, {"all": bool(g.integers(2))}),
        "quadratic": (linalg.quadratic, {"X": A[..., 0], "A": P}, {}),
        "solve": (linalg.solve, {"A": A, "b": A[..., 0]}, {}),
        "prox_l1_step": (prox.l1, {"X": X}, {"step_size": 1.5}),
        "update_by_ip1": (spatial.update_by_ip1, {"W": W, "U": U}, {"overwrite": False}),
        "update_by_ip2": (spatial.update_by_ip2, {"W": W, "U": U}, {"overwrite": False}),
        "update_by_iss1": (spatial.update_by_iss1, {"Y": Y, "weight": phi}, {}),
        "update_by_iss2": (spatial.update_by_iss2, {"Y": Y, "weight": phi}, {}),
        "update_by_ipa": (spatial.update_by_ipa, {"Y": Y, "weight": phi}, {}),
        "lqpqm2": (linalg.lqpqm2, {"H": P, "v": A[..., 0], "z": np.abs(A[:, 0, 0])}, {}),
    }[name]


HELPERS = ("projection_back", "projection_back", "projection_back_filter", "minimal_distortion", "minimal_distortion", "whiten",
           "whiten_real", "pca", "pca_real", "prox_l1", "prox_l21", "prox_neg_log", "prox_neg_logdet", "logsumexp", "softmax",
           "to_psd", "max_flooring", "add_flooring", "eigh", "eigh2", "inv2", "sqrtmh", "invsqrtmh", "gmeanmh", "cbrt",
           "solve_cubic", "quadratic", "lqpqm2", "solve", "prox_l1_step", "update_by_ip1", "update_by_ip2", "update_by_iss1",
           "update_by_iss2", "update_by_ipa", "projection_back_r", "projection_back_filter_r", "minimal_distortion_r",
           "prox_l1_r", "prox_l21_r", "prox_neg_logdet_r", "to_psd_r", "eigh_r", "eigh2_r", "inv2_r", "sqrtmh_r", "invsqrtmh_r",
           "gmeanmh_r", "quadratic_r", "solve_r")
HOWS = ["C", "F", "strided", "reversed", "transposed", "readonly"]


class CallerData(Check):
    prop = "C09"
    quick_runs = 16000
    thorough_runs = 80000
    quick_wall = 110
    shrink_lists = ("ops", "calls")
    rule = ("A run = 1-3 runs of one object fed with caller-owned input and state arrays of seeded layout (contiguous, Fortran, "
            "strided, reversed, transposed, read-only) and precision, each inside a guarded buffer, with exceptions injected at "
            "seeded lines, callbacks, user functions and numpy.linalg calls. Helper functions (scale restoration, "
            "whitening, components, proximal operators, matrix routines) are called on guarded arrays before. All caller-owned buffers, option lists and earlier "
            "results are compared byte for byte at every callback and after every run. Non-trivial: at least one update. "
            "Distinct: (configuration kind, layouts, passed state, failure).")
    measure = "distinct (class, update rule, layouts, state passed, failure point) signatures"
    real = ["ssspy.bss (all classes)", "numpy"]
    stubs = ["callbacks and user functions", "interpreter line hook (interrupts)", "numpy.linalg failure injector"]
    assumptions = ["callbacks and user functions themselves do not write into arrays they are shown"]

    def gen(self, rng, index, tier):
        cfg = zoo.gen(rng, CLASSES)
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([0, 1, 1, 2, 3])
            ops.append({"n": n, "init": rng.random() < 0.6, "state": rng.random() < 0.45,
                        "fault": gen_fault(rng, ("cb", "user", "linalg", "line", "line"), n) if rng.random() < 0.45 else None,
                        "how": rng.choice(HOWS),
                        "single": rng.random() < 0.15})
        calls = [[rng.choice(HELPERS), rng.choice(HOWS), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        return {"cfg": cfg, "ops": ops, "calls": calls}

    def run(self, case):
        res = Result()
        cfg = case["cfg"]
        who = zoo.brief(cfg)
        guards, kept, X0 = [], [], zoo.make_input(cfg)

        def look(when):
            for g in guards:
                c = g.changed()
                if c:
                    res.bad("caller-array-changed", "%s: %s given by the caller changed %s: %s" % (who, g.name, when, c))
                    return False
            for i, (a, ref) in enumerate(kept):
                if (a.shape, a.dtype, a.tobytes()) != ref:
                    res.bad("result-changed", "%s: the result returned by call %d changed %s" % (who, i, when))
                    return False
            for name, lst, ref in options:
                if len(lst) != len(ref) or any(x is not y for x, y in zip(lst, ref)):
                    res.bad("option-changed", "%s: the %s list given by the caller changed %s" % (who, name, when))
                    return False
            return True

        options = []
        s = Session(cfg, observe=lambda s: look("during run %d" % s.run_no))
        for name in ("callbacks", "penalty_fn", "prox_penalty"):
            v = getattr(s.obj, name, None)
            if isinstance(v, list):
                options.append((name, v, list(v)))
        for name, how, seed in case["calls"]:
            g = np.random.default_rng(seed)
            W = g.standard_normal((cfg["F"], cfg["C"], cfg["C"])) + 1j * g.standard_normal((cfg["F"], cfg["C"], cfg["C"]))
            if X0.ndim == 2:
                W = W[0].real
            fn, arrays, other = helper_call(name, cfg, X0, W, g)
            mine = [Guard("%s of %s" % kn, a, how) for kn, a in (((k, name), a) for k, a in arrays.items())]
            guards += mine
            try:
                v = fn(*[m.a for m in mine if "reference of" not in m.name],
                       **{k: m.a for k, m in zip(arrays, mine) if k == "reference"}, **other)
            except np.linalg.LinAlgError:
                v = None
            except ValueError as e:
                if "read-only" in str(e):
                    res.bad("caller-array-changed", "%s tried to write into a read-only array of the caller" % name)
                    return res
                raise
            res.stats["helper_" + name] += 1
            res.log("helper", name, how)
            res.shape(name, how)
            if not look("by a call of " + name):
                return res
            for a in v if isinstance(v, tuple) else [v]:
                if isinstance(a, np.ndarray):
                    kept.append((a, (a.shape, a.dtype, a.tobytes())))
                    res.nontrivial = True
        donor = None
        for i, op in enumerate(case["ops"]):
            state = {}
            if op["state"] and cfg["cls"] != "CACGMM":
                if donor is None:
                    donor = Session(dict(cfg, rng=cfg["rng"] + 5))
                    q = donor.run(1, False)
                    if q[0] != "ok":
                        res.stats["numerically_singular_skipped"] += 1
                        return res
                    donor = zoo.snap(donor.obj, cfg)
                    if zoo.by_signal(cfg):
                        donor["demix_filter"] = np.tile(np.eye(cfg["C"], dtype=complex) * 0.9, (cfg["F"], 1, 1))
                for k, v in donor.items():
                    if v is None:
                        continue
                    gs = [Guard("%s" % k, a, op["how"]) for a in zoo.flat(v)]
                    guards += gs
                    state[k] = tuple(g.a for g in gs) if isinstance(v, tuple) else gs[0].a
            dtype = None
            if op["single"]:
                dtype = np.float32 if X0.ndim == 2 else np.complex64
            g = Guard("input", X0, op["how"], dtype)
            guards.append(g)
            counts = None
            if op["fault"] and op["fault"][0] != "cb":
                counts = dry_counts(cfg, op["n"], op["init"])
            r, out = s.run(op["n"], op["init"], op["fault"], counts, X=g.a, **state)
            res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), op["how"], sorted(state), op["n"], r, s.user_where)
            res.log("run", i, r, s.user_where, type(out).__name__ if r == "raise" else "")
            if s.fired:
                res.stats["fault_" + op["fault"][0]] += 1
            if not look("in run %d (%s)" % (i, "finished" if r == "ok" else "ended by " + type(out).__name__)):
                return res
            if r == "raise":
                if not s.fired:
                    if isinstance(out, np.linalg.LinAlgError):
                        res.stats["numerically_singular_skipped"] += 1
                    elif isinstance(out, ValueError) and "read-only" in str(out):
                        res.bad("caller-array-changed", "%s: tried to write into a read-only array of the caller" % who)
                    elif i == 0 or not any(o["fault"] for o in case["ops"][:i]):
                        res.bad("raised", "%s: run with caller arrays laid out %r raised %s: %s"
                                % (who, op["how"], type(out).__name__, out))
                    return res
            else:
                if any(np.shares_memory(out, h.buf) for h in guards):
                    res.bad("result-aliases-caller-data", "%s: the result shares memory with an array of the caller" % who)
                    return res
                kept.append((out, (out.shape, out.dtype, out.tobytes())))
            # what the object holds must not be the caller's memory either
            for k in zoo.state_keys(cfg):
                for a in zoo.flat(getattr(s.obj, k, None)):
                    for h in guards:
                        if isinstance(a, np.ndarray) and np.shares_memory(a, h.buf):
                            res.stats["state_aliases_caller_%s_%s" % (cfg["cls"], k)] += 1
            res.steps += op["n"]
            res.nontrivial = res.nontrivial or s.updates > 0
        return res

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i, op in enumerate(case["ops"]):
            def put(**k):
                return dict(case, ops=case["ops"][:i] + [dict(op, **k)] + case["ops"][i + 1:])
            for f in shrink_fault(op["fault"]):
                yield put(fault=f)
            if op["n"] > 0:
                yield put(n=op["n"] - 1)
            for k, v in (("state", False), ("how", "C"), ("single", False)):
                if op[k] != v:
                    yield put(**{k: v})
        yield from zoo.shrink_cfg(case)


CHECK = CallerData()

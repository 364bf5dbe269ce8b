"""C17: permutation alignment reorders the sources of each bin, identically in every array, or leaves the caller's arrays alone."""
import contextlib
import itertools

import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import EXCS, Lines, Session, dry_counts, make_exc

SOLVERS = ("correlation", "score", "deprecated")
DATA = ("planted", "planted", "complex", "real", "tied", "sparse")


def get_solver(name):
    from ssspy.algorithm import permutation_alignment as pa
    from ssspy.bss import _solve_permutation as old

    return {"correlation": pa.correlation_based_permutation_solver, "score": pa.score_based_permutation_solver,
            "deprecated": old.correlation_based_permutation_solver}[name]


def layout(a, kind):
    """The same values in another memory layout."""
    if kind == "transposed":
        return np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
    if kind == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype) if a.ndim > 2 else None
        if b is None:
            return a.copy()
        b[..., ::2] = a
        return b[..., ::2]
    if kind == "fortran":
        return a.copy(order="F")
    return a.copy()


def make_data(case):
    g = np.random.default_rng(case["seed"])
    F, N, T = case["F"], case["N"], case["T"]
    perms = np.array([g.permutation(N) for _ in range(F)])
    kind = case["data"]
    if kind == "planted":
        env = g.gamma(0.5, size=(N, T)) + 1e-3
        if case["solver"] == "score":  # most bins in the common order, so that the centroids tell the sources apart
            keep = g.permutation(F)[: F - F // 4]
            perms[keep] = np.arange(N)
        Y = np.stack([env[perms[f]] * (0.2 + g.gamma(1.0)) for f in range(F)])
        if case["solver"] != "score":
            Y = Y * np.exp(2j * np.pi * g.random(Y.shape)) if case["cplx"] else Y
    elif kind == "real":
        Y = g.gamma(0.7, size=(F, N, T))
    elif kind == "sparse":
        Y = np.abs(g.standard_normal((F, N, T))) * (g.random((F, N, T)) < 0.3)
    else:
        Y = g.standard_normal((F, N, T)) + 1j * g.standard_normal((F, N, T))
        if case["solver"] == "score":
            Y = np.abs(Y)
    if kind == "tied":
        for f in range(F):
            Y[f, 1] = Y[f, 0]
        if F > 2:
            Y[2] = Y[1]
    for f in case["silent"]:
        Y[f % F] = 0
    comp = []
    for i, shape in enumerate(case["comp"]):
        tag = np.arange(F)[:, None] * 64.0 + np.arange(N)[None, :]
        a = g.random((F, N) + tuple(shape)) * 0.5 + tag.reshape((F, N) + (1,) * len(shape))
        if i % 2:
            a = a + 1j * g.random(a.shape)
        if case.get("ctypes"):
            a = a.astype({"int": "i8", "narrow": "c8" if i % 2 else "f4", "big": a.dtype.newbyteorder(">")}[case["ctypes"]])
        comp.append(a)
    if case.get("single"):
        Y = Y.astype("c8" if np.iscomplexobj(Y) else "f4")
    return Y, comp, perms


def reordering(before, after):
    """Per bin the reorderings that turn before into after (sets of tuples), or the first bin without one."""
    out = []
    F, N = before.shape[:2]
    for f in range(F):
        rows_b = [before[f, n].tobytes() for n in range(N)]
        rows_a = [after[f, n].tobytes() for n in range(N)]
        if sorted(rows_b) != sorted(rows_a):
            return None, f
        out.append([[m for m in range(N) if rows_b[m] == rows_a[n]] for n in range(N)])
    return out, None


def consistent(arrays):
    """arrays: (name, before, after). -> complaint or None. One reordering per bin must explain every array."""
    opts = []
    for name, b, a in arrays:
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s changed shape or type: %s %s -> %s %s" % (name, b.shape, b.dtype, a.shape, a.dtype), None
        o, f = reordering(np.ascontiguousarray(b), np.ascontiguousarray(a))
        if o is None:
            return "%s: bin %d is no reordering of the given sources" % (name, f), None
        opts.append((name, o))
    F, N = arrays[0][1].shape[:2]
    found = []
    for f in range(F):
        ok = None
        for p in itertools.permutations(range(N)):
            if all(p[n] in o[f][n] for _, o in opts for n in range(N)):
                ok = p
                break
        if ok is None:
            return "bin %d: %s are not reordered alike" % (f, ", ".join(n for n, _ in opts)), None
        found.append(ok)
    return None, found


def greedy(Y, floor):
    """Independent model of the alignment by correlation, or None when two choices are nearly tied."""
    F, N, T = Y.shape
    A = np.abs(Y)
    P = np.zeros_like(A)
    for f in range(F):
        for t in range(T):
            P[f, :, t] = A[f, :, t] / floor(np.array([[np.sqrt((A[f, :, t] ** 2).sum())]]))[0, 0]
    corr = [sum(float(P[f, m] @ P[f, n]) for m in range(N) for n in range(N)) for f in range(F)]
    order = sorted(range(F), key=lambda f: corr[f])
    vals = sorted(corr)
    if N == 1 or any(b - a < 1e-9 * max(1.0, abs(b)) for a, b in zip(vals, vals[1:])):
        return None
    perm = [tuple(range(N)) for _ in range(F)]
    total = P[order[0]].copy()
    for f in order[1:]:
        scores = sorted(((sum(float(total[n] @ P[f, p[n]]) for n in range(N)), p) for p in itertools.permutations(range(N))), reverse=True)
        if scores[0][0] - scores[1][0] < 1e-9 * max(1.0, abs(scores[0][0])):
            return None
        perm[f] = scores[0][1]
        total = total + P[f, list(perm[f])]
    return perm


class Permutation(Check):
    prop = "C17"
    quick_runs = 40000
    thorough_runs = 300000
    quick_wall = 110
    rule = ("A run = one alignment of seeded signals (planted, tied, sparse, silent or repeated bins) with 0-4 companion arrays in seeded "
            "memory layouts, in place or not, where the user function fails at a seeded call or an interruption hits a seeded line; or one "
            "separation run of a class with alignment, compared with its twin without. Non-trivial: at least one bin was reordered or a fault "
            "fired. Distinct: (solver, sizes, options, fault, reorderings).")
    measure = "distinct (solver, options, fault, reorderings) signatures"
    real = ["ssspy.algorithm.permutation_alignment", "ssspy.bss._solve_permutation", "ssspy.bss.fdica", "ssspy.bss.cacgmm", "numpy"]
    stubs = ["user flooring functions", "interpreter line hook", "input signals"]
    assumptions = ["an interruption between two array assignments may leave different arrays in different orders (each array is still a "
                   "reordering); a failing user function may not"]

    def gen(self, rng, index, tier):
        if rng.random() < 0.2:
            return self.gen_class(rng)
        solver = rng.choice(["correlation", "correlation", "score", "score", "score", "deprecated"])
        c = {"kind": "solver", "solver": solver, "seed": rng.randrange(1 << 30), "data": rng.choice(DATA),
             "F": rng.choice([1, 2, 3, 5, 8, 12]), "N": rng.choice([2, 2, 3, 3, 4]), "T": rng.choice([1, 4, 16, 40]),
             "cplx": rng.random() < 0.7, "silent": [rng.randrange(12)] if rng.random() < 0.3 else [],
             "comp": [rng.choice([[], [1], [3], [2, 2], [2, 3], [1, 2, 2]]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
             "overwrite": rng.choice([True, False, None]), "layout": rng.choice(["c", "transposed", "strided", "fortran"]),
             "floor": rng.choice(["default", "default", "max", "add", "none"]), "fault": None, "again": rng.random() < 0.3}
        if c["data"] == "planted":
            c["T"] = rng.choice([40, 64]) if solver == "score" else rng.choice([8, 16, 40])
            if solver == "score":
                c["F"], c["N"] = rng.choice([8, 12, 16]), rng.choice([2, 3])
        r = rng.random()
        if r < 0.03 and solver != "score":
            c["N"], c["F"] = 5, rng.choice([3, 5, 8])
        elif r < 0.05:
            c["N"] = 1
            c["data"] = rng.choice(["complex", "real"])
        elif r < 0.08:
            c["F"] = rng.choice([24, 33, 65])
        if rng.random() < 0.1:  # several silent bins
            k = c["F"] // 6 if c["data"] == "planted" and solver == "score" else c["F"] - 1
            c["silent"] = sorted(rng.sample(range(c["F"]), rng.randrange(k + 1)))
        if rng.random() < 0.15:
            c["single"] = True
        if rng.random() < 0.2:
            c["ctypes"] = rng.choice(["int", "narrow", "big"])
        if solver == "score":
            c["iters"] = [rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 1, 2])]
        if rng.random() < 0.45:
            c["fault"] = rng.choice([["user", round(rng.random(), 4), rng.choice(EXCS)], ["line", round(rng.random(), 4), rng.choice(EXCS)]])
            if c["fault"][0] == "user" and c["floor"] in ("default", "none"):
                c["floor"] = "max"
        return c

    def gen_class(self, rng):
        cfg = zoo.gen(rng, classes=zoo.FDICA + ["CACGMM"], scale=(False,), floors=("max", "add"))
        cfg["kw"]["permutation_alignment"] = True if cfg["cls"] != "CACGMM" else rng.choice(
            [True, "posterior_score", "amplitude_score", "amplitude_correlation"])
        if cfg["kw"]["permutation_alignment"] == "amplitude_correlation":
            cfg["kw"].pop("global_iter", None), cfg["kw"].pop("local_iter", None)
        cfg["F"] = rng.choice([3, 5, 6])
        fault = None
        if rng.random() < 0.4:
            fault = rng.choice([["user", rng.randrange(1, 9), rng.choice(EXCS)], ["line", round(rng.random(), 4), rng.choice(EXCS)]])
        return {"kind": "class", "cfg": cfg, "n": rng.choice([0, 1, 2, 4]), "fault": fault}

    # -------------------------------------------------------------- solver alone

    def run(self, case):
        res = Result()
        with np.errstate(all="ignore"):
            (self.run_class if case["kind"] == "class" else self.run_solver)(case, res)
        return res

    def call(self, case, Y, comp, floor, fault, res, counts=None):
        """One call with a fault. -> ("ok", value) or ("raise", exc), (user calls, lines)"""
        exc = make_exc(fault[-1]) if fault else None
        user = [0]
        at = 1 + int(fault[1] * counts[0]) if fault and fault[0] == "user" and counts[0] else None

        def wrapped(x):
            user[0] += 1
            if user[0] == at:
                raise exc
            return floor(x)

        kw = {}
        if case["floor"] == "none":
            kw["flooring_fn"] = None
        elif case["floor"] != "default":
            kw["flooring_fn"] = wrapped
        if case["overwrite"] is not None:
            kw["overwrite"] = case["overwrite"]
        if "iters" in case:
            kw["global_iter"], kw["local_iter"] = case["iters"]
        line = 1 + int(fault[1] * counts[1]) if fault and fault[0] == "line" else None
        lines = Lines(line, exc) if (line or counts is None and fault) else contextlib.nullcontext()
        try:
            with lines:
                v = get_solver(case["solver"])(Y, *comp, **kw)
            out = ("ok", v)
        except BaseException as e:
            if exc is None or e is not exc:
                raise
            out = ("raise", e)
        return out, (user[0], getattr(lines, "n", 0))

    def run_solver(self, case, res):
        Y0, C0, perms = make_data(case)
        floor = {"add": lambda x: x + 1e-10}.get(case["floor"], lambda x: np.maximum(x, 1e-10))
        fault = case["fault"]
        who = "%s solver" % case["solver"]
        counts = None
        if fault:
            _, counts = self.call(dict(case), Y0.copy(), [c.copy() for c in C0], floor, ["dry", "error"], res)
            if fault[0] == "user" and not counts[0]:
                fault = None
        Y = layout(Y0, case["layout"])
        comp = [layout(c, case["layout"]) for c in C0]
        inplace = case["overwrite"] is not False
        if not inplace and case["seed"] % 2:
            for a in [Y] + comp:
                a.flags.writeable = False
        (q, v), _ = self.call(case, Y, comp, floor, fault, res, counts)
        names = ["the signals"] + ["companion %d" % i for i in range(len(comp))]
        mine = list(zip(names, [Y0] + C0, [Y] + comp))
        res.steps += 1
        found = None
        if not inplace:
            for name, b, a in mine:
                if a.tobytes() != b.tobytes():
                    return res.bad("caller-modified", "%s: overwrite=False, but %s changed (%s)" % (who, name, q))
        if q == "raise":
            res.stats["fault_" + fault[0]] += 1
            if inplace and fault[0] == "user":
                c, found = consistent(mine)
                if c:
                    return res.bad("inconsistent-after-failure", "%s, flooring function failed: %s" % (who, c))
            elif inplace:
                for m in mine:
                    c, _ = consistent([m])
                    if c:
                        return res.bad("torn-after-interruption", "%s, interrupted: %s" % (who, c))
        else:
            if not comp:
                got = [v]
            elif len(comp) == 1:
                got = list(v) if isinstance(v, tuple) else [v]
            else:
                if not (isinstance(v, tuple) and len(v) == 2):
                    return res.bad("structure", "%s returned %s" % (who, type(v)))
                got = [v[0]] + list(v[1])
            if len(got) != 1 + len(comp) or not all(isinstance(a, np.ndarray) for a in got):
                return res.bad("structure", "%s returned %d arrays for %d" % (who, len(got), 1 + len(comp)))
            c, found = consistent(list(zip(names, [Y0] + C0, got)))
            if c:
                return res.bad("not-a-permutation", "%s: %s" % (who, c))
            for name, a, (_, b, m) in zip(names, got, mine):
                if inplace and a.tobytes() != m.tobytes():
                    return res.bad("not-in-place", "%s: in-place operation left %s of the caller in the old order" % (who, name))
                if not inplace and np.shares_memory(a, m):
                    return res.bad("aliased", "%s: overwrite=False, but the result shares memory with %s" % (who, name))
            if case["floor"] != "none" or not case["silent"] and case["T"] > 1:
                self.judge_order(case, who, Y0, got, found, perms, floor, res)
            if case["again"] and not res.violations and case["solver"] != "score" and case["data"] in ("complex", "real") \
                    and not case["silent"] and greedy(got[0], floor) is not None:
                (q2, v2), _ = self.call(case, got[0].copy(), [], floor, None, res)
                if v2.tobytes() != got[0].tobytes():
                    return res.bad("not-idempotent", "%s: aligning aligned signals reordered them again" % who)
                res.stats["realigned"] += 1
        moved = found is not None and any(p != tuple(range(case["N"])) for p in found)
        res.stats["reordered"] += bool(moved)
        res.nontrivial = bool(moved) or q == "raise"
        res.log(q, found, [a.tobytes()[:16] for _, _, a in mine])
        res.shape(case["solver"], case["F"], case["N"], case["data"], case["overwrite"], len(comp), fault and fault[0], found)

    def judge_order(self, case, who, Y0, got, found, perms, floor, res):
        F = case["F"]
        if case["data"] == "planted":
            silent = {f % F for f in case["silent"]}
            live = [f for f in range(F) if f not in silent]
            if not got[0].size or not live:
                return
            order = {tuple(perms[f][list(found[f])]) for f in live}
            if len(order) > 1:
                res.bad("not-aligned", "%s: bins that carry the same sources are left in different orders (%d orders in %d bins, silent %s)"
                        % (who, len(order), F, sorted(silent)))
            res.stats["planted_judged"] += 1
        elif case["solver"] != "score" and case["data"] != "tied" and F <= 8 and case["N"] <= 3:
            if case["floor"] == "none" and not np.all(np.sum(np.abs(Y0) ** 2, axis=1) > 0):
                return
            want = greedy(Y0, floor if case["floor"] != "none" else (lambda x: x))
            if want is None:
                return
            res.stats["model_judged"] += 1
            if [tuple(p) for p in want] != [tuple(p) for p in found]:
                res.bad("not-aligned", "%s: order %s, but the most correlated order is %s" % (who, found, want))

    # -------------------------------------------------------------- classes

    def run_class(self, case, res):
        cfg, n, fault = case["cfg"], case["n"], case["fault"]
        who = zoo.brief(cfg)
        X = zoo.make_input(cfg)
        plain = dict(cfg, kw={k: v for k, v in cfg["kw"].items() if k not in ("global_iter", "local_iter")})
        plain["kw"]["permutation_alignment"] = False
        t = Session(plain, X=X)
        tq, tv = t.run(n, trace=bool(fault))
        if tq != "ok":
            res.stats["numerically_singular_skipped"] += 1
            return
        s = Session(cfg, X=X)
        counts = None
        if fault:
            # the fault falls inside the alignment: after everything the twin without alignment does
            d = Session(cfg, X=X)
            if d.run(n, trace=True)[0] != "ok":
                return res.bad("raised", "%s: alignment failed" % who)
            base = t.line_n if fault[0] == "line" else t.user_n
            total = d.line_n if fault[0] == "line" else d.user_n
            if fault[0] == "user":
                at = base + fault[1]
                fault = ["user", (at - 0.5) / total, fault[-1]] if at <= total else None
            else:
                at = base + fault[1] * (total - base)
                fault = ["line", max(0.0, (at - 1) / total), fault[-1]]
            counts = {"line": d.line_n, "user": d.user_n, "linalg": d.la_n}
        q, v = s.run(n, fault=fault, counts=counts)
        if q == "raise" and not s.fired:
            return res.bad("raised", "%s: alignment raised %s: %s" % (who, type(v).__name__, v))
        keys = ["mixing", "covariance", "posterior"] if cfg["cls"] == "CACGMM" else ["demix_filter"]
        arrays = []
        for k in keys + (["output"] if q == "ok" else []):
            b, a = getattr(t.obj, k), getattr(s.obj, k)
            if cfg["cls"] == "CACGMM" or k == "output":
                b, a = b.swapaxes(0, 1), a.swapaxes(0, 1)
            arrays.append((k, b, a))
        res.steps += n
        if q == "raise":
            res.stats["fault_" + fault[0]] += 1
            if fault[0] == "user":
                c, found = consistent(arrays)
                if c:
                    return res.bad("inconsistent-after-failure", "%s, %s failed during alignment: %s" % (who, s.user_where, c))
            else:
                for m in arrays:
                    c, found = consistent([m])
                    if c:
                        return res.bad("torn-after-interruption", "%s, interrupted at %s: %s" % (who, s.user_where, c))
        else:
            exact = [m for m in arrays if m[0] != "output"]
            c, found = consistent(exact)
            if c:
                return res.bad("not-a-permutation", "%s: %s" % (who, c))
            _, b, a = arrays[-1]
            e = zoo.dist(np.stack([b[f][list(found[f])] for f in range(len(found))]), a)
            if e > 1e-10:
                return res.bad("not-a-permutation", "%s: the separated signals are reordered differently from %s (%.3g)" % (who, keys, e))
        moved = any(p != tuple(range(len(p))) for p in found)
        res.stats["class_runs"] += 1
        res.stats["reordered"] += bool(moved)
        res.nontrivial = moved or q == "raise"
        res.log(q, found, arrays[0][2].tobytes()[:16])
        res.shape(cfg["cls"], sorted(cfg["kw"].items(), key=str), n, fault and fault[0], found)

    def shrinks(self, case):
        if case["kind"] == "class":
            if case["fault"]:
                yield dict(case, fault=None)
            if case["n"]:
                yield dict(case, n=case["n"] - 1)
            yield from zoo.shrink_cfg(case)
            return
        if case["fault"]:
            yield dict(case, fault=None)
            yield dict(case, fault=[case["fault"][0], round(case["fault"][1] / 2, 4), "error"])
        for i in range(len(case["comp"])):
            yield dict(case, comp=case["comp"][:i] + case["comp"][i + 1:])
        for k, lo in (("F", 1), ("N", 2), ("T", 1)):
            if case[k] > lo and case["data"] != "planted":
                yield dict(case, **{k: case[k] - 1})
        for k, w in (("silent", []), ("layout", "c"), ("floor", "default"), ("again", False)):
            if case[k] != w and not (k == "floor" and case["fault"]):
                yield dict(case, **{k: w})
        if "iters" in case and case["iters"] != [1, 0]:
            yield dict(case, iters=[1, 0])


CHECK = Permutation()

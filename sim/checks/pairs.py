"""C18: pair schedules visit every source, and methods obey the schedule they are given exactly."""
import itertools

import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import EXCS, make_exc

TOL = 1e-6
CLASSES = ["AuxFDICA", "AuxLaplaceFDICA"] + zoo.AUXIVA + zoo.ILRMA + ["FastGaussMNMF"]
LAPLACE = ["AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA"]


def stationary(c):
    """Classes whose update can be judged by its own stationarity conditions."""
    return c["cls"] in LAPLACE or c["cls"] == "GaussILRMA"


class Script:
    """A caller's pair schedule. lists[i] is iterated in call i; fails after `at` pairs of call `call`."""

    def __init__(self, lists, form, fail=None, exc=None):
        self.lists, self.form, self.fail, self.exc = lists, form, fail, exc
        self.asked, self.taken, self.ended = [], [], []

    def __call__(self, n_sources):
        i = len(self.asked)
        self.asked.append(n_sources)
        self.taken.append([])
        self.ended.append(False)
        lst = self.lists[i % len(self.lists)]
        if self.form == "list" and (self.fail is None or self.fail[0] != i):
            self.taken[i] = [list(p) for p in lst]
            self.ended[i] = True
            return [tuple(p) for p in lst]
        return self._walk(i, lst)

    def _walk(self, i, lst):
        for k, (m, n) in enumerate(lst):
            if self.fail is not None and self.fail == (i, k):
                raise self.exc
            self.taken[i].append([m, n])
            if self.form == "numpy":
                yield np.int64(m), np.int64(n)
            elif self.form == "negative":  # counted from the last source
                yield (m - self.asked[i] if (k + m) % 3 else m), (n - self.asked[i] if (k + n) % 2 else n)
            elif self.form == "mutable":
                yield [m, n]
            else:
                yield m, n
        if self.fail is not None and self.fail == (i, len(lst)):
            raise self.exc
        self.ended[i] = True


def state(obj, cfg):
    if cfg["cls"] == "FastGaussMNMF":
        return obj.diagonalizer
    return obj.output if zoo.by_signal(cfg) else obj.demix_filter


def rows(A, cfg):
    """Sources first."""
    return A if zoo.by_signal(cfg) else A.transpose(1, 0, 2)


def phase_dist(a, b):
    c = np.sum(a * b.conj(), axis=-1, keepdims=True)
    return zoo.dist(a, b * np.where(np.abs(c) > 0, c / np.maximum(np.abs(c), 1e-300), 1))


def conditions(cfg, obj, prev, start, X, pair):
    """How far the visited pair is from the stationarity conditions of the pairwise update."""
    worst = np.inf
    Y = zoo.apply_filter(obj.demix_filter, X) if not zoo.by_signal(cfg) else obj.output
    N, F, T = Y.shape
    for before in (prev, start):
        if cfg["cls"] == "GaussILRMA":
            if before is start:
                continue
            p = cfg["kw"]["domain"]
            from .. import ref

            phi = 1 / ref.variances(obj, cfg) ** (2 / p)
        else:
            B = before if zoo.by_signal(cfg) else zoo.apply_filter(before, X)
            if cfg["cls"] in ("AuxFDICA", "AuxLaplaceFDICA"):
                phi = zoo.contrast(cfg, np.abs(B))[1] / np.maximum(2 * np.abs(B), 1e-10)
            else:
                r = np.sqrt(np.sum(np.abs(B) ** 2, axis=1, keepdims=True))
                phi = np.broadcast_to(zoo.contrast(cfg, r)[1] / np.maximum(2 * r, 1e-10), B.shape)
        e = 0.0
        for f in range(F):
            for k in pair:
                for l in range(N):
                    w = phi[l, f] if zoo.by_signal(cfg) and l not in pair else phi[k, f]
                    num = np.mean(w * Y[l, f] * Y[k, f].conj())
                    scale = np.sqrt(np.mean(w * np.abs(Y[l, f]) ** 2) * np.mean(w * np.abs(Y[k, f]) ** 2))
                    if l == k:
                        e = max(e, abs(num - 1))
                    else:
                        e = max(e, abs(num) / max(scale, 1e-300))
        worst = min(worst, e)
    return worst


class Pairs(Check):
    prop = "C18"
    quick_runs = 25000
    thorough_runs = 120000
    quick_wall = 110
    rule = ("A run = one separation with a scripted pair schedule (any pairs, orders, repeats, subsets, container and integer types) from a "
            "seeded start, possibly failing midway, compared with runs of the cut schedule, of the swapped pairs and of relabelled sources, "
            "and with the conditions that define the update; or one library schedule, or one update called by itself with no schedule. Non-trivial: at least one scripted pair was obeyed. "
            "Distinct: (class, rule, options, schedule, failure).")
    measure = "distinct (class, options, schedule, failure) signatures"
    real = ["ssspy.utils.select_pair", "ssspy.bss._select_pair", "ssspy.bss._update_spatial_model", "ssspy.bss (pairwise classes)", "numpy"]
    stubs = ["caller's pair schedules (scripted, failing at a seeded pair)"]
    assumptions = ["filters defined up to a phase per row where two runs are compared", "agreement of 1e-6 for well-conditioned states"]

    def gen(self, rng, index, tier):
        if rng.random() < 0.1:
            return {"kind": "library", "n": rng.choice(list(range(2, 12)) + [17, 32, 65]), "sort": rng.random() < 0.5,
                    "step": rng.choice([1, 1, 2])}
        if rng.random() < 0.03:
            return {"kind": "bare", "rule": rng.choice(["ip2", "iss2"]), "n": rng.choice([2, 3, 3, 4, 5, 5, 6, 7]), "F": rng.choice([1, 2, 3]),
                    "T": rng.choice([16, 24]), "seed": rng.randrange(1 << 30)}
        cfg = zoo.gen(rng, classes=CLASSES, scale=(False,), floors=("max",))
        cfg["alg"] = rng.choice(["IP2", "ISS2"] if cfg["cls"] in zoo.AUXIVA + zoo.ILRMA else ["IP2"])
        C = cfg["C"] = rng.choice([2, 3, 3, 4, 4, 5])
        kw = cfg["kw"]
        if "reference_id" in kw:
            kw["reference_id"] = 0
        kw.pop("lqpqm_normalization", None), kw.pop("newton_iter", None)
        if cfg["cls"] in zoo.ILRMA:
            kw["normalization"] = False
        if cfg["cls"] == "FastGaussMNMF":
            cfg["N"], kw["normalization"] = None, False
        if "permutation_alignment" in kw:
            kw["permutation_alignment"] = False
        cfg["T"] = 24
        n = rng.choice([1, 1, 2, 3])
        lists = []
        for _ in range(n):
            lst = []
            for _ in range(rng.randrange(1, C + 3) if C > 2 else 1):
                p = rng.sample(range(C), 2)
                if not lst or set(p) != set(lst[-1]):
                    lst.append(p)
            lists.append(lst)
        cfg["pairs"] = "scripted"
        fail = None
        if rng.random() < 0.35:
            i = rng.randrange(n)
            fail = [i, rng.randrange(len(lists[i]) + 1)]
        return {"kind": "run", "cfg": cfg, "lists": lists, "n": n, "seed": rng.randrange(1 << 30), "fail": fail, "exc": rng.choice(EXCS),
                "form": rng.choice(["tuple", "list", "numpy", "mutable", "negative"]), "twin": rng.choice(["cut", "cut", "swap", "relabel", "relabel"])}

    def run(self, case):
        res = Result()
        with np.errstate(all="ignore"):
            if case["kind"] == "library":
                self.library(case, res)
            elif case["kind"] == "bare":
                self.bare(case, res)
            else:
                self.scripted(case, res)
        return res

    def library(self, case, res):
        from ssspy.bss import _select_pair as old
        from ssspy.utils import select_pair as sp

        n, sort, step = case["n"], case["sort"], case["step"]
        seq = list(sp.sequential_pair_selector(n, step=step, sort=sort))
        com = list(sp.combination_pair_selector(n, sort=sort))
        for name, lst in (("sequential", seq), ("combination", com)):
            for m, k in lst:
                if not (0 <= m < n and 0 <= k < n and m != k):
                    return res.bad("invalid-pair", "%s schedule of %d sources yields (%s, %s)" % (name, n, m, k))
                if sort and m > k:
                    return res.bad("unsorted", "%s schedule of %d sources, sorted, yields (%s, %s)" % (name, n, m, k))
            if {i for p in lst for i in p} != set(range(n)):
                return res.bad("not-covering", "%s schedule (step %d) misses sources of %d: %s" % (name, step, n, lst))
        if step == 1 and n > 2 and len({frozenset(p) for p in seq}) != n:
            return res.bad("not-covering", "sequential schedule of %d sources repeats a neighbour: %s" % (n, seq))
        if {frozenset(p) for p in com} != {frozenset(p) for p in itertools.combinations(range(n), 2)} or len(com) != n * (n - 1) // 2:
            return res.bad("not-covering", "combination schedule of %d sources does not visit every pair once: %s" % (n, com))
        if list(old.sequential_pair_selector(n, step=step, sort=sort)) != seq or list(old.combination_pair_selector(n, sort=sort)) != com:
            return res.bad("alias-differs", "the deprecated alias yields another schedule of %d sources" % n)
        res.nontrivial = True
        res.stats["library_schedules"] += 1
        res.log(n, seq, com)
        res.shape("library", n, sort, step)

    def bare(self, case, res):
        """An update called by itself, the schedule left out: a whole library schedule is followed, so every source is visited."""
        import functools

        from ssspy.bss import _update_spatial_model as m
        from ssspy.utils.select_pair import sequential_pair_selector as seq

        g = np.random.default_rng(case["seed"])
        n, F, T = case["n"], case["F"], case["T"]
        X = g.standard_normal((n, F, T)) + 1j * g.standard_normal((n, F, T))
        phi = g.random((n, F, T)) + 0.1
        if case["rule"] == "ip2":
            W = np.eye(n) + 0.3 * (g.standard_normal((F, n, n)) + 1j * g.standard_normal((F, n, n)))
            U = np.einsum("nft,cft,dft->fncd", phi, X, X.conj()) / T

            def go(**kw):
                return m.update_by_ip2(W.copy(), U, **kw)
        else:
            def go(**kw):
                return m.update_by_iss2(X.copy(), phi, **kw)
        got = go()
        want = [go(pair_selector=functools.partial(seq, **k)) for k in ({}, {"step": 2}, {"stop": n, "step": 2})]
        d = min(zoo.dist(got, w) for w in want)
        res.nontrivial = True
        res.stats["update_without_schedule"] += 1
        res.log(case["rule"], n, got.tobytes()[:32])
        res.shape("bare", case["rule"], n, F)
        if not d < 1e-9:
            res.bad("not-covering", "update_by_%s of %d sources, no schedule given, is no pass over a library schedule (%.3g)" % (case["rule"], n, d))

    # ------------------------------------------------------------ scripted runs

    def start(self, case):
        cfg = case["cfg"]
        g = np.random.default_rng(case["seed"])
        C, F, T = cfg["C"], cfg["F"], cfg["T"]
        W = np.eye(C) + 0.4 * (g.standard_normal((F, C, C)) + 1j * g.standard_normal((F, C, C)))
        st = {"diagonalizer" if cfg["cls"] == "FastGaussMNMF" else "demix_filter": W}
        K = cfg["kw"].get("n_basis")
        if cfg["cls"] in zoo.ILRMA + ["FastGaussMNMF"]:
            if cfg["kw"].get("partitioning"):
                Z = g.random((C, K)) + 0.1
                st["latent"] = Z / Z.sum(axis=0)
                st["basis"], st["activation"] = g.random((F, K)) + 0.1, g.random((K, T)) + 0.1
            else:
                st["basis"], st["activation"] = g.random((C, F, K)) + 0.1, g.random((C, K, T)) + 0.1
        if cfg["cls"] == "FastGaussMNMF":
            st["spatial"] = g.random((F, C, C)) + 0.2 + np.eye(C)
        return st

    def go(self, case, lists, n, X, st, form="tuple", fail=None, exc=None):
        """-> (script, object, exception or None)"""
        cfg = dict(case["cfg"])
        cfg["pairs"] = "default"
        sel = Script(lists, form, fail, exc)
        obj = zoo.build(cfg, record_loss=False, extra={"pair_selector": sel})
        try:
            obj(X, n_iter=n, initial_call=False, **{k: v.copy() for k, v in st.items()})
        except BaseException as e:
            if exc is None or e is not exc:
                raise
            return sel, obj, e
        return sel, obj, None

    def scripted(self, case, res):
        cfg, lists, n = case["cfg"], case["lists"], case["n"]
        X = zoo.make_input(cfg)
        st = self.start(case)
        who = "%s, schedule %s" % (zoo.brief(cfg), lists)
        fail = tuple(case["fail"]) if case["fail"] else None
        exc = make_exc(case["exc"]) if fail else None
        res.shape(cfg["cls"], cfg["alg"], sorted(cfg["kw"].items(), key=str), lists, fail, case["form"])
        C = cfg["C"]
        sel, obj, e = self.go(case, lists, n, X, st, case["form"], fail, exc)
        done = n if e is None else fail[0] + 1
        res.steps += n
        res.nontrivial = True
        if fail and e is None:
            return res.bad("swallowed", "%s: the schedule's exception at %s was swallowed" % (who, fail))
        # asked once per iteration, with the number of sources, and followed to its end
        if sel.asked != [C] * done:
            return res.bad("asks", "%s: %d iterations asked for schedules of %s sources" % (who, done, sel.asked))
        for i in range(done):
            last = fail is not None and i == fail[0]
            want = lists[i % len(lists)][: fail[1]] if last else lists[i % len(lists)]
            if sel.taken[i] != want or (not last and not sel.ended[i]):
                return res.bad("not-followed", "%s: iteration %d took the pairs %s of %s" % (who, i, sel.taken[i], want))
        res.log(sel.asked, sel.taken, state(obj, cfg).tobytes()[:32])
        S0 = self.initial(cfg, st, X)
        if fail:
            res.stats["fault_schedule"] += 1
            cut = [list(l) for l in lists[: fail[0]]] + [lists[fail[0]][: fail[1]]]
            _, t, _ = self.go(case, cut, done, X, st)
            _, u, _ = self.go(case, cut, done - 1, X, st) if done > 1 else (None, None, None)
            now = state(obj, cfg)
            alts = [state(t, cfg), state(u, cfg) if u is not None else S0]
            if self.ill(alts, cfg, X):
                res.stats["ill_conditioned_skipped"] += 1
                return
            if min(zoo.dist(now, a) for a in alts) > TOL:
                return res.bad("half-applied", "%s failed after %d pairs of iteration %d: the state is neither that of the pairs visited nor "
                               "that before the iteration (%.3g, %.3g)" % (who, fail[1], fail[0], zoo.dist(now, alts[0]), zoo.dist(now, alts[1])))
            return
        S = state(obj, cfg)
        if self.ill([S], cfg, X):
            res.stats["ill_conditioned_skipped"] += 1
            return
        self.untouched(cfg, lists, n, S0, S, who, res)
        if res.violations:
            return
        if case["form"] != "tuple":
            _, t, _ = self.go(case, lists, n, X, st)
            res.stats["other_form_of_schedule"] += 1
            if not zoo.dist(S, state(t, cfg)) < TOL:
                return res.bad("form-matters", "%s: given as %s the schedule has another result (%.3g)" % (
                    who, case["form"], zoo.dist(S, state(t, cfg))))
        if case["twin"] == "cut":
            self.last_pair(case, lists, n, X, st, obj, S0, who, res)
        elif case["twin"] == "swap":
            _, t, _ = self.go(case, [[p[::-1] for p in l] for l in lists], n, X, st)
            d = phase_dist(rows(S, cfg), rows(state(t, cfg), cfg))
            res.stats["swapped_pairs"] += 1
            if d > TOL and d > self.slack(case, X, st, S):
                res.bad("order-in-pair", "%s: naming each pair the other way round changes the result by %.3g" % (who, d))
        elif cfg["cls"] != "FastGaussMNMF":
            g = np.random.default_rng(case["seed"] + 1)
            perm = g.permutation(C)  # new label i carries old source perm[i]
            inv = np.argsort(perm)
            new = dict(st)
            new["demix_filter"] = st["demix_filter"][:, perm]
            if "latent" in st:
                new["latent"] = st["latent"][perm]
            elif "basis" in st:
                new["basis"], new["activation"] = st["basis"][perm], st["activation"][perm]
            _, t, _ = self.go(case, [[[int(inv[m]), int(inv[k])] for m, k in l] for l in lists], n, X, new)
            d = phase_dist(rows(S, cfg)[perm], rows(state(t, cfg), cfg))
            res.stats["relabelled"] += 1
            if d > TOL and d > self.slack(case, X, st, S):
                res.bad("labels-matter", "%s: with sources relabelled %s the result is not the relabelled result (%.3g)"
                        % (who, perm.tolist(), d))

    def slack(self, case, X, st, S):
        """What rounding in the start alone may change, generously."""
        cfg, worst = case["cfg"], 0.0
        for k in (3, 4, 5):
            g = np.random.default_rng(k)
            near = {a: v * (1 + 1e-13 * g.standard_normal(v.shape)) for a, v in st.items()}
            _, t, _ = self.go(case, case["lists"], case["n"], X, near)
            worst = max(worst, phase_dist(rows(S, cfg), rows(state(t, cfg), cfg)))
        return 1000 * worst

    @staticmethod
    def initial(cfg, st, X):
        if cfg["cls"] == "FastGaussMNMF":
            return st["diagonalizer"]
        return zoo.apply_filter(st["demix_filter"], X) if zoo.by_signal(cfg) else st["demix_filter"]

    @staticmethod
    def ill(states, cfg, X):
        for S in states:
            if not np.all(np.isfinite(S)):
                return True
            M = zoo.recovered_filter(X, S) if zoo.by_signal(cfg) else S
            if np.max(np.linalg.cond(M)) > 1e5:
                return True
        return False

    def untouched(self, cfg, lists, n, S0, S, who, res):
        C = cfg["C"]
        visited = sorted({i for j in range(n) for p in lists[j % len(lists)] for i in p})
        rest = [k for k in range(C) if k not in visited]
        A, B = rows(S0, cfg), rows(S, cfg)
        for k in rest:
            res.stats["unvisited_judged"] += 1
            if not zoo.by_signal(cfg):
                if A[k].tobytes() != B[k].tobytes():
                    return res.bad("touched", "%s: source %d was in no pair, but its filter changed" % (who, k))
            else:
                for f in range(A.shape[1]):
                    V = A[visited][:, f].T
                    d = B[k, f] - A[k, f]
                    r = d - V @ np.linalg.lstsq(V, d, rcond=None)[0]
                    if np.linalg.norm(r) > TOL * np.linalg.norm(A[k, f]):
                        return res.bad("touched", "%s: source %d was in no pair, but its signal changed by more than visited ones" % (who, k))

    def last_pair(self, case, lists, n, X, st, obj, S0, who, res):
        cfg = case["cfg"]
        i = (n - 1) % len(lists)
        full = [list(lists[j % len(lists)]) for j in range(n)]
        pair = full[-1][-1]
        cut = full[:-1] + [full[-1][:-1]]
        _, t, _ = self.go(case, cut, n, X, st)
        _, u, _ = self.go(case, cut, n - 1, X, st) if n > 1 else (None, None, None)
        S, P = state(obj, cfg), state(t, cfg)
        if self.ill([P], cfg, X):
            return
        A, B = rows(P, cfg), rows(S, cfg)
        for k in range(cfg["C"]):
            if k not in pair and not zoo.by_signal(cfg) and A[k].tobytes() != B[k].tobytes():
                return res.bad("touched", "%s: the last pair %s changed the filter of source %d" % (who, pair, k))
        res.stats["cut_runs"] += 1
        if not stationary(cfg):
            return
        e = conditions(cfg, obj, P, S0 if u is None else state(u, cfg), X, pair)
        res.stats["conditions_judged"] += 1
        if e > TOL * 10:
            res.bad("not-applied", "%s: after the last pair %s its two sources miss the conditions the update solves by %.3g" % (who, pair, e))

    def shrinks(self, case):
        if case["kind"] == "library":
            if case["n"] > 2:
                yield dict(case, n=case["n"] - 1)
            return
        if case["kind"] == "bare":
            for k, low in (("n", 2), ("F", 1), ("T", 16)):
                if case[k] > low:
                    yield dict(case, **{k: case[k] - 1 if k == "n" else low})
            return
        if case["fail"]:
            yield dict(case, fail=None)
        if case["n"] > 1 and (not case["fail"] or case["fail"][0] < case["n"] - 1):
            yield dict(case, n=case["n"] - 1)
        for i, l in enumerate(case["lists"]):
            for j in range(len(l)):
                if len(l) > 1 and (not case["fail"] or case["fail"][0] != i):
                    yield dict(case, lists=case["lists"][:i] + [l[:j] + l[j + 1:]] + case["lists"][i + 1:])
        if case["form"] != "tuple":
            yield dict(case, form="tuple")
        yield from zoo.shrink_cfg(dict(case, cfg=case["cfg"]))


CHECK = Pairs()

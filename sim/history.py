"""Histories of one separation: runs, splits, aborts, interruptions, process losses with restored state.

Operations (plain JSON):
  {"op": "run", "n": k, "init": b}
  {"op": "abort", "n": k, "init": b, "exc": e, "more": m}   asked for k + m iterations, a callback stops it after k
  {"op": "fault", "n": k, "init": b, "fault": [...]}        interrupted somewhere inside (see session.py)
  {"op": "steps", "names": [...]}                            the public partial updates (or "once": a whole one), called in this
                                                             order; with "floor": f, with that flooring instead of the object's own
  {"op": "input", "seed": s, "T": t}                         later runs get another mixture (of t frames and, with "C", as many
                                                             channels, where that fits the state)
  {"op": "restore"}                                          the object is lost, a fresh one continues from its public state
"""
import inspect

import numpy as np

from . import zoo
from .session import CB_EXCS, Session, dry_counts, gen_fault, shrink_fault


def gen_ops(rng, cfg, faults=False, restore=True, runs=(1, 2, 3, 4), iters=(1, 1, 2, 3, 4), init=0.3):
    ops = []
    kinds = ["run", "run", "run", "abort"] + (["fault", "fault"] if faults else [])
    total = rng.choice(runs)
    for i in range(total):
        kind = rng.choice(kinds)
        n = rng.choice(iters)
        op = {"op": kind, "n": n, "init": rng.random() < (0.8 if i == 0 else init)}
        if kind == "abort":
            op["exc"], op["more"] = rng.choice(CB_EXCS), rng.randrange(0, 3)
        if kind == "fault":
            op["fault"] = gen_fault(rng, ("user", "linalg", "line", "line"), n)
        ops.append(op)
        if restore and cfg["cls"] != "CACGMM" and i + 1 < total and rng.random() < 0.3:
            ops.append({"op": "restore"})
    plain = [o for o in ops if o["op"] == "run"]
    if plain:
        op = rng.choice(plain)
        op["n"] = zoo.late(rng, cfg, op["n"], 0.015)
    return ops


def gen_inputs(rng, cfg, ops, p=0.3):
    """Lets the input change between runs now and then."""
    for i in range(len(ops) - 1, 0, -1):
        if rng.random() < p:
            ops.insert(i, {"op": "input", "seed": rng.randrange(1 << 30), "T": rng.choice([None, cfg["T"] + rng.randrange(-3, 9)])})
            if cfg["cls"] == "CACGMM" and rng.random() < 0.5:
                ops[i]["C"] = cfg["C"] + 1


def other_input(cfg, op):
    if cfg["cls"] == "CACGMM" and "C" in op:  # which starts anew in every run
        cfg = dict(cfg, C=op["C"])
    keeps = cfg["cls"] in ["CACGMM"] + zoo.ICA + zoo.FDICA + zoo.GRADIVA + zoo.FASTIVA + zoo.AUXIVA
    return zoo.make_input(dict(cfg, x=dict(cfg["x"], seed=op["seed"]), T=op["T"] if op["T"] and keeps else cfg["T"]))


def start_state(cfg, seed, params=False):
    """A random well-conditioned starting filter (and source parameters), or nothing."""
    if seed is None:
        return {}
    if params and cfg["cls"] in zoo.ILRMA + zoo.MNMF:
        out = start_state(cfg, seed)
        g = np.random.default_rng(seed + 1)
        K, N = cfg["kw"]["n_basis"], cfg.get("N") or cfg["C"]
        if cfg["kw"].get("partitioning"):
            shapes = (cfg["F"], K), (K, cfg["T"])
        else:
            shapes = (N, cfg["F"], K), (N, K, cfg["T"])
        out["basis"], out["activation"] = (10.0 ** g.uniform(-1, 1) * np.exp(g.standard_normal(sh)) for sh in shapes)
        return out
    g = np.random.default_rng(seed)
    C = cfg["C"]

    def mat(shape, cplx):
        a = 0.4 * g.standard_normal(shape)
        if cplx:
            a = a + 0.4j * g.standard_normal(shape)
        return a + np.eye(C)

    if cfg["cls"] in zoo.ICA:
        return {"demix_filter": mat((C, C), False)}
    if zoo.has_filter(cfg):
        return {"demix_filter": mat((cfg["F"], C, C), True)}
    if cfg["cls"] == "FastGaussMNMF":
        return {"diagonalizer": mat((cfg["F"], C, C), True)}
    return {}


def total_iterations(ops):
    return sum(o.get("n", 0) + len(o.get("names", ())) + o.get("more", 0) for o in ops)


def partial_updates(cfg):
    """Role -> public method performing that part of an iteration."""
    c, src = cfg["cls"], cfg.get("src", "MM").lower()
    out = {}
    if c in zoo.ILRMA:
        out = {"basis": "update_basis_" + src, "activation": "update_activation_" + src, "spatial": "update_spatial_model"}
        if cfg["kw"].get("partitioning"):
            out["latent"] = "update_latent_" + src
        if cfg["kw"].get("normalization"):
            out["normalize"] = "normalize"
    elif c in zoo.IPSDTA:
        out = {"basis": "update_basis_mm", "activation": "update_activation_mm", "spatial": "update_spatial_model"}
        if cfg["kw"].get("source_normalization"):
            out["normalize"] = "normalize_block_decomposition_psdtf"
    elif c in zoo.MNMF:
        out = {"basis": "update_basis", "activation": "update_activation", "spatial": "update_spatial"}
        if c == "FastGaussMNMF":
            out["diagonalizer"] = "update_diagonalizer"
        if cfg["kw"].get("partitioning"):
            out["latent"] = "update_latent"
        if cfg["kw"].get("normalization"):
            out["normalize"] = "normalize"
    return out


class History:
    """Plays operations. observe(history, moment) sees every callback and the end of every run."""

    def __init__(self, cfg, ops, observe, start=None, X=None, restoring=None, params=False, record=None):
        self.cfg, self.ops, self.observe = cfg, ops, observe
        self.X = zoo.make_input(cfg) if X is None else X
        self.played, self.switched = self.X, False  # the input of the latest run; whether it was new
        self.state = start_state(cfg, start, params)
        self.at = 0  # iterations done
        self.fired = []
        self.dirty = False  # an interruption inside an iteration happened since the last complete iteration
        self.error = None
        self.floor = None  # flooring handed to the latest partial update
        self.chain = 0
        self.after_fault = None  # sees the object after every aborted or interrupted run
        self.on_input = None  # sees (history, old input, new input)
        self.record = record  # None: as configured; False: no loss is recorded
        self.restoring = restoring  # None: as configured; False: never restore the scale
        self._new()

    def _new(self):
        cfg = self.cfg
        self.total = self.done() if self.chain else 0
        shifted = dict(cfg)
        if self.chain:
            shifted["rng"] = cfg["rng"] + self.chain
            if isinstance(cfg.get("pairs"), list):
                k = self.at % len(cfg["pairs"])
                shifted["pairs"] = cfg["pairs"][k:] + cfg["pairs"][:k]
        self.chain += 1
        self.s = Session(shifted, observe=lambda s: self._cb(), X=self.X, record_loss=self.record)
        if self.restoring is False and "scale_restoration" in cfg["kw"]:
            self.s.obj.scale_restoration = False

    @property
    def obj(self):
        return self.s.obj

    def done(self):
        """Iterations over the whole history."""
        return self.total + self.s.updates

    def _cb(self):
        done = self.s.updates - self._u0
        self.observe(self, "start" if done == 0 else "iteration")

    def play(self, res=None):
        """-> None, or a (class, message) complaint about an operation that should not have failed."""
        for i, op in enumerate(self.ops):
            if op["op"] == "restore":
                if self.s.run_no < 0 or self.dirty:
                    continue
                st = zoo.snap(self.obj, self.cfg)
                if zoo.by_signal(self.cfg):
                    st["demix_filter"] = zoo.recovered_filter(self.played, self.obj.output)
                    if zoo.loses(st["demix_filter"], self.played, self.obj.output):
                        continue
                self.state = {k: v for k, v in st.items() if v is not None}
                self._new()
                if res is not None:
                    res.stats["fault_process_lost"] += 1
                continue
            if op["op"] == "input":
                self.X = other_input(self.cfg, op)
                self.s.X = self.X
                if res is not None:
                    res.stats["input_changed"] += 1
                continue
            if op["op"] == "steps":
                roles = partial_updates(self.cfg)
                if self.s.run_no < 0 or self.dirty:
                    continue
                for name in op["names"]:
                    f = getattr(self.obj, "update_once" if name == "once" else roles.get(name, ""), None)
                    if f is None:
                        continue
                    own = (op.get("floor") is None or op["floor"] == "big" and name in ("spatial", "diagonalizer", "once")
                           or "flooring_fn" not in self.takes(f))
                    self.floor = None if own else op["floor"]
                    try:
                        f(**({} if own else {"flooring_fn": zoo.flooring(op["floor"])}))
                    except np.linalg.LinAlgError as e:
                        self.error = e
                        return "raised", "%s raised %r" % (f.__name__, e)
                    self.at += name == "once"
                    self.observe(self, "step " + name)
                continue
            fault, n, counts = None, op["n"], None
            if op["op"] == "abort":
                m = n - 1 + (1 if op["init"] else 0)
                fault, n = ["cb", m, 0, op["exc"]], n + op["more"]
            elif op["op"] == "fault":
                fault = op["fault"]
                counts = dry_counts(self.cfg, n, op["init"])
            self._u0 = self.s.updates
            self.switched = self.played is not self.X
            if self.switched and self.on_input is not None and self.s.run_no >= 0:
                self.on_input(self, self.played, self.X)
            self.played = self.X
            q, v = self.s.run(n, op["init"], fault, counts, **self.state)
            self.state = {}
            self.at += self.s.updates - self._u0
            if res is not None:
                res.log(op["op"], n, q, self.s.user_where, None if q == "raise" else v.tobytes()[:32])
                res.steps += n
            if self.s.fired:
                if op["op"] == "fault":
                    self.dirty = True
                    self.fired.append("%s" % (self.s.user_where or fault[0]))
                if self.after_fault is not None:
                    self.after_fault(self, op["op"])
                if res is not None:
                    res.stats["fault_" + fault[0]] += 1
                if q == "ok":
                    if fault[0] == "cb":
                        return "swallowed", "an exception from a callback was swallowed"
            elif q == "raise":
                self.error = v
                return "raised", "operation %d (%s) raised %s: %s" % (i, op, type(v).__name__, v)
            else:
                if op["n"] > 0:
                    self.dirty = False
                self.observe(self, "end")
        return None

    def takes(self, f):
        """Names of the arguments of a method of the object, whatever the simulator wrapped it in."""
        return inspect.signature(getattr(type(self.obj), f.__name__, f)).parameters

    def brief(self):
        return [(o["op"], o.get("n")) for o in self.ops]


def shrink_ops(case, key="ops"):
    ops = case[key]
    for i, op in enumerate(ops):
        def put(**k):
            return dict(case, **{key: ops[:i] + [dict(op, **k)] + ops[i + 1:]})
        if op["op"] == "abort":
            yield put(op="run")
            if op["more"]:
                yield put(more=0)
        if op["op"] == "fault":
            yield put(op="run")
            for f in shrink_fault(op["fault"]):
                if f is not None:
                    yield put(fault=f)
        if op["op"] == "input" and op["T"]:
            yield put(T=None)
        if op.get("floor"):
            yield put(floor=None)
        for j in range(len(op.get("names", ()))):
            yield put(names=op["names"][:j] + op["names"][j + 1:])
        if op.get("n", 1) > 1:
            yield put(n=op["n"] - 1)
        if op.get("init"):
            yield put(init=False)

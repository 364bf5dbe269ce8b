"""C10: separation objects interleaved at source-line granularity give what each gives alone."""
import sys
import threading

import numpy as np

from .. import procstate, zoo
from ..engine import Check, Result, RunTimeout
from ..session import Lines, Session, dry_counts, gen_fault
from ..world import Sched


def perform(cfg, ops, X=None, counts=None, on_line=None, session=None):
    """One client's life. -> list of comparable observations."""
    s = session or Session(cfg, X=X)
    s.on_line = on_line
    out = []
    for i, op in enumerate(ops):
        r, v = s.run(op["n"], op["init"], op["fault"], counts[i] if counts else None)
        if r == "raise":
            out.append(("raised", type(v).__name__, str(v)[:60]))
        else:
            out.append(("output", v.copy()))
    for k in zoo.state_keys(cfg) + ["variance", "posterior"]:
        for a in zoo.flat(getattr(s.obj, k, None)):
            out.append((k, np.array(a)))
    out.append(("loss", np.array([float(x) for x in (s.obj.loss or [])])))
    out.append(("calls", repr(s.events)))
    return out


def same(a, b):
    if len(a) != len(b):
        return "different outcomes: %s / %s" % ([x[0:2] for x in a if x[0] == "raised"], [x[0:2] for x in b if x[0] == "raised"])
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return "%r instead of %r" % (y[0:2], x[0:2])
        if isinstance(x[1], np.ndarray):
            if not zoo.equal_bits(x[1], y[1]):
                return "%s differs (relative %.3g)" % (x[0], zoo.dist(x[1], y[1]))
        elif x != y:
            return "%s differs: %s / %s" % (x[0], str(x[1])[:80], str(y[1])[:80])
    return None


class Isolation(Check):
    prop = "C10"
    quick_runs = 5000
    thorough_runs = 40000
    quick_wall = 110
    shrink_lists = ("plan",)
    rule = ("A run = 2-3 separation objects (same or different classes, sizes and options; sometimes the same input array), "
            "each in its own simulated thread, switched by the scheduler at seeded source lines of the library; some fail in a "
            "callback. Each is compared bit for bit with the same object run alone, and process-wide state is compared before "
            "and after; or two objects, one fed the live arrays of the other, running in turns. Non-trivial: at least two context switches inside runs. Distinct: (classes, switch sequence).")
    measure = "distinct (classes, switch sequence, outcomes) signatures"
    real = ["ssspy.bss (all classes)", "numpy", "Python threads (one running at a time)"]
    stubs = ["thread scheduler (line-granular baton)", "callbacks and user functions"]
    assumptions = ["numpy calls are atomic steps of the schedule"]

    def gen(self, rng, index, tier):
        if rng.random() < 0.08:
            cfg = zoo.gen(rng, [rng.choice(zoo.ALL)], floors=("max", "max", "add"))
            return {"kind": "fed", "cfg": cfg, "feed": rng.choice(["state", "state", "output", "input"]), "n": rng.choice([1, 2, 3]), "m": rng.choice([0, 1, 2]),
                    "turns": [[rng.randrange(2), rng.choice([1, 2]), rng.random() < 0.5] for _ in range(rng.choice([1, 2, 3, 4]))]}
        n = rng.choice([2, 2, 2, 3])
        first = zoo.gen(rng, floors=("max", "max", "add"))
        style = rng.choice(["same", "sameclass", "any", "any"])
        clients = []
        for i in range(n):
            if i == 0:
                cfg = first
            elif style == "same":
                cfg = dict(first, x=dict(first["x"], seed=rng.randrange(1 << 30)), rng=rng.randrange(1 << 30))
            elif style == "sameclass":
                cfg = zoo.gen(rng, [first["cls"]], floors=("max", "max", "add"))
            else:
                cfg = zoo.gen(rng, floors=("max", "max", "add"))
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice([1, 2, 3])
                fault = None
                if rng.random() < 0.25:
                    fault = gen_fault(rng, ("cb", "line", "user"), k)
                ops.append({"n": k, "init": rng.random() < 0.6, "fault": fault})
            clients.append({"cfg": cfg, "ops": ops})
        if rng.random() < 0.01:
            clients[-1]["ops"] = [dict(ops[0], n=zoo.late(rng, cfg, 3, 1.0))]
        # switch points as fractions of the total number of lines
        k = rng.choice([3, 10, 40, 150])
        plan = [[round(rng.random(), 5), rng.randrange(n)] for _ in range(k)]
        return {"clients": clients, "plan": plan, "shared_input": rng.random() < 0.3}

    def fed(self, case, res):
        """An object given live arrays of another: from then on neither changes when the other runs."""
        cfg, feed = case["cfg"], case["feed"]
        if feed == "state" and cfg["cls"] == "CACGMM":
            feed = "input"
        X = zoo.make_input(cfg)

        def visible(o):
            return {k: [np.array(a) for a in zoo.flat(getattr(o, k, None))] for k in zoo.state_keys(cfg) + ["output", "input", "variance", "posterior"]}

        objs = [zoo.build(cfg), zoo.build(cfg)]
        a, b = objs
        with np.errstate(all="ignore"):
            try:
                kept = [a(X, n_iter=case["n"])]
                st, Z = {}, X
                if feed == "state":
                    st = {k: getattr(a, k, None) for k in zoo.state_keys(cfg)}
                    if zoo.by_signal(cfg):
                        st["demix_filter"] = zoo.recovered_filter(X, a.output)
                elif feed == "output" and a.output.shape == X.shape:
                    Z = a.output
                else:
                    Z = a.input
                was = visible(a)
                kept.append(b(Z, n_iter=case["m"], initial_call=False, **{k: v for k, v in st.items() if v is not None}))
                texts = [k.tobytes() for k in kept]
                turns = [[1, None, None]] + case["turns"]
                for who, n, init in turns:
                    if n is not None:
                        was = visible(objs[1 - who])
                        objs[who](X if who == 0 else Z, n_iter=n, initial_call=init)
                    now = visible(objs[1 - who])
                    res.steps += n or case["m"]
                    for k in was:
                        if not zoo.equal_bits(tuple(was[k]), tuple(now[k])):
                            return res.bad("influenced", "%s: of two objects, one given the %s of the other, a run of the %s changed %s of the %s" % (
                                zoo.brief(cfg), feed, ("first", "second")[who], k, ("second", "first")[who]))
                    if kept[1 - who].tobytes() != texts[1 - who]:
                        return res.bad("influenced", "%s: a result the %s object returned was changed by a run of the %s" % (
                            zoo.brief(cfg), ("second", "first")[who], ("first", "second")[who]))
            except np.linalg.LinAlgError:
                return None
        res.stats["fed_by_another"] += 1
        res.nontrivial = True
        res.log(feed, kept[1].tobytes()[:32])
        res.shape("fed", cfg["cls"], cfg.get("alg"), feed, case["m"], case["turns"])

    def run(self, case):
        res = Result()
        if case.get("kind") == "fed":
            self.fed(case, res)
            return res
        clients = case["clients"]
        Xs = [zoo.make_input(c["cfg"]) for c in clients]
        if case["shared_input"]:
            for i in range(1, len(Xs)):
                if Xs[i].shape == Xs[0].shape:
                    Xs[i] = Xs[0]
        before = procstate.capture()
        alone, total, counts = [], 0, []
        for c, X in zip(clients, Xs):
            counts.append([dry_counts(c["cfg"], o["n"], o["init"]) if o["fault"] else None for o in c["ops"]])
            with Lines() as ln:
                alone.append(perform(c["cfg"], c["ops"], X, counts[-1]))
            total += ln.n
        for k in procstate.changed(before, procstate.capture()):
            res.bad("process-state", "running %s changed the %s" % ([zoo.brief(c["cfg"]) for c in clients], k))
        sched = Sched(res, sorted([int(f * total), c] for f, c in case["plan"]), len(clients))

        def body(i):
            def go():
                try:
                    with Lines(on_line=sched.switch_point):
                        return perform(clients[i]["cfg"], clients[i]["ops"], Xs[i], counts[i], sched.switch_point)
                except RunTimeout:
                    raise
                except BaseException as e:  # harness errors surface in the main thread
                    return e

            return go

        out = sched.run([body(i) for i in range(len(clients))])
        for i, o in enumerate(out):
            if isinstance(o, BaseException):
                raise o
            d = same(alone[i], o)
            res.log("client", i, d, [x[:2] for x in o if x[0] == "raised"])
            if d:
                others = [zoo.brief(c["cfg"]) for j, c in enumerate(clients) if j != i]
                res.bad("influenced", "%s run next to %s: %s compared with running alone" % (zoo.brief(clients[i]["cfg"]), others, d))
        for k in procstate.changed(before, procstate.capture()):
            res.bad("process-state", "running %s changed the %s" % ([zoo.brief(c["cfg"]) for c in clients], k))
        for c in clients:
            res.shape(c["cfg"]["cls"], c["cfg"].get("alg"))
            for o in c["ops"]:
                if o["fault"]:
                    res.stats["fault_" + o["fault"][0]] += 1
        res.steps = sched.points
        res.nontrivial = sched.switches >= 2
        return res

    def shrinks(self, case):
        if case.get("kind") == "fed":
            for i in range(len(case["turns"])):
                yield dict(case, turns=case["turns"][:i] + case["turns"][i + 1:])
            for k, low in (("n", 1), ("m", 0)):
                if case[k] > low:
                    yield dict(case, **{k: case[k] - 1})
            yield from zoo.shrink_cfg(case)
            return
        if len(case["clients"]) > 2:
            for i in range(len(case["clients"])):
                yield dict(case, clients=case["clients"][:i] + case["clients"][i + 1:],
                           plan=[[f, c if c < i else c - 1] for f, c in case["plan"] if c != i])
        yield from super().shrinks(case)
        for i, c in enumerate(case["clients"]):
            def put(**k):
                return dict(case, clients=case["clients"][:i] + [dict(c, **k)] + case["clients"][i + 1:])
            ops = c["ops"]
            for j in range(len(ops)):
                if len(ops) > 1:
                    yield put(ops=ops[:j] + ops[j + 1:])
                if ops[j]["n"] > 1:
                    yield put(ops=ops[:j] + [dict(ops[j], n=ops[j]["n"] - 1)] + ops[j + 1:])
                if ops[j]["fault"]:
                    yield put(ops=ops[:j] + [dict(ops[j], fault=None)] + ops[j + 1:])
        if case["shared_input"]:
            yield dict(case, shared_input=False)


CHECK = Isolation()

"""C06: iterations, losses and callbacks over histories of runs with failing user code."""
import numpy as np

from .. import zoo
from ..engine import Check, Result
from ..session import CB_EXCS, Session, dry_counts, gen_fault, make_exc, shrink_fault


class Protocol(Check):
    prop = "C06"
    quick_runs = 20000
    thorough_runs = 120000
    quick_wall = 110
    shrink_lists = ("ops",)
    rule = ("A run = one separation object of a seeded class and configuration driven through a seeded history of runs "
            "(0-4 iterations each, with or without the initial evaluation), with 0-3 callbacks, loss recording on or off, and "
            "exceptions injected into callbacks, user functions, pair schedules and numpy.linalg at seeded invocations. "
            "Non-trivial: at least one update was performed. Distinct: (configuration kind, history, where the failures hit).")
    measure = "distinct (class, update rule, history of runs, failure point) signatures"
    real = ["ssspy.bss (all classes)", "numpy"]
    stubs = ["callbacks, contrast/score/penalty/prox/flooring functions and pair schedules (simulated user code)",
             "numpy.linalg entry points (real routine behind a failure injector)"]
    assumptions = ["callbacks that do not fail leave the object alone"]

    def gen(self, rng, index, tier):
        if rng.random() < 0.03:
            return self.gen_own(rng)
        cfg = zoo.gen(rng)
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([0, 1, 1, 2, 3, 4])
            op = {"n": n, "init": rng.random() < 0.6, "fault": None}
            if rng.random() < 0.5:
                f = gen_fault(rng, ("cb", "cb", "user", "user", "linalg"), n)
                if f[0] == "cb":
                    f[2] = rng.randrange(3)
                op["fault"] = f
            ops.append(op)
        if rng.random() < 0.01 and cfg["cls"] not in zoo.IPSDTA + ["GaussMNMF", "HVA"]:
            ops = [{"n": 100, "init": rng.random() < 0.6, "fault": None}]
            cfg["rng"] += (2 - cfg["rng"]) % 5  # so that the number of iterations is left out
        return {"cfg": cfg, "ops": ops, "n_cb": rng.choice([0, 1, 1, 2, 3]), "record": rng.random() < 0.85,
                "single": rng.random() < 0.5}

    def gen_own(self, rng):
        """A method of the caller's own on top of ssspy's base class. None: an argument left out."""
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 5, 40, None])
            op = {"n": n, "init": rng.choice([True, False, None]), "fault": None}
            if rng.random() < 0.4:
                op["fault"] = [rng.randrange(12), rng.choice(CB_EXCS)]
            ops.append(op)
        return {"own": True, "ops": ops, "n_cb": rng.choice([0, 1, 2, 3]), "record": rng.choice([True, True, None, False]),
                "single": rng.random() < 0.5}

    def run_own(self, case):
        from ssspy.bss.base import IterativeMethodBase

        res = Result()
        log, fail = [], {}

        def event(*what):
            log.append(what)
            if len(log) - 1 == fail.get("at"):
                raise fail["exc"]

        class Own(IterativeMethodBase):
            count = 0

            def __call__(self, *args, **kwargs):
                super().__call__(*args, **kwargs)
                return self.count

            def update_once(self):
                event("update", self.count)
                self.count += 1

            def compute_loss(self):
                event("loss", self.count)
                return 0.5 * self.count

        def callback(j):
            return lambda obj: event("cb", j, obj.count, len(obj.loss) if obj.loss is not None else None)

        n_cb, kw = case["n_cb"], {}
        cbs = [callback(j) for j in range(n_cb)]
        if cbs:
            kw["callbacks"] = cbs[0] if case["single"] and n_cb == 1 else cbs
        if case["record"] is not None:
            kw["record_loss"] = case["record"]
        record = case["record"] is not False
        obj = Own(**kw)
        losses, count = [], 0
        for i, op in enumerate(case["ops"]):
            n, init = 100 if op["n"] is None else op["n"], op["init"] is not False
            args = {k: v for k, v in (("n_iter", op["n"]), ("initial_call", op["init"])) if v is not None}
            want, new, c = [], [], count
            for m in range(0 if init else 1, n + 1):
                if m:
                    want.append(("update", c))
                    c += 1
                if record:
                    want.append(("loss", c))
                    new.append((len(want), 0.5 * c))
                for j in range(n_cb):
                    want.append(("cb", j, c, len(losses) + len(new) if record else None))
            del log[:]
            fail.clear()
            if op["fault"] and op["fault"][0] < len(want):
                fail.update(at=op["fault"][0], exc=make_exc(op["fault"][1]))
                want = want[:fail["at"] + 1]
                new = [x for x in new if x[0] <= fail["at"]]
                c = count + sum(e[0] == "update" for e in want[:-1])
                res.stats["fault_own_" + want[-1][0]] += 1
            caught = None
            try:
                val = obj(**args)
            except BaseException as e:
                caught = e
            if caught is not fail.get("exc"):
                res.bad("exception-changed", "method of the caller's own: run %d (%s) ended with %r, expected %r"
                        % (i, args, caught, fail.get("exc")))
                return res
            losses += [x[1] for x in new]
            count = c
            res.log("own", i, args, log, obj.loss)
            if log != want or caught is None and val != count:
                k = next((k for k in range(min(len(log), len(want))) if log[k] != want[k]), min(len(log), len(want)))
                res.bad("callbacks", "method of the caller's own: run %d (%s): %d evaluations, updates and callbacks, expected %d; first "
                        "difference: %r, expected %r" % (i, args, len(log), len(want), log[k:k + 1], want[k:k + 1]))
                return res
            if (obj.loss is not None) != record or record and list(obj.loss) != losses:
                res.bad("losses", "method of the caller's own: losses after run %d (%s) are %r, expected %r" % (i, args, obj.loss, losses))
                return res
            res.steps += n
            res.nontrivial |= count > 0
        res.shape("own", case["record"], n_cb, [(o["n"], o["init"], o["fault"]) for o in case["ops"]])
        return res

    def run(self, case):
        if case.get("own"):
            return self.run_own(case)
        res = Result()
        cfg, n_cb = case["cfg"], case["n_cb"]
        record = case["record"] and zoo.records_loss(cfg)
        s = Session(cfg, n_callbacks=n_cb, record_loss=record, single=case["single"])
        who = zoo.brief(cfg)
        res.shape(cfg["cls"], cfg.get("alg"), cfg.get("src"), record, n_cb)
        if (s.obj.loss is None) == record or (record and list(s.obj.loss)):
            res.bad("history-before", "%s: loss history before the first run is %r" % (who, s.obj.loss))
        losses = []
        for i, op in enumerate(case["ops"]):
            n, init, fault = op["n"], op["init"], op["fault"]
            counts = None
            if fault and fault[0] in ("user", "linalg"):
                counts = dry_counts(cfg, n, init)
                if not counts["ok"]:
                    res.stats["numerically_singular_skipped"] += 1
                    return res
            ev0, up0 = len(s.events), s.updates
            r, val = s.run(n, init, fault, counts)
            if r == "raise" and not s.fired and isinstance(val, np.linalg.LinAlgError):
                res.stats["numerically_singular_skipped"] += 1
                return res
            ev, up = s.events[ev0:], s.updates - up0
            moments = n + (1 if init else 0)
            new = None
            if record:
                now = list(s.obj.loss) if s.obj.loss is not None else []
                if len(now) < len(losses) or repr(now[:len(losses)]) != repr(losses):
                    res.bad("history-rewritten", "%s: run %d changed losses recorded earlier" % (who, i))
                    return res
                new = now[len(losses):]
            elif s.obj.loss is not None:
                res.bad("history-unwanted", "%s: losses recorded although recording is off" % who)
            # events: complete moments, callbacks in order
            want, full = [], 0
            off = len(losses)
            for m in range(moments):
                for j in range(n_cb):
                    want.append((s.run_no, j, off + m + 1 if record else None, up0 + m + (0 if init else 1)))
            res.log("op", i, n, init, fault, r, len(ev), up, [repr(x) for x in (new or [])])
            res.shape(n, init, fault[0] if fault else None, r, s.user_where, len(ev))
            if s.fired:
                res.stats["fault_%s_%s" % (fault[0], s.user_where or "")] += 1
                if r != "raise":
                    res.bad("swallowed", "%s: %s raised by %s did not reach the caller" % (who, s.exc.__class__.__name__, fault))
                    return res
                if val is not s.exc:
                    res.bad("exception-changed", "%s: caller got %r instead of the injected %r" % (who, val, s.exc))
                    return res
                if fault[0] == "cb":
                    want = want[:fault[1] * n_cb + fault[2] + 1]
                    done = fault[1] + 1
                    ups = done - (1 if init else 0)
                    if up != ups:
                        res.bad("went-on", "%s: %d updates in a run whose callback failed after %d" % (who, up, ups))
                else:
                    if (s.user_n if fault[0] == "user" else s.la_n) != (
                            1 + int(fault[1] * counts[fault[0]])):
                        res.bad("went-on", "%s: user code was called again after %s failed" % (who, s.user_where))
                    # the number of completed moments follows from the updates begun
                    ks = {k for k in range(moments + 1) if k - (1 if init else 0) in (up, up - 1)} | ({0} if up == 0 else set())
                    if n_cb:
                        k = len(ev) // n_cb
                        if len(ev) % n_cb or k not in ks:
                            res.bad("callbacks", "%s: %d callback calls at a failure in update %d (run %d)" % (who, len(ev), up, i))
                            return res
                        ks = {k}
                    if record and len(new) not in ks:
                        res.bad("losses", "%s: %d losses recorded in run %d which failed during update %d"
                                % (who, len(new), i, up))
                        return res
                    done = len(new) if record else len(ev) // n_cb if n_cb else None
                    want = want[:(done or 0) * n_cb]
            else:
                if r != "ok":
                    res.bad("unexpected-exception", "%s: run %d (n_iter=%d, initial_call=%s) raised %s: %s"
                            % (who, i, n, init, type(val).__name__, val), key="unexpected-exception")
                    return res
                done = moments
                if up != n:
                    res.bad("updates", "%s: run of n_iter=%d performed %d updates" % (who, n, up))
            if ev != want:
                k = next((k for k in range(min(len(ev), len(want))) if ev[k] != want[k]), min(len(ev), len(want)))
                res.bad("callbacks", "%s: callback calls of run %d (n_iter=%d, initial_call=%s): %d calls, expected %d; first "
                        "difference at call %d: got %r, expected (run, callback, losses, updates) = %r"
                        % (who, i, n, init, len(ev), len(want), k, ev[k:k + 1], want[k:k + 1]))
                return res
            if record:
                if done is not None and len(new) != done:
                    res.bad("losses", "%s: run %d (n_iter=%d, initial_call=%s) recorded %d losses for %d moments"
                            % (who, i, n, init, len(new), done))
                    return res
                if any(not isinstance(x, (float, np.floating)) for x in new):
                    res.bad("loss-type", "%s: recorded losses are %r" % (who, [type(x).__name__ for x in new]))
                losses += new
                # the same moments of an undisturbed object have the same losses
                if i == 0 and fault is not None and s.fired:
                    t = Session(cfg, n_callbacks=0, record_loss=True)
                    if t.run(n, init)[0] == "ok" and zoo.loss_dist(t.obj.loss[:len(new)], new) > 1e-8:
                        res.bad("losses", "%s: losses before the failure differ from those of an undisturbed run" % who)
            res.steps += up
            if up:
                res.nontrivial = True
        return res

    def shrinks(self, case):
        yield from super().shrinks(case)
        if case.get("own"):
            for i, op in enumerate(case["ops"]):
                if op["fault"]:
                    yield dict(case, ops=case["ops"][:i] + [dict(op, fault=None)] + case["ops"][i + 1:])
                if op["n"]:
                    yield dict(case, ops=case["ops"][:i] + [dict(op, n=op["n"] // 2)] + case["ops"][i + 1:])
            return
        for i, op in enumerate(case["ops"]):
            for f in shrink_fault(op["fault"]):
                yield dict(case, ops=case["ops"][:i] + [dict(op, fault=f)] + case["ops"][i + 1:])
            if op["n"] > 0:
                yield dict(case, ops=case["ops"][:i] + [dict(op, n=op["n"] - 1)] + case["ops"][i + 1:])
        if case["n_cb"] > 0:
            yield dict(case, n_cb=case["n_cb"] - 1)
        yield from zoo.shrink_cfg(case)


CHECK = Protocol()

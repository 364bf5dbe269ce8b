"""Drives one separation object through a scripted history of runs, with injected failures.

Faults (plain JSON, at most one per run):
  ["cb", moment, j, exc]     callback j raises at its moment-th call of this run
  ["user", frac, exc]        a user function raises; frac of the way through its invocations
  ["linalg", frac]           a numpy.linalg routine fails (LinAlgError)
  ["line", frac, exc]        exception at a source line of the library
"""
import contextlib
import os
import sys

import numpy as np

from . import engine, zoo

ROOT = os.path.join(os.path.realpath(engine.REPO), "ssspy") + os.sep
EXCS = ("error", "kbd", "mem", "float", "value", "linalg", "index", "attr", "assert", "notimpl", "exit", "type", "warn")
CB_EXCS = EXCS + ("stop", "genexit")  # these end generators, so only callbacks raise them


class Injected(Exception):
    pass


def make_exc(kind):
    return {"error": Injected, "kbd": KeyboardInterrupt, "mem": MemoryError, "float": FloatingPointError, "value": ValueError,
            "index": IndexError, "attr": AttributeError, "stop": StopIteration, "assert": AssertionError, "type": TypeError,
            "notimpl": NotImplementedError, "exit": SystemExit, "genexit": GeneratorExit, "warn": UserWarning,
            "linalg": np.linalg.LinAlgError}[kind]("injected")


_files = {}


def in_lib(filename):
    r = _files.get(filename)
    if r is None:
        r = _files[filename] = os.path.realpath(filename).startswith(ROOT)
    return r


class Lines:
    """Counts (and interrupts at) source lines executed inside the library."""

    def __init__(self, at=None, exc=None, on_line=None):
        self.paused = False
        self.at, self.exc, self.n, self.where, self.on_line = at, exc, 0, None, on_line

    def _global(self, frame, event, arg):
        if event == "call" and not self.paused and in_lib(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.on_line is not None:
                self.on_line()
            if self.n == self.at:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


LINALG = ("inv", "solve", "eigh", "svd", "slogdet", "cholesky", "lstsq", "eigvalsh", "pinv", "det", "eig", "eigvals")


@contextlib.contextmanager
def linalg_faults(counter):
    """numpy.linalg routines call counter() first, which may raise."""
    saved = {k: getattr(np.linalg, k) for k in LINALG if hasattr(np.linalg, k)}

    def wrap(f):
        def g(*a, **k):
            counter()
            return f(*a, **k)

        return g

    for k, f in saved.items():
        setattr(np.linalg, k, wrap(f))
    try:
        yield
    finally:
        for k, f in saved.items():
            setattr(np.linalg, k, f)


class Session:
    def __init__(self, cfg, n_callbacks=1, observe=None, rng=None, record_loss=None, X=None, extra=None, single=False):
        self.cfg = cfg
        self.X = zoo.make_input(cfg) if X is None else X
        self.events = []  # (run, callback index, losses so far, updates so far)
        self.run_no = -1
        self.updates = 0
        self.observe = observe
        self.cb_fault = None
        self.cb_calls = 0
        self.user_n = self.la_n = self.line_n = 0
        self.user_at = self.la_at = None
        self.user_where = None
        self.exc = None
        self.fired = False
        self.pair_log = []
        self.on_line = None
        self.harness_error = None
        self.observing = False  # faults wait while the observer looks
        self._lines = None
        cbs = [self._callback(j) for j in range(n_callbacks)]
        if single and n_callbacks == 1:
            cbs = cbs[0]
        self.obj = zoo.build(cfg, callbacks=cbs if n_callbacks else None, record_loss=record_loss, wrap=self._wrap,
                             rng=rng, extra=extra, pair_log=self.pair_log)
        inner = self.obj.update_once

        def update_once(*a, **k):
            self.updates += 1
            return inner(*a, **k)

        self.obj.update_once = update_once

    # seams
    def _callback(self, j):
        def cb(obj):
            if obj is not self.obj:
                self.events.append(("wrong object",))
                return
            self.events.append((self.run_no, j, len(obj.loss) if obj.loss is not None else None, self.updates))
            if j == 0:
                self.cb_calls += 1
            if self.observe is not None and j == 0:
                self.observing = True
                if self._lines is not None:
                    self._lines.paused = True
                try:
                    self.observe(self)
                except BaseException as e:
                    self.harness_error = e
                    raise
                finally:
                    self.observing = False
                    if self._lines is not None:
                        self._lines.paused = False
            if self.cb_fault is not None and self.cb_fault == (self.cb_calls - 1, j):
                self.fired = True
                raise self.exc

        return cb

    def _tick_user(self, name):
        if self.observing:
            return
        self.user_n += 1
        if self.user_n == self.user_at:
            self.fired = True
            self.user_where = name
            raise self.exc

    def _wrap(self, name, fn):
        if name == "pair_selector":
            def sel(n):
                self._tick_user(name)
                for p in fn(n):
                    yield p
                    self._tick_user(name)

            return sel

        def f(*a, **k):
            self._tick_user(name)
            return fn(*a, **k)

        return f

    def _tick_la(self):
        if self.observing:
            return
        self.la_n += 1
        if self.la_n == self.la_at:
            self.fired = True
            raise self.exc

    def _call(self, X, n, init, state):
        """The ways in which callers write the same call."""
        style = (self.cfg["rng"] + self.run_no) % 5
        if style == 0:
            return self.obj(X, n, init, **state)
        if style == 1:
            return self.obj(input=X, n_iter=n, initial_call=init, **state)
        kw = dict(state)
        if not (n == 100 and style == 2):
            kw["n_iter"] = n
        if not (init and style in (2, 3)):
            kw["initial_call"] = init
        return self.obj(X, **kw)

    def run(self, n, init=True, fault=None, counts=None, trace=False, X=None, **state):
        """-> ("ok", output) or ("raise", exception). counts: totals from a dry run."""
        self.run_no += 1
        self.cb_calls = 0
        self.user_n = self.la_n = 0
        self.user_at = self.la_at = self.cb_fault = self.user_where = None
        self.fired = False
        line_at = None
        if fault:
            kind = fault[0]
            self.exc = make_exc("linalg" if kind == "linalg" else fault[-1])
            if kind == "cb":
                self.cb_fault = (fault[1], fault[2])
            elif kind == "user" and counts["user"]:
                self.user_at = 1 + int(fault[1] * counts["user"])
            elif kind == "linalg" and counts["linalg"]:
                self.la_at = 1 + int(fault[1] * counts["linalg"])
            elif kind == "line":
                line_at = 1 + int(fault[1] * counts["line"])
        else:
            self.exc = None
        lines = self._lines = Lines(line_at, self.exc, self.on_line) if (trace or line_at) else None
        try:
            with linalg_faults(self._tick_la) if (trace or self.la_at) else contextlib.nullcontext():
                with lines if lines is not None else contextlib.nullcontext():
                    out = self._call(self.X if X is None else X, n, init, state)
            res = ("ok", out)
        except BaseException as e:
            if isinstance(e, engine.RunTimeout):
                raise
            if self.harness_error is not None:
                raise engine.HarnessError("observer failed: %r" % self.harness_error) from self.harness_error
            res = ("raise", e)
        finally:
            self.user_at = self.la_at = self.cb_fault = None
        if lines is not None:
            self.line_n = lines.n
            if lines.where:
                self.fired = True
                self.user_where = lines.where
        return res


def dry_counts(cfg, n, init=True, trace=True):
    """Number of lines, user-function calls and linalg calls of a run of n iterations."""
    s = Session(cfg)
    r = s.run(n, init, trace=trace)
    return {"line": s.line_n, "user": s.user_n, "linalg": s.la_n, "ok": r[0] == "ok"}


def gen_fault(rng, kinds=("cb", "user", "linalg", "line"), n=3):
    kind = rng.choice(kinds)
    exc = rng.choice(CB_EXCS if kind == "cb" else EXCS)
    frac = round(rng.random(), 4)
    if kind == "cb":
        return ["cb", rng.randrange(n + 1), 0, exc]
    if kind == "linalg":
        return ["linalg", frac]
    return [kind, frac, exc]


def shrink_fault(f):
    if f is None:
        return
    yield None
    if f[0] == "cb" and f[1] > 0:
        yield ["cb", f[1] - 1] + f[2:]
    if f[0] != "cb" and f[1] > 0:
        yield [f[0], round(f[1] / 2, 4)] + f[2:]

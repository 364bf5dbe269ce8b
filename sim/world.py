"""The simulated machine: disk, network, clock, processes and the scheduler.

Real code runs; its file, directory, network, clock and randomness calls go through
the functions below. Files are real files inside a scratch directory, opened through a
raw layer owned by the simulator (SimRaw) under the interpreter's own buffering, so a
killed process really loses what was still in its user-space buffers, and nothing else.

Every raw operation is one step of the current simulated process. A fault plan maps
(process, step) to a fault. With a scheduler, every step is also a switch point.
"""
import builtins
import errno
import gc
import io
import os
import shutil
import tempfile
import threading
import time
import urllib.error
import urllib.request

_real = {
    "open": builtins.open, "os.open": os.open, "os.close": os.close, "os.write": os.write, "os.read": os.read,
}


class SimCrash(BaseException):
    """The simulated process is dead. Nothing it does from here on has any effect."""


class Proc:
    def __init__(self, name, pid):
        self.name = name
        self.pid = pid
        self.alive = True
        self.steps = 0
        self.faults = {}
        self.disk_full = False
        self.enospc_next = False
        self.disk_dead = False
        self.net_down = False
        self.raws = set()
        self.fds = set()
        self.requests = []
        self.profile = []  # kinds of the steps taken
        self.tmp_counter = 0


_tls = threading.local()


def cur_proc():
    return getattr(_tls, "proc", None)


class SimRaw(io.FileIO):
    def __init__(self, world, proc, file, mode, closefd=True, opener=None):
        self._w = world
        self._p = proc
        self._label = world.label(file)
        super().__init__(file, mode, closefd=closefd, opener=opener)
        proc.raws.add(self)

    def _dead(self):
        if not self._p.alive:
            raise SimCrash()

    def readinto(self, b):
        self._dead()
        n = len(b)
        f = self._w.step("read", self._label, n, proc=self._p)
        if f and f["kind"] == "short" and n > 1:
            self._w.fired("short_read")
            m = max(1, int(n * f.get("frac", 0.5)))
            return super().readinto(memoryview(b).cast("B")[:m])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self._dead()
        self._w.step("read", self._label, size, proc=self._p)
        return super().read(size)

    def readall(self):
        self._dead()
        self._w.step("read", self._label, -1, proc=self._p)
        return super().readall()

    def write(self, b):
        self._dead()
        mv = memoryview(b).cast("B")
        n = len(mv)
        f = self._w.step("write", self._label, n, proc=self._p, torn=lambda m: super(SimRaw, self).write(mv[:m]))
        if f and f["kind"] == "short" and n > 1:
            self._w.fired("short_write")
            return super().write(mv[: max(1, int(n * f.get("frac", 0.5)))])
        return super().write(b)

    def truncate(self, size=None):
        self._dead()
        self._w.step("truncate", self._label, size, proc=self._p)
        return super().truncate(size)

    def close(self):
        p = getattr(self, "_p", None)
        if p is not None:
            p.raws.discard(self)
        if p is not None and not p.alive:
            try:
                super().close()
            except BaseException:
                pass
            return
        super().close()

    def kill(self):
        """The process died: the kernel closes the descriptor, nothing is flushed."""
        try:
            io.FileIO.close(self)
        except BaseException:
            pass


class World:
    def __init__(self, root, res, server=None, chunk=None):
        self.root = os.path.realpath(root)
        self.res = res
        self.server = server or {}
        self.now = 1_700_000_000.0
        self.t0 = self.now
        self.sched = None
        self.procs = []
        self.opened = []
        self._saved = []
        self.bufsize = chunk or io.DEFAULT_BUFFER_SIZE
        self.latency = 0.0007

    # -- bookkeeping -------------------------------------------------------
    def label(self, file):
        if isinstance(file, int):
            return "fd"
        p = os.path.abspath(os.fsdecode(file))
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return "other"

    def inside(self, path):
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def fired(self, kind):
        self.res.stats["fault:" + kind] += 1

    def new_proc(self, name, faults=()):
        p = Proc(name, 4000 + len(self.procs))
        for f in faults:
            p.faults.setdefault(f["step"], f)
        self.procs.append(p)
        return p

    def kill(self, p):
        p.alive = False
        for r in list(p.raws):
            r.kill()
        p.raws.clear()
        for fd in list(p.fds):
            try:
                _real["os.close"](fd)
            except OSError:
                pass
        p.fds.clear()

    # -- the step ----------------------------------------------------------
    def step(self, kind, what, detail=None, proc=None, torn=None):
        p = proc or cur_proc()
        if p is None:
            return None
        if not p.alive:
            raise SimCrash()
        if self.sched is not None:
            self.sched.switch_point(kind)
            if not p.alive:
                raise SimCrash()
        k = p.steps
        p.steps += 1
        p.profile.append(kind)
        self.now += self.latency
        self.res.steps += 1
        self.res.log(p.name, k, kind, what, detail)
        f = p.faults.get(k)
        if p.enospc_next and kind == "write":
            p.enospc_next = False
            self.fired("enospc")
            raise OSError(errno.ENOSPC, "simulated full disk")
        if f is None:
            if p.disk_dead and kind not in ("net",):
                self.fired("eio_persistent")
                raise OSError(errno.EIO, "simulated persistent I/O error")
            if p.disk_full and kind in ("write", "create", "mkdir"):
                self.fired("enospc_persistent")
                raise OSError(errno.ENOSPC, "simulated full disk")
            if p.net_down and kind == "net":
                self.fired("net_down")
                raise ConnectionResetError("simulated network down")
            return None
        fk = f["kind"]
        self.res.log(p.name, k, "FAULT", fk)
        if fk == "crash":
            if torn is not None and f.get("frac") and isinstance(detail, int) and detail > 0:
                self.fired("crash_torn_write")
                m = int(detail * f["frac"])
                if m:
                    torn(m)
            else:
                self.fired("crash")
            self.kill(p)
            raise SimCrash()
        if fk == "crash_after":
            return f  # the caller performs the operation, then dies
        if fk == "interrupt":
            self.fired("keyboard_interrupt")
            raise KeyboardInterrupt("simulated Ctrl-C")
        if kind == "net":
            if fk == "slow":
                self.fired("net_slow")
                self.now += f.get("delay", 30.0)
                return None
            if fk == "eof":
                return f
            if f.get("persist"):
                p.net_down = True
            self.fired("net_error")
            if detail == "connect":
                if fk == "http":
                    raise urllib.error.HTTPError(what, 503, "simulated: unavailable", {}, None)
                raise urllib.error.URLError(ConnectionRefusedError("simulated: refused"))
            if fk == "timeout":
                raise TimeoutError("simulated timeout")
            raise ConnectionResetError(errno.ECONNRESET, "simulated reset")
        if fk == "short":
            return f
        if fk == "enospc" and kind in ("write", "create", "mkdir", "truncate"):
            if f.get("persist"):
                p.disk_full = True
            if torn is not None and f.get("frac") and isinstance(detail, int) and int(detail * f["frac"]) > 0:
                # as a real kernel does: what fits is written and reported short, the next write fails
                p.enospc_next = True
                self.fired("enospc_partial")
                return {"kind": "short", "frac": f["frac"]}
            self.fired("enospc")
            raise OSError(errno.ENOSPC, "simulated full disk")
        if fk in ("eio", "enospc", "reset", "timeout", "http", "eof", "slow"):
            if fk == "slow":
                self.fired("disk_slow")
                self.now += f.get("delay", 5.0)
                return None
            if kind in ("stat",):
                return None  # a failing stat would only make a path look absent: not injected
            if f.get("persist"):
                p.disk_dead = True
            self.fired("eio")
            raise OSError(errno.EIO, "simulated I/O error")
        return None

    def after(self, f, p=None):
        if f is not None and f["kind"] == "crash_after":
            self.fired("crash_after_op")
            p = p or cur_proc()
            self.kill(p)
            raise SimCrash()

    # -- file seam ---------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = cur_proc()
        mine = p is not None and (file in p.fds if isinstance(file, int) else self.inside(file))
        if not mine:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not p.alive:
            raise SimCrash()
        binary = "b" in mode
        rawmode = "".join(c for c in mode if c in "rwax+")
        creating = any(c in mode for c in "wax")
        f = None
        if not isinstance(file, int):
            f = self.step("create" if creating else "open", self.label(file), rawmode)
        raw = SimRaw(self, p, file, rawmode, closefd, opener)
        if isinstance(file, int):
            p.fds.discard(file)
        self.after(f, p)
        self.opened.append(raw)
        if buffering == 0:
            return raw
        size = self.bufsize if buffering < 2 else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif creating:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def leaked(self):
        return [r for r in self.opened if not r.closed]

    def _os_call(self, name, kind, creating=False):
        real = getattr(os, name)

        def wrapper(*a, **k):
            p = cur_proc()
            if p is None:
                return real(*a, **k)
            target = a[0] if a else k.get("path", k.get("src"))
            inside = (isinstance(target, (str, bytes, os.PathLike)) and (self.inside(target) or "dir_fd" in k)) or (
                isinstance(target, int) and target in p.fds)
            if not inside:
                return real(*a, **k)
            lab = self.label(target) if not isinstance(target, int) else "fd"
            f = self.step(kind, lab, name)
            out = real(*a, **k)
            self.after(f, p)
            return out

        return wrapper

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = cur_proc()
        if p is None or not (dir_fd is not None or self.inside(path)):
            return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
        kind = "create" if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR) else "open"
        f = self.step(kind, self.label(path), "os.open")
        fd = _real["os.open"](path, flags, mode, dir_fd=dir_fd)
        p.fds.add(fd)
        self.after(f, p)
        return fd

    def _os_close(self, fd):
        p = cur_proc()
        if p is not None and fd in p.fds:
            p.fds.discard(fd)
        return _real["os.close"](fd)

    def _os_write(self, fd, data):
        p = cur_proc()
        if p is None or fd not in p.fds:
            return _real["os.write"](fd, data)
        mv = memoryview(data)
        f = self.step("write", "fd", len(mv), torn=lambda m: _real["os.write"](fd, mv[:m]))
        if f and f["kind"] == "short" and len(mv) > 1:
            return _real["os.write"](fd, mv[: max(1, int(len(mv) * f.get("frac", 0.5)))])
        return _real["os.write"](fd, data)

    # -- network seam ------------------------------------------------------
    def _net_open(self, opener, fullurl, data=None, timeout=None, *a, **k):
        url = fullurl if isinstance(fullurl, str) else fullurl.get_full_url()
        p = cur_proc()
        if p is None:
            raise urllib.error.URLError("no network outside the simulation")
        short = url.rsplit("/", 1)[-1]
        f = self.step("net", short, "connect")
        p.requests.append(url)
        self.res.stats["net_requests"] += 1
        self.after(f, p)
        if url not in self.server:
            raise urllib.error.HTTPError(url, 404, "not found", {}, None)
        return SimResponse(self, p, url, self.server[url])

    # -- installation ------------------------------------------------------
    def _patch(self, obj, name, value):
        self._saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        w = self
        self._patch(builtins, "open", self.open)
        self._patch(io, "open", self.open)
        kinds = {"mkdir": "mkdir", "rename": "rename", "replace": "rename", "remove": "unlink", "unlink": "unlink",
                 "rmdir": "unlink", "stat": "stat", "lstat": "stat", "listdir": "list", "scandir": "list",
                 "link": "rename", "symlink": "create", "fsync": "fsync", "truncate": "truncate",
                 "ftruncate": "truncate", "sendfile": "write", "access": "stat"}
        for n, kd in kinds.items():
            self._patch(os, n, self._os_call(n, kd))
        for n in ("mkdir", "rename", "replace", "remove", "unlink", "rmdir", "stat", "lstat", "listdir", "scandir"):
            new, old = getattr(os, n), [s for s in self._saved if s[0] is os and s[1] == n][0][2]
            for group in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
                if old in group:
                    group.add(new)
        self._patch(os, "open", self._os_open)
        self._patch(os, "close", self._os_close)
        self._patch(os, "write", self._os_write)
        self._patch(os, "getpid", _sub(os.getpid, lambda p: p.pid))
        self._patch(os, "urandom", _sub(os.urandom, None, self._urandom))
        self._patch(tempfile, "_get_candidate_names", lambda: self._names())
        self._patch(urllib.request.OpenerDirector, "open", lambda s, *a, **k: w._net_open(s, *a, **k))
        self._patch(time, "time", _sub(time.time, lambda p: w.now))
        self._patch(time, "monotonic", _sub(time.monotonic, lambda p: w.now))
        self._patch(time, "perf_counter", _sub(time.perf_counter, lambda p: w.now))
        self._patch(time, "sleep", _sub(time.sleep, None, self._sleep))
        return self

    def __exit__(self, *exc):
        for obj, name, value in reversed(self._saved):
            setattr(obj, name, value)
        self._saved.clear()
        self.res.sim_time += self.now - self.t0
        for p in self.procs:
            for r in list(p.raws):
                p.alive = False
                r.kill()

    def _sleep(self, p, s):
        self.step("sleep", "", s)
        self.now += max(0.0, s)

    def _urandom(self, p, n):
        p.tmp_counter += 1
        import hashlib

        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.blake2b(repr((p.pid, p.tmp_counter, i)).encode()).digest()
            i += 1
        return out[:n]

    def _names(self):
        p = cur_proc()
        while True:
            n = 0
            if p is not None:
                p.tmp_counter += 1
                n = p.tmp_counter
            yield "t%d_%d" % (p.pid if p else 0, n)

    # -- running a client --------------------------------------------------
    def run_as(self, proc, fn):
        """Run fn as a simulated process. -> ("ok", value) | ("raised", exc) | ("crashed", None)"""
        prev = cur_proc()
        _tls.proc = proc
        try:
            try:
                return ("ok", fn())
            except SimCrash:
                return ("crashed", None)
            except (Exception, KeyboardInterrupt) as e:
                if not proc.alive:
                    return ("crashed", None)
                return ("raised", e)
        finally:
            _tls.proc = prev


def _sub(real, value=None, fn=None):
    def wrapper(*a, **k):
        p = cur_proc()
        if p is None:
            return real(*a, **k)
        if fn is not None:
            return fn(p, *a, **k)
        return value(p)

    return wrapper


class SimResponse(io.RawIOBase):
    """Body of one simulated HTTP response."""

    def __init__(self, world, proc, url, body):
        self._w, self._p, self.url, self._body, self._pos = world, proc, url, body, 0
        self.status = self.code = 200
        from email.message import Message

        self.headers = Message()
        self.headers["Content-Length"] = str(len(body))
        self.msg = "OK"
        self._eof = False

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def readable(self):
        return True

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def read(self, n=-1):
        if not self._p.alive:
            raise SimCrash()
        if self._eof:
            return b""
        f = self._w.step("net", self.url.rsplit("/", 1)[-1], "body", proc=self._p)
        if n is None or n < 0:
            n = len(self._body) - self._pos
        if f is not None and f["kind"] == "eof" and self._pos + n < len(self._body):
            self._w.fired("net_truncated")
            self._eof = True
            n = int(n * f.get("frac", 0.5))
        out = self._body[self._pos:self._pos + n]
        self._pos += len(out)
        if f is not None:
            self._w.after(f, self._p)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


# ---------------------------------------------------------------------------
class Sched:
    """Cooperative scheduler: threads hold a baton; only the holder runs.

    plan: list of [global_switch_point, client]. At a listed point the baton goes to that
    client if it is runnable; otherwise the current client goes on until it ends. When a
    client ends, the lowest runnable client in `order` continues.
    """

    def __init__(self, res, plan, n, order=None):
        self.res = res
        self.plan = {}
        for pt, c in plan:
            self.plan.setdefault(pt, c)
        self.n = n
        self.order = order or list(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.points = 0
        self.switches = 0
        self.finished = threading.Event()
        self.ids = {}

    def switch_point(self, kind=None):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        pt = self.points
        self.points += 1
        c = self.plan.get(pt)
        if c is None:
            return
        c = c % self.n
        if c == me or self.done[c]:
            return
        self.switches += 1
        self.res.stats["context_switches"] += 1
        self.res.log("switch", pt, me, c)
        self.res.shape("sw", me, c, kind)
        self.sem[c].release()
        self.sem[me].acquire()

    def run(self, fns, first=0):
        out = [None] * self.n

        def body(i):
            self.sem[i].acquire()
            self.ids[threading.get_ident()] = i
            try:
                out[i] = fns[i]()
            finally:
                self.done[i] = True
                self.res.log("end", i)
                nxt = [j for j in self.order if not self.done[j]]
                if nxt:
                    self.sem[nxt[0]].release()
                else:
                    self.finished.set()

        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.sem[first % self.n].release()
        while not self.finished.wait(0.5):
            pass
        for t in ths:
            t.join()
        return out

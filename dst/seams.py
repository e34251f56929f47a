"""Seams: everything nondeterministic or faultable that the code under test can reach.

``install()`` patches the standard library once per process, *before* any third-party module is
imported. Every patch is inert outside simulated threads, and file operations are only simulated
on paths under the running simulation's scratch root.
"""
import _thread
import builtins
import datetime as _dt
import errno
import io
import os
import sys
import threading
import time

from . import core
from .core import SimKilled, SimLock, SimRLock, cur

real = {}


def _sim():
    t = cur()
    return t.sim if t is not None else None


# ------------------------------------------------------------------------------- fault decision

class Faults:
    """Decides fault injection at seam operations.

    spec: {"seed": n, "rates": {kind: rate}, "max": n, "list": [[thread, kind, n, payload], ...]}
    ``list`` entries are explicit: the n-th operation of that kind in that thread (1-based).
    """

    def __init__(self, spec):
        import random
        spec = spec or {}
        self.rng = random.Random(spec.get("seed", 0))
        self.rates = dict(spec.get("rates", {}))
        self.left = spec.get("max", 3)
        self.explicit = {(a, b, c): d for a, b, c, d in spec.get("list", ())}
        self.only = spec.get("only_explicit", False)
        self.fired = []       # explicit form of what was injected
        self.on = True
        self.opportunities = 0
        self.menus = spec.get("menus", {})
        self.skip_until = spec.get("after", 0)   # first opportunities without random faults
        self.nokill = spec.get("nokill", False)
        self.onlykill = spec.get("onlykill", False)
        self.match = spec.get("match")           # only on paths containing one of these
        self.roles = spec.get("roles")           # only in threads whose name contains one of these

    def decide(self, t, kind, menu, path=None):
        """Returns None or a payload (dict) out of the menu: list of (weight, payload-factory)."""
        n = t.counts.get(kind, 0) + 1
        t.counts[kind] = n
        key = (t.name, kind, n)
        if key in self.explicit:
            if not self.on:
                return None
            p = dict(self.explicit[key])
            self.fired.append([t.name, kind, n, p])
            t.sim.event("fault", kind, n, p.get("k"), p.get("e"))
            t.sim.fault_steps.append((t.sim.step, t.name, kind))
            return p
        if self.only or not self.on or self.left <= 0:
            return None
        rate = self.rates.get(kind, 0.0)
        if not rate or not menu:
            return None
        self.opportunities += 1
        r = self.rng.random()
        if r >= rate:
            return None
        if t.session is not None and t.session.nofault:
            return None
        if self.match and path is not None and not any(m in path for m in self.match):
            return None
        if self.roles and not any(m in t.name for m in self.roles):
            return None
        if self.skip_until > 0:
            self.skip_until -= 1
            return None
        p = menu(self.rng)
        if p is not None and self.nokill and p["k"] == "kill":
            p = {"k": "err", "e": "EIO"} if kind.startswith("fs.") and kind != "fs.stat" else None
            if p is not None and kind == "fs.write":
                p["frac"] = 0.0
        if p is None or self.onlykill and p["k"] != "kill":
            return None
        self.left -= 1
        self.fired.append([t.name, kind, n, dict(p)])
        t.sim.event("fault", kind, n, p.get("k"), p.get("e"))
        t.sim.fault_steps.append((t.sim.step, t.name, kind))
        return p


# ------------------------------------------------------------------------------- file system

_DISK_ERR = ("EIO", "ENOSPC", "EACCES")


def _menu_for(op):
    def menu(rng):
        if op == "write":
            x = rng.random()
            if x < 0.35:
                return {"k": "kill", "when": "mid", "frac": round(rng.random(), 2)}
            if x < 0.75:
                return {"k": "err", "e": "ENOSPC", "frac": round(rng.random(), 2),
                        "sticky": rng.choice([0, 0, 2, 6])}
            if x < 0.9:
                return {"k": "err", "e": "EIO", "frac": 0.0, "sticky": 0}
            return {"k": "short", "frac": round(rng.random(), 2)}
        x = rng.random()
        if x < 0.3:
            return {"k": "kill", "when": "before"}
        if x < 0.6:
            return {"k": "kill", "when": "after"}
        if op == "stat":
            return None
        if op == "open-w":
            return {"k": "err", "e": rng.choice(["ENOSPC", "EACCES", "EMFILE"])}
        if op == "open-r":
            return {"k": "err", "e": rng.choice(["EMFILE", "EIO"])}
        if op in ("rename", "mkdir"):
            return {"k": "err", "e": rng.choice(["ENOSPC", "EIO"])}
        if op == "unlink":
            return {"k": "err", "e": rng.choice(["EIO", "EACCES"])}
        return {"k": "err", "e": "EIO"}
    return menu


_MENUS = {op: _menu_for(op) for op in
          ("write", "stat", "open-w", "open-r", "rename", "unlink", "mkdir", "list", "utime", "fsync")}


def under(sim, path):
    if isinstance(path, int):
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        return False
    if p.startswith(sim.root):
        return True
    if p.startswith("/"):
        return False
    return False


def _kill(t, when):
    t.sim.event("kill", t.session.name, when)
    t.session.kill()          # raises SimKilled in this thread
    raise SimKilled()


def _oserror(name, path):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e), path)


def _exists(path):
    try:
        real["lstat"](path)
        return True
    except OSError:
        return False


def fs_op(op, fn, path, args, kw, mutating, path2=None):
    t = cur()
    sim = t.sim
    if t.unwinding:
        raise SimKilled()
    sim.yield_(t)
    sess = t.session
    if sess is not None and sess.dead:
        raise SimKilled()
    kind = "fs." + op
    if t.op is not None:
        t.op.touched.append((op, path))
    p = sim.faults.decide(t, kind, _MENUS.get(op), path) if sess is not None else None
    if p is not None:
        if p["k"] == "kill" and p["when"] != "after":
            _kill(t, "before")
        if p["k"] == "err":
            sim.count_fault(op + ":" + p["e"])
            raise _oserror(p["e"], path)
    if mutating and sim.canary_check is not None:
        sim.canary_check(op, path, path2)
    old = op == "open-w" and _exists(path)
    r = fn(*args, **kw)
    if op in ("unlink", "mkdir", "rename") or op == "open-w" and not old:
        # modification times of directories in simulated time
        x = sim.wall()
        for d in {os.path.dirname(path), os.path.dirname(path2) if path2 else None, path if op == "mkdir" else None}:
            if d:
                try:
                    real["utime"](d, (x, x))
                except OSError:
                    pass
    if mutating:
        sim.fs_mutations += 1
        if sim.on_mutation is not None:
            sim.on_mutation(op, path, path2)
    if p is not None and p["k"] == "kill" and p["when"] == "after":
        _kill(t, "after")
    return r


class SimFileIO(io.FileIO):
    """Raw file: each write is a yield point, may be short, may fail, may be cut by a kill."""

    def __init__(self, name, mode, path, fd=None, opener=None, closefd=True):
        self._t = cur()
        self._simpath = path
        self._sim = self._t.sim
        self._sess = self._t.session
        super().__init__(name, mode, closefd=closefd, opener=opener)
        if self._sess is not None:
            self._sess.files.append(self)
        if "r" not in mode or "+" in mode:
            self._touch()

    def _touch(self):
        try:
            w = self._sim.wall()
            real["utime"](self.fileno(), (w, w))
        except OSError:
            pass

    def write(self, b):
        t = cur()
        n = len(memoryview(b).cast("B")) if not isinstance(b, (bytes, bytearray)) else len(b)
        if t is None:
            if core.SIM is self._sim or (self._sess is not None and self._sess.dead):
                return n
            return super().write(b)
        if t.unwinding or (self._sess is not None and self._sess.dead):
            return n
        sim = t.sim
        sim.yield_(t)
        if sim.disk_full_ops > 0:
            sim.disk_full_ops -= 1
            sim.count_fault("write:ENOSPC")
            sim.fault_steps.append((sim.step, t.name, "disk-full"))
            raise _oserror("ENOSPC", self._simpath)
        p = sim.faults.decide(t, "fs.write", _MENUS["write"], self._simpath) if t.session is not None else None
        if p is not None:
            k = int(n * p.get("frac", 0.0))
            if p["k"] == "short":
                k = max(1, min(k, n))
                sim.count_fault("write:short")
                r = super().write(bytes(b)[:k])
                self._touch()
                if sim.on_mutation is not None:
                    sim.on_mutation("write", self._simpath, None)
                return r
            if k:
                super().write(bytes(b)[:k])
                self._touch()
            sim.fs_mutations += 1
            if sim.on_mutation is not None:
                sim.on_mutation("write", self._simpath, None)
            if p["k"] == "kill":
                _kill(t, "mid-write")
            sim.count_fault("write:" + p["e"])
            if p.get("sticky"):
                sim.disk_full_ops = p["sticky"]
            raise _oserror(p["e"], self._simpath)
        r = super().write(b)
        self._touch()
        sim.fs_mutations += 1
        if sim.on_mutation is not None:
            sim.on_mutation("write", self._simpath, None)
        return r

    def readinto(self, b):
        t = cur()
        if t is not None and not t.unwinding:
            t.sim.yield_(t)
        elif t is not None:
            raise SimKilled()
        return super().readinto(b)

    def readall(self):
        t = cur()
        if t is not None and not t.unwinding:
            # in pieces, so that other threads' writes can interleave with a large read
            out = []
            while True:
                t.sim.yield_(t)
                c = super().read(65536)
                if not c:
                    break
                out.append(c)
            return b"".join(out)
        elif t is not None:
            raise SimKilled()
        return super().readall()

    def truncate(self, size=None):
        t = cur()
        if t is not None and t.unwinding:
            return size
        return super().truncate(size)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
    t = cur()
    if t is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim = t.sim
    if isinstance(file, int):
        path = sim.fds.get(file)
        if path is None:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        if not under(sim, file):
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
    modes = set(mode)
    text = "b" not in modes
    updating = "+" in modes
    rawmode = "".join(c for c in mode if c in "rwax+")
    writing = any(c in modes for c in "wax") or updating
    if text and buffering == 0:
        raise ValueError("can't have unbuffered text I/O")
    if not text and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")

    def do():
        return SimFileIO(file, rawmode, path, opener=opener, closefd=closefd)

    raw = fs_op("open-w" if writing else "open-r", do, path, (), {}, mutating=writing)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else sim.bufsize
    if updating:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        return buf
    tw = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    tw.mode = mode
    return tw


def _wrap1(name, op, mutating):
    r = getattr(os, name)
    real[name] = r

    def f(path, *a, **k):
        t = cur()
        if t is None or not under(t.sim, path):
            return r(path, *a, **k)
        if mutating and op in ("unlink",):
            pass
        return fs_op(op, r, os.fspath(path), (path, *a), k, mutating)
    f.__name__ = name
    setattr(os, name, f)
    return f


def _wrap2(name, op):
    r = getattr(os, name)
    real[name] = r

    def f(src, dst, *a, **k):
        t = cur()
        if t is None or not (under(t.sim, src) or under(t.sim, dst)):
            return r(src, dst, *a, **k)
        return fs_op(op, r, os.fspath(src), (src, dst, *a), k, True, path2=os.fspath(dst))
    f.__name__ = name
    setattr(os, name, f)


def _install_fs():
    real["open"] = builtins.open
    real["utime"] = os.utime
    real["os_open"] = os.open
    real["os_close"] = os.close
    real["os_write"] = os.write
    real["listdir"] = os.listdir
    real["scandir"] = os.scandir
    real["statvfs"] = os.statvfs
    real["fsync"] = os.fsync

    def r_exists(p):
        try:
            real["stat"](p)
            return True
        except OSError:
            return False

    def r_isdir(p):
        import stat
        try:
            return stat.S_ISDIR(real["stat"](p).st_mode)
        except OSError:
            return False
    real["exists"], real["isdir"] = r_exists, r_isdir
    builtins.open = sim_open
    io.open = sim_open
    for n in ("unlink", "remove"):
        _wrap1(n, "unlink", True)
    _wrap1("rmdir", "unlink", True)
    _wrap1("mkdir", "mkdir", True)
    _wrap1("stat", "stat", False)
    _wrap1("lstat", "stat", False)
    _wrap1("access", "stat", False)
    _wrap1("utime", "utime", True)
    _wrap1("truncate", "open-w", True)
    _wrap1("chmod", "utime", True)
    for n in ("rename", "replace", "link", "symlink"):
        _wrap2(n, "rename")

    def s_open(path, flags, mode=0o777, *, dir_fd=None):
        t = cur()
        if t is None or not under(t.sim, path):
            return real["os_open"](path, flags, mode, dir_fd=dir_fd)
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        fd = fs_op("open-w" if w else "open-r", real["os_open"], os.fspath(path),
                   (path, flags, mode), {"dir_fd": dir_fd}, w)
        t.sim.fds[fd] = os.fspath(path)
        if t.session is not None:
            t.session.fds.add(fd)
        if w:
            x = t.sim.wall()
            try:
                real["utime"](fd, (x, x))
            except OSError:
                pass
        return fd
    os.open = s_open

    def s_close(fd):
        t = cur()
        if t is not None and fd in t.sim.fds:
            if t.unwinding:
                return None      # closed when the session is reaped
            del t.sim.fds[fd]
            if t.session is not None:
                t.session.fds.discard(fd)
        return real["os_close"](fd)
    os.close = s_close

    def s_write(fd, data):
        t = cur()
        if t is not None and fd in t.sim.fds:
            path = t.sim.fds[fd]
            if t.unwinding:
                raise SimKilled()
            t.sim.yield_(t)
            p = t.sim.faults.decide(t, "fs.write", _MENUS["write"], path) if t.session else None
            if p is not None:
                k = int(len(data) * p.get("frac", 0))
                if p["k"] == "short":
                    return real["os_write"](fd, bytes(data)[:max(1, k)])
                if k:
                    real["os_write"](fd, bytes(data)[:k])
                if t.sim.on_mutation is not None:
                    t.sim.on_mutation("write", path, None)
                if p["k"] == "kill":
                    _kill(t, "mid-write")
                raise _oserror(p["e"], path)
            r = real["os_write"](fd, data)
            x = t.sim.wall()
            real["utime"](fd, (x, x))
            t.sim.fs_mutations += 1
            if t.sim.on_mutation is not None:
                t.sim.on_mutation("write", path, None)
            return r
        return real["os_write"](fd, data)
    os.write = s_write

    def s_fsync(fd):
        t = cur()
        if t is not None:
            if t.unwinding:
                raise SimKilled()
            t.sim.yield_(t)
            return None
        return real["fsync"](fd)
    os.fsync = s_fsync

    def s_listdir(path="."):
        t = cur()
        if t is None or not under(t.sim, path):
            return real["listdir"](path)
        return sorted(fs_op("list", real["listdir"], os.fspath(path), (path,), {}, False))
    os.listdir = s_listdir

    class _Scan:
        def __init__(self, it):
            self._l = sorted(it, key=lambda e: e.name)
            self._i = iter(self._l)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def s_scandir(path="."):
        t = cur()
        if t is None or not under(t.sim, path):
            return real["scandir"](path)

        def do():
            with real["scandir"](path) as it:
                return _Scan(it)
        return fs_op("list", do, os.fspath(path), (), {}, False)
    os.scandir = s_scandir

    class _VFS:
        pass

    def s_statvfs(path):
        t = cur()
        if t is None or not under(t.sim, path) or t.sim.disk is None:
            return real["statvfs"](path)
        t.sim.yield_(t)
        total, base = t.sim.disk["total"], t.sim.disk["base"]
        used = base + disk_content(t.sim.root)
        v = _VFS()
        v.f_frsize = v.f_bsize = 1
        v.f_blocks = total
        v.f_bfree = v.f_bavail = max(0, total - used)
        v.f_files = v.f_ffree = v.f_favail = 1000000
        return v
    os.statvfs = s_statvfs

    import shutil
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    for n in ("_HAS_FCOPYFILE",):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
    # rmtree chooses its implementation at call time through _use_fd_functions
    shutil.rmtree.avoids_symlink_attacks = False

    def s_disk_usage(path):
        v = os.statvfs(path)
        total = v.f_blocks * v.f_frsize
        free = v.f_bavail * v.f_frsize
        return shutil._ntuple_diskusage(total, (v.f_blocks - v.f_bfree) * v.f_frsize, free)
    shutil.disk_usage = s_disk_usage


def disk_content(root):
    """What the simulated disk holds beyond its fixed part: everything but databases, locks and
    settings, whose (page-rounded) sizes would drown files of a few kB."""
    used = 0
    for d, _, fs in _real_walk(root):
        for f in fs:
            if f.endswith((".yaml", ".lock")) or ".db" in f:
                continue
            try:
                used += real["stat"](os.path.join(d, f)).st_size
            except OSError:
                pass
    return used


def _real_walk(top):
    """os.walk on the real functions (for oracles and the virtual disk)."""
    stack = [top]
    while stack:
        d = stack.pop()
        try:
            with real["scandir"](d) as it:
                ents = sorted(it, key=lambda e: e.name)
        except OSError:
            continue
        ds, fs = [], []
        for e in ents:
            if e.is_dir(follow_symlinks=False):
                ds.append(e.name)
            else:
                fs.append(e.name)
        yield d, ds, fs
        stack.extend(os.path.join(d, x) for x in reversed(ds))


# ------------------------------------------------------------------------------- time

class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, real["datetime"])

    def __subclasscheck__(cls, c):
        return issubclass(c, real["datetime"])


def _install_time():
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
              "sleep", "localtime", "gmtime"):
        real["time." + n] = getattr(time, n)

    def s_time():
        s = _sim()
        return s.wall() if s else real["time.time"]()

    def s_time_ns():
        s = _sim()
        return int(s.wall() * 1e9) if s else real["time.time_ns"]()

    def s_mono():
        s = _sim()
        return s.now() + 1000.0 if s else real["time.monotonic"]()

    def s_mono_ns():
        s = _sim()
        return int((s.now() + 1000.0) * 1e9) if s else real["time.monotonic_ns"]()

    def s_sleep(dt):
        t = cur()
        if t is None:
            return real["time.sleep"](dt)
        if t.unwinding:
            raise SimKilled()
        t.sim.sleep(dt)

    def s_localtime(secs=None):
        s = _sim()
        return real["time.localtime"](s.wall() if s and secs is None else secs)

    def s_gmtime(secs=None):
        s = _sim()
        return real["time.gmtime"](s.wall() if s and secs is None else secs)

    time.time, time.time_ns = s_time, s_time_ns
    time.monotonic = time.perf_counter = s_mono
    time.monotonic_ns = time.perf_counter_ns = s_mono_ns
    time.sleep = s_sleep
    time.localtime, time.gmtime = s_localtime, s_gmtime

    RD = _dt.datetime
    real["datetime"] = RD

    class datetime(RD, metaclass=_DTMeta):
        @classmethod
        def now(cls, tz=None):
            s = _sim()
            if s is None:
                return RD.now(tz)
            x = s.wall()
            return RD.fromtimestamp(x - x % s.coarse if s.coarse else x, tz)

        @classmethod
        def utcnow(cls):
            s = _sim()
            if s:
                return RD.fromtimestamp(s.wall(), _dt.timezone.utc).replace(tzinfo=None)
            return RD.now(_dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

        def __new__(cls, *a, **k):
            return RD(*a, **k)
    datetime.__module__ = "datetime"
    datetime.__qualname__ = "datetime"
    _dt.datetime = datetime


# ------------------------------------------------------------------------------- threads

def _install_threads():
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock

    def after_fork():   # a worker of the campaign: threading has made itself a new one, of ours
        threading._active_limbo_lock = _thread.RLock()
    os.register_at_fork(after_in_child=after_fork)
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    # monotonic time read by Condition.wait_for, Semaphore, queue
    threading._time = time.monotonic
    queue.time = time.monotonic

    T = threading.Thread
    real["Thread.start"], real["Thread.join"], real["Thread.is_alive"] = T.start, T.join, T.is_alive

    def start(self):
        t = cur()
        if t is None:
            return real["Thread.start"](self)
        if t.unwinding:
            raise SimKilled()
        if self._started.is_set() or getattr(self, "_simt", None) is not None:
            raise RuntimeError("threads can only be started once")
        sess = t.session
        sim = t.sim
        sess.nthreads += 1
        name = f"{sess.name}/x{sess.nthreads}"

        def body():
            me = cur()
            self._ident = _thread.get_ident()
            self._started._flag = True
            threading._active[self._ident] = self
            try:
                self.run()
            except SimKilled:
                raise
            except SystemExit:
                pass
            except BaseException as e:  # noqa
                import traceback
                sim.event("uncaught", type(e).__name__)
                if not me.killed:
                    sess.uncaught.append((name, type(e).__name__, str(e)[:300],
                                          "".join(traceback.format_exception(e))[-2000:]))
            finally:
                threading._active.pop(self._ident, None)
                self._is_stopped = True
        self._simt = sim.spawn(name, sess, body, daemon=bool(self.daemon), foreground=False)
        self._simt.pythread = self
        sess.threads.append(self._simt)
        sim.yield_(t)

    def join(self, timeout=None):
        st = getattr(self, "_simt", None)
        t = cur()
        if st is None or t is None:
            return real["Thread.join"](self, timeout)
        if t.unwinding:
            raise SimKilled()
        deadline = None if timeout is None else t.sim.now() + timeout
        while st.state != "done":
            left = None if deadline is None else deadline - t.sim.now()
            if left is not None and left <= 0:
                return
            t.sim.block(("join", st.id), left)

    def is_alive(self):
        st = getattr(self, "_simt", None)
        if st is None:
            return real["Thread.is_alive"](self)
        return st.state != "done"

    T.start, T.join, T.is_alive = start, join, is_alive

    real["current_thread"] = threading.current_thread

    def current_thread():
        t = cur()
        if t is not None:
            if t.pythread is None:
                class _D:
                    name = t.name
                    daemon = False
                    ident = t.ident

                    def is_alive(self):
                        return True

                    def getName(self):
                        return self.name
                t.pythread = _D()
            return t.pythread
        return real["current_thread"]()
    threading.current_thread = current_thread
    threading.currentThread = current_thread


# ------------------------------------------------------------------------------- sqlite

def _install_sqlite():
    import sqlite3
    real["sqlite3.connect"] = sqlite3.connect
    BUSY = 5.0

    def guarded(conn, what, fn):
        t = cur()
        if t is None:
            return fn()
        sim = t.sim
        if t.unwinding or (conn._sess is not None and conn._sess.dead):
            raise SimKilled()
        if t is not conn._t:
            raise sqlite3.ProgrammingError(
                "SQLite objects created in a thread can only be used in that same thread.")
        sim.yield_(t)
        p = sim.faults.decide(t, "db." + what, _db_menu) if t.session is not None else None
        if p is not None:
            if p["k"] == "kill" and p["when"] == "before":
                _kill(t, "before")
            if p["k"] == "err":
                sim.count_fault("db:" + p["e"])
                raise sqlite3.OperationalError(p["e"])
        deadline = sim.now() + BUSY
        while True:
            try:
                r = fn()
                break
            except sqlite3.OperationalError as e:
                if "locked" not in str(e) and "busy" not in str(e):
                    raise
                if sim.now() >= deadline:
                    sim.probe("db-busy-timeout")
                    raise
                sim.probe("db-busy-wait")
                sim.sleep(0.002)
        if p is not None and p["k"] == "kill" and p["when"] == "after":
            _kill(t, "after")
        return r

    def _db_menu(rng):
        x = rng.random()
        if x < 0.35:
            return {"k": "kill", "when": "before"}
        if x < 0.7:
            return {"k": "kill", "when": "after"}
        return {"k": "err", "e": rng.choice(["database is locked", "disk I/O error",
                                             "database or disk is full"])}

    C = sqlite3.Connection

    class SimCursor(sqlite3.Cursor):
        def execute(self, *a):
            conn = self.connection
            return guarded(conn, "exec", lambda: sqlite3.Cursor.execute(self, *a))

        def executemany(self, *a):
            conn = self.connection
            return guarded(conn, "exec", lambda: sqlite3.Cursor.executemany(self, *a))

    class SimConnection(C):
        def cursor(self, factory=SimCursor):
            c = C.cursor(self, factory)
            self._cursors.append(c)
            if len(self._cursors) > 64:
                del self._cursors[:32]
            return c

        def execute(self, *a):
            return self.cursor().execute(*a)

        def executemany(self, *a):
            return self.cursor().executemany(*a)

        def executescript(self, s):
            return guarded(self, "exec", lambda: C.executescript(self, s))

        def commit(self):
            if not self.in_transaction:
                return
            r = guarded(self, "commit", lambda: C.commit(self))
            self._touch()
            return r

        def _touch(self):
            """Modification times in simulated time (that of the directory because of the journal)."""
            t = cur()
            if t is not None:
                x = t.sim.wall()
                for p in (self._path, os.path.dirname(self._path)):
                    try:
                        real["utime"](p, (x, x))
                    except OSError:
                        pass

        def rollback(self):
            t = cur()
            if t is not None and t.unwinding:
                raise SimKilled()
            return C.rollback(self)

        def __enter__(self):
            return self

        def __exit__(self, et, ev, tb):
            t = cur()
            if t is not None and t.unwinding:
                return False
            if et is None:
                try:
                    self.commit()
                except SimKilled:
                    raise
                except BaseException:
                    C.rollback(self)
                    raise
            else:
                C.rollback(self)
            return False

        def close(self):
            t = cur()
            if t is not None and t.unwinding:
                return
            return C.close(self)

        def _reap(self):
            for c in self._cursors:
                try:
                    sqlite3.Cursor.close(c)
                except Exception:
                    pass
            try:
                C.rollback(self)
            except Exception:
                pass
            try:
                C.close(self)
            except Exception:
                pass

    def s_connect(database, *a, **k):
        t = cur()
        if t is None or not under(t.sim, database):
            return real["sqlite3.connect"](database, *a, **k)
        if t.unwinding:
            raise SimKilled()
        k = dict(k)
        k["timeout"] = 0
        k["check_same_thread"] = False
        k["factory"] = SimConnection

        def do():
            return real["sqlite3.connect"](database, *a, **k)
        new = not _exists(database)
        conn = fs_op("open-w", do, os.fspath(database), (), {}, False)
        conn._path = os.fspath(database)
        if new:
            conn._touch()
        conn._t = t
        conn._sess = t.session
        conn._cursors = []
        if t.session is not None:
            t.session.conns.append(conn)
        # no fsync: kills are process kills, not power failures
        try:
            C.execute(conn, "PRAGMA synchronous=OFF")
        except sqlite3.OperationalError:
            pass              # locked just now: slower, nothing else
        return conn
    sqlite3.connect = s_connect


# ------------------------------------------------------------------------------- file locks

def _install_filelock():
    import filelock

    class SimFileLock:
        """Stands for filelock.FileLock (flock): advisory exclusive lock on the inode the path
        names, re-entrant per instance, released by close or by the death of the process, file
        left in place; a lock won on an unlinked inode is retried (as filelock>=3.? does)."""

        def __init__(self, lock_file, timeout=-1, mode=0o644, thread_local=True, *, blocking=True,
                     **kw):
            self.lock_file = os.fspath(lock_file)
            self.timeout = timeout
            self.blocking = blocking
            self._n = 0
            self._fd = None
            self._key = None

        @property
        def is_locked(self):
            return self._n > 0

        def acquire(self, timeout=None, poll_interval=0.05, *, poll_intervall=None, blocking=None,
                    cancel_check=None):
            t = cur()
            if timeout is None:
                timeout = self.timeout
            if blocking is None:
                blocking = self.blocking
            if t is None:
                self._n += 1
                return _Proxy(self)
            if t.unwinding:
                raise SimKilled()
            if self._n:
                self._n += 1
                return _Proxy(self)
            sim = t.sim
            d = os.path.dirname(self.lock_file)
            if d and not os.path.exists(d):
                os.makedirs(d, exist_ok=True)
            deadline = None if timeout is None or timeout < 0 else sim.now() + timeout
            while True:
                try:
                    fd = os.open(self.lock_file, os.O_RDWR | os.O_CREAT, 0o644)
                except FileNotFoundError:
                    raise
                st = os.fstat(fd)
                key = (st.st_dev, st.st_ino)
                if key not in sim.flocks:
                    sim.flocks[key] = (t.session, self)
                    if t.session is not None:
                        t.session.flocks.add(key)
                    if os.fstat(fd).st_nlink == 0:
                        self._unlock(sim, t, key)
                        os.close(fd)
                        continue
                    self._fd, self._key = fd, key
                    self._n = 1
                    sim.event("flock", os.path.basename(self.lock_file)[-12:])
                    return _Proxy(self)
                os.close(fd)
                sim.probe("flock-contended")
                if not blocking:
                    raise filelock.Timeout(self.lock_file)
                left = None if deadline is None else deadline - sim.now()
                if left is not None and left <= 0:
                    raise filelock.Timeout(self.lock_file)
                sim.block("flock", left)

        @staticmethod
        def _unlock(sim, t, key):
            sim.flocks.pop(key, None)
            if t.session is not None:
                t.session.flocks.discard(key)
            sim.wake_all("flock")

        def release(self, force=False):
            t = cur()
            if self._n == 0:
                return
            self._n -= 1
            if force:
                self._n = 0
            if self._n:
                return
            if t is None or t.unwinding:
                return
            fd, key = self._fd, self._key
            self._fd = self._key = None
            self._unlock(t.sim, t, key)
            os.close(fd)
            t.sim.yield_(t)

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class _Proxy:
        def __init__(self, lock):
            self.lock = lock

        def __enter__(self):
            return self.lock

        def __exit__(self, *a):
            self.lock.release()

    filelock.FileLock = SimFileLock
    filelock.UnixFileLock = SimFileLock

    import fcntl
    real["flock"] = fcntl.flock


# ------------------------------------------------------------------------------- randomness

class C_dummy:
    pass


def _install_random():
    import tempfile
    real["urandom"] = os.urandom

    def s_urandom(n):
        s = _sim()
        if s is None:
            return real["urandom"](n)
        return s.entropy.randbytes(n)
    os.urandom = s_urandom
    import random as _random
    _random._urandom = s_urandom

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            s = _sim()
            if s is None:
                return "r%08x" % (int.from_bytes(real["urandom"](4), "big"),)
            s.ntemp += 1
            return "t%06d" % s.ntemp
    tempfile._name_sequence = Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence

    # mkdtemp/mkstemp call os.mkdir/os.open: seamed. Register directories for exit time.
    TD = tempfile.TemporaryDirectory
    real["TD.init"] = TD.__init__

    def td_init(self, *a, **k):
        real["TD.init"](self, *a, **k)
        t = cur()
        if t is not None and t.session is not None:
            t.session.finalizers.append(self._finalizer)
    TD.__init__ = td_init
    real["gettempdir"] = tempfile.gettempdir

    def s_gettempdir():
        s = _sim()
        return os.path.join(s.root, "tmp") if s else real["gettempdir"]()
    tempfile.gettempdir = s_gettempdir

    import atexit
    import weakref
    weakref.finalize(C_dummy(), int)     # its exit hook is registered with the real atexit, once
    real["atexit.register"] = atexit.register

    def s_atexit(f, *a, **k):
        t = cur()
        if t is not None and t.session is not None and not t.session.booting:
            t.session.atexit.append((f, a, k))
            return f
        return real["atexit.register"](f, *a, **k)
    atexit.register = s_atexit


_installed = False

THIRD_PARTY = ["numpy", "scipy", "scipy.sparse", "scipy.sparse.linalg", "yaml", "json", "requests",
               "urllib3", "urllib3.exceptions", "urllib3.response", "multiurl", "filelock", "tqdm",
               "tqdm.auto", "dateutil.parser", "pytz", "gzip", "zipfile", "tempfile", "shutil",
               "sqlite3", "concurrent.futures", "concurrent.futures.thread", "queue", "encodings.idna",
               "email.message", "http.client", "http.cookiejar", "netrc", "importlib.metadata"]
OPTIONAL = ["pandas", "xarray", "dask", "dask.array", "dask.threaded", "earthkit.data", "mir"]


def install(optional=()):
    """Patch the interpreter. Order matters: locks before third parties (so that their locks are
    ours), clocks and files after them."""
    global _installed
    import importlib
    if _installed:
        for m in optional:
            _try_import(m)
        return
    _installed = True
    for m in ("concurrent.futures.thread", "requests", "urllib3", "filelock", "multiurl", "dask",
              "xarray", "numpy"):
        if m in sys.modules:
            raise core.HarnessError(f"{m} imported before the seams were installed")
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    _install_threads()
    for m in THIRD_PARTY:
        importlib.import_module(m)
    for m in optional:
        _try_import(m)
    import tqdm
    tqdm.tqdm.monitor_interval = 0

    class NoLock:       # one per process in reality; progress bars are not under test
        def acquire(self, *a, **k):
            return True

        def release(self):
            pass

        def __enter__(self):
            return True

        def __exit__(self, *a):
            pass
    tqdm.tqdm.set_lock(NoLock())
    _install_time()
    _install_fs()
    _install_random()
    _install_sqlite()
    _install_filelock()
    from . import net
    net.install()


def _try_import(m):
    import importlib
    try:
        importlib.import_module(m)
        return True
    except Exception:
        return False

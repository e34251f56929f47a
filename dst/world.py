"""A simulated world: scheduler + file system root + server + sessions."""
import hashlib
import os
import random
import shutil
import sys

from . import core, seams, session
from .core import Sim, SimKilled, cur
from .session import Session


def scratch_base():
    b = os.environ.get("DST_SCRATCH")
    if b:
        return b
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    return "/tmp"


_root = None


def make_root(tag=None):
    """A scratch root of constant length, so that paths never influence a run."""
    global _root
    if _root is None:
        pid = os.getpid()
        _root = os.path.join(scratch_base(), "dst%08d" % (pid % 100000000))
        _real_rmtree(_root)
        os.makedirs(_root)
    return _root


def drop_root():
    global _root
    if _root is not None:
        _real_rmtree(_root)
        _root = None


def _real_rmtree(p):
    shutil.rmtree(p, ignore_errors=True)


class World(Sim):
    def __init__(self, plan, step_cap=None, time_cap=None):
        kw = {}
        if step_cap:
            kw["step_cap"] = step_cap
        if time_cap:
            kw["time_cap"] = time_cap
        super().__init__(plan.get("sched", {}), **kw)
        self.plan = plan
        self.root = os.path.join(make_root(), "w")
        _real_rmtree(self.root)
        os.makedirs(os.path.join(self.root, "tmp"))
        os.makedirs(os.path.join(self.root, "home"))
        self.faults = seams.Faults(plan.get("faults"))
        self.bufsize = plan.get("bufsize", 8192)
        self.server = None
        self.disk = None
        self.coarse = plan.get("coarse")     # resolution of datetime.now()
        self.flocks = {}
        self.fds = {}
        self.sessions = []
        self.ops = []
        self.entropy = random.Random(plan.get("seed", 0) ^ 0x5EED)
        self.ntemp = 0
        self.boot_busy = False
        self.disk_full_ops = 0
        self.canary_check = None
        self.on_mutation = None
        self.fs_mutations = 0
        self.fault_counts = {}
        self.on_switch = self._switch

    def count_fault(self, k):
        self.fault_counts[k] = self.fault_counts.get(k, 0) + 1

    def _switch(self, old, new):
        s = new.session
        if s is not None and s is not session._active:
            session.activate(s)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def norm(self, s):
        return str(s).replace(self.root, "$R")

    # -- sessions
    def session(self, name, env=None, config=None, home=None):
        e = {"HOME": home or self.path("home")}
        e.update(env or {})
        s = Session(self, name, e)
        return s

    def launch(self, name, roles, env=None, setup=None, teardown=None, clean_exit=True):
        """Start a session: a main thread boots the package, runs ``setup(sess)``, starts one
        thread per (role, func(sess)), joins them, runs ``teardown(sess)`` and exits."""
        s = self.session(name, env)

        def main():
            s.boot()
            if setup:
                setup(s)
            ts = [s.spawn(r, (lambda f=f: f(s))) for r, f in roles]
            for t in ts:
                while t.state != "done":
                    self.block(("join", t.id))
            if teardown:
                teardown(s)
            if clean_exit:
                s.exit()
            else:
                s.done = True
                self.wake_all(("session", s.name))
        s.done = False
        s.main = s.spawn("main", main)
        return s

    def wait(self, s):
        while not (s.dead or s.done):
            self.block(("session", s.name))

    def do(self, desc, fn, catch=True):
        """Run one client operation and record it. Returns the Op."""
        t = cur()
        self.step += 1
        op = Op(t.name, desc, self.step, self.now())
        self.ops.append(op)
        t.op = op
        self.event("op", desc)
        try:
            op.result = fn()
            op.ok = True
        except Exception as e:
            if not catch:
                raise
            op.error = e
            op.etype = type(e).__name__
            op.emsg = str(e)
        finally:
            t.op = None
        self.step += 1
        op.ret, op.tret = self.step, self.now()
        self.event("ret", op.ok, op.etype)
        return op

    def faulted(self, op):
        """A fault was injected (anywhere) while op was running."""
        return any(op.inv <= s <= op.ret for s, _, _ in self.fault_steps)

    def settle(self, dt=0.5):
        """Let background threads run until they block."""
        self.sleep(dt)

    # -- run
    def play(self, driver):
        session.install_finder()
        session.set_granularity(self.plan.get("gran", "line"))
        random.seed(self.plan.get("seed", 0))
        import numpy as np
        np.random.seed(self.plan.get("seed", 0) & 0xFFFFFFFF)
        home = os.environ.get("HOME")
        saved_env = dict(os.environ)
        for k in list(os.environ):
            if k.startswith("EARTHKIT_REGRID"):
                del os.environ[k]
        os.environ["TMPDIR"] = self.path("tmp")
        os.environ["no_proxy"] = "*"
        out, err = sys.stdout, sys.stderr
        sink = _Sink()
        sys.stdout = sys.stderr = sink
        try:
            self.spawn("driver", None, driver)
            self.run()
        finally:
            sys.stdout, sys.stderr = out, err
            session.activate(None)
            for s in self.sessions:
                for fin in s.finalizers:
                    fin.detach()
                for c in s.conns:
                    c._reap()
                for fd in s.fds:
                    try:
                        seams.real["os_close"](fd)
                    except OSError:
                        pass
                s.close_files()
            for k in list(os.environ):
                if k not in saved_env:
                    del os.environ[k]
            for k, v in saved_env.items():
                if os.environ.get(k) != v:
                    os.environ[k] = v
            core._cleanup_thread_maps()
        return self.outcome

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).replace(self.root, "$R").encode())
        h.update(repr((self.step, self.switches, self.outcome, round(self.extra, 6))).encode())
        return h.hexdigest()[:16]


class Op:
    __slots__ = ("thread", "desc", "inv", "ret", "tinv", "tret", "ok", "result", "error", "etype",
                 "emsg", "touched", "requests", "extra")

    def __init__(self, thread, desc, inv, tinv):
        self.thread, self.desc, self.inv, self.tinv = thread, desc, inv, tinv
        self.ret = self.tret = None
        self.ok = False
        self.result = self.error = self.etype = self.emsg = None
        self.touched = []
        self.requests = []
        self.extra = None

    def __repr__(self):
        r = "ok" if self.ok else f"{self.etype}({str(self.emsg)[:120]})"
        return f"[{self.inv}-{self.ret} {self.thread}: {self.desc} -> {r}]"


class _Sink:
    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")

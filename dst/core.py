"""Deterministic scheduler: simulated threads, virtual time, locks.

Simulated threads are real OS threads of which exactly one runs at any time (the one holding the
"baton"). Which one runs next is decided by the plan's schedule at *yield points*: every line (or
instruction) of repository code and every seam operation. Nothing here reads a real clock or an
unseeded random source.
"""
import _thread
import sys
import threading

_get_ident = _thread.get_ident
_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread

SIM = None          # the running simulation
_BY_IDENT = {}      # OS thread ident -> SimThread


class SimKilled(BaseException):
    """Raised in the threads of a killed session (and of a finished run)."""


class HarnessError(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        if SIM is not None and SIM.harness_error is None:
            SIM.harness_error = repr(a)


class Violation(Exception):
    def __init__(self, prop, kind, detail):
        super().__init__(f"{prop}/{kind}: {detail}")
        self.prop, self.kind, self.detail = prop, kind, detail


def cur():
    """The simulated thread we are in, or None."""
    return _BY_IDENT.get(_get_ident())


class SimThread:
    __slots__ = ("hold", "sim", "id", "name", "session", "daemon", "func", "gate", "state", "wait_key",
                 "wake_at", "timed_out", "killed", "unwinding", "unwind_ops", "exc", "counts",
                 "noyield", "ident", "prio", "foreground", "pythread", "return_to", "result", "op")

    def __init__(self, sim, name, session, func, daemon=False, foreground=True):
        self.sim = sim
        self.id = len(sim.threads)
        self.name = name
        self.session = session
        self.func = func
        self.daemon = daemon
        self.foreground = foreground
        self.gate = _real_allocate_lock()
        self.gate.acquire()
        self.state = "new"
        self.wait_key = None
        self.wake_at = None
        self.timed_out = False
        self.killed = False
        self.unwinding = False
        self.unwind_ops = 0
        self.exc = None
        self.counts = {}
        self.noyield = 0
        self.hold = 0
        self.ident = None
        self.prio = 0
        self.pythread = None
        self.return_to = None
        self.result = None
        self.op = None

    def __repr__(self):
        return f"<{self.id}:{self.name} {self.state}>"

    def _bootstrap(self):
        self.gate.acquire()
        self.ident = _get_ident()
        _BY_IDENT[self.ident] = self
        sim = self.sim
        try:
            if not self.killed:
                self.func()
            else:
                self.unwinding = True
        except SimKilled:
            pass
        except BaseException as e:  # noqa
            self.exc = e
            if not self.killed:
                sim.on_thread_exception(self, e)
        finally:
            self.state = "done"
            sim._thread_finished(self)
            _BY_IDENT.pop(self.ident, None)
            sim._leave(self)


class Sched:
    """Schedule strategies. ``dev`` collects the deviations from the default policy
    (stay on the current thread; at a blocking point take the lowest runnable id)."""

    def __init__(self, spec):
        import random
        self.spec = spec
        self.mode = spec.get("mode", "serial")
        self.rng = random.Random(spec.get("seed", 0))
        self.dev = []
        self.p = spec.get("p", 0.01)
        self.next_pre = 1 << 60
        self.loc = None
        if self.mode == "rand":
            self.next_pre = self._geo()
        elif self.mode == "loc":         # stop threads at chosen places of the code, others go on for a while
            self.loc = (spec["m"], spec["r"])
            self.left = spec.get("n", 40)
            self.next_pre = self._geo()
        elif self.mode == "pct":
            n = spec.get("n", 3000)
            self.points = sorted(self.rng.randrange(1, n) for _ in range(spec.get("d", 3)))
            self.low = 0
            self.next_pre = 0
        elif self.mode == "trace":
            self.trace = {s: t for s, t in spec.get("dev", ())}
            self.order = sorted(self.trace)
            self.oi = 0
            self.next_pre = self.order[0] if self.order else 1 << 60

    def _geo(self):
        if self.p <= 0:
            return 1 << 60
        import math
        return 1 + int(math.log(max(1e-12, 1.0 - self.rng.random())) / math.log(1.0 - self.p))

    def new_thread(self, sim, t):
        if self.mode == "pct":
            t.prio = 1000 + self.rng.random()
            self.next_pre = 0

    def at_loc(self, sim, t):
        """Thread t is at one of the chosen places."""
        if self.left <= 0 or t.noyield or t.unwinding or len(sim.runnable) < 2:
            return
        self.left -= 1
        if self.rng.random() < 0.6:
            t.hold = sim.step + self.rng.choice((30, 200, 1000, 5000))
            self.next_pre = 0
            sim._slow(t)

    def free(self, sim, runnable):
        c = [x for x in runnable if x.hold <= sim.step]
        if not c:
            n = min(runnable, key=lambda x: x.hold)
            n.hold = 0
            return [n]
        return c

    def preempt(self, sim, t, runnable):
        """At a yield point with step >= next_pre. Returns the thread to run."""
        m = self.mode
        n = t
        if m == "loc":
            c = self.free(sim, runnable)
            n = c[self.rng.randrange(len(c))]
            self.next_pre = sim.step + self._geo()
        if m == "rand":
            self.next_pre = sim.step + self._geo()
            if len(runnable) > 1:
                n = runnable[self.rng.randrange(len(runnable))]
        elif m == "pct":
            while self.points and sim.step >= self.points[0]:
                self.points.pop(0)
                self.low -= 1
                t.prio = self.low
            n = max(runnable, key=lambda x: x.prio)
            self.next_pre = self.points[0] if self.points else 1 << 60
        elif m == "trace":
            tid = self.trace.get(sim.step)
            self._advance(sim)
            if tid is not None:
                for x in runnable:
                    if x.id == tid:
                        n = x
        if n is not t:
            self.dev.append([sim.step, n.id])
        return n

    def _advance(self, sim):
        while self.oi < len(self.order) and self.order[self.oi] <= sim.step:
            self.oi += 1
        self.next_pre = self.order[self.oi] if self.oi < len(self.order) else 1 << 60

    def at_block(self, sim, runnable):
        m = self.mode
        d = n = runnable[0]
        if m == "loc":
            c = self.free(sim, runnable)
            n = c[self.rng.randrange(len(c))]
        elif m == "rand":
            if len(runnable) > 1:
                n = runnable[self.rng.randrange(len(runnable))]
        elif m == "pct":
            n = max(runnable, key=lambda x: x.prio)
        elif m == "trace":
            tid = self.trace.get(sim.step)
            self._advance(sim)
            if tid is not None:
                for x in runnable:
                    if x.id == tid:
                        n = x
        if n is not d:
            self.dev.append([sim.step, n.id])
        return n

    def woke(self):
        if self.mode == "pct":
            self.next_pre = 0


class Sim:
    TICK = 1e-6
    coarse = None

    def __init__(self, sched, step_cap=400000, time_cap=30 * 86400.0, t0=1.7e9):
        self.threads = []
        self.sched = Sched(sched)
        self.step = 0
        self.extra = 0.0          # virtual time beyond steps*TICK
        self.wall_off = t0        # wall clock = mono + wall_off
        self.time_cap = time_cap
        self.step_cap = step_cap
        self.runnable = []
        self.timers = []          # threads with wake_at
        self.current = None
        self.main_gate = _real_allocate_lock()
        self.main_gate.acquire()
        self.outcome = None       # 'done' | 'deadlock' | 'steps' | 'time' | 'violation' | 'error'
        self.outcome_detail = None
        self.violations = []
        self.log = []
        self.switches = 0
        self.switch_hash = 0
        self.finishing = False
        self.on_switch = None     # called (old, new) on baton passing
        self.fg_left = 0
        self.ending = False
        self.probes = {}
        self.on_event = None
        self.harness_error = None
        self.fault_steps = []

    # ---- time
    def now(self):
        return self.extra + self.step * self.TICK

    def wall(self):
        return self.now() + self.wall_off

    # ---- log
    def event(self, *what):
        t = cur()
        self.log.append((self.step, t.name if t else "-", *what))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ---- thread creation
    def spawn(self, name, session, func, daemon=False, foreground=True):
        t = SimThread(self, name, session, func, daemon, foreground)
        self.threads.append(t)
        t.state = "runnable"
        if foreground:
            self.fg_left += 1
        _real_start_new_thread(t._bootstrap, ())
        self._add_runnable(t)
        self.sched.new_thread(self, t)
        return t

    def _add_runnable(self, t):
        r = self.runnable
        i = len(r)
        while i and r[i - 1].id > t.id:
            i -= 1
        r.insert(i, t)

    # ---- running
    def run(self):
        global SIM
        if SIM is not None:
            raise HarnessError("nested simulation")
        SIM = self
        try:
            if self.runnable:
                self._pass_to(None, self.sched.at_block(self, self.runnable))
                self.main_gate.acquire()
            else:
                self.outcome = "done"
            self._finish()
        finally:
            SIM = None
        return self.outcome

    def _finish(self):
        """Unwind every thread that is still alive."""
        self.finishing = True
        for t in list(self.threads):
            if t.state != "done":
                self._unwind_from_main(t)
        for t in self.threads:
            if t.state != "done":
                raise HarnessError(f"thread {t} did not unwind")

    def _unwind_from_main(self, t):
        t.killed = True
        t.return_to = self.main_gate
        if t.session is not None:
            t.session.dead = True
        if t in self.runnable:
            self.runnable.remove(t)
        self._set_current(t)
        t.gate.release()
        self.main_gate.acquire()

    def end(self, outcome, detail=None):
        """Stop the run (called from a simulated thread): does not return there."""
        if self.outcome is None:
            self.outcome = outcome
            self.outcome_detail = detail
        t = cur()
        if t is None:
            return
        if not t.unwinding:
            self.ending = True
            self.main_gate.release()
            t.gate.acquire()
            self._resumed(t)

    def violation(self, prop, kind, detail, stop=True):
        self.violations.append((prop, kind, str(detail)))
        self.log.append((self.step, "VIOLATION", prop, kind))
        if stop and not self.finishing:
            t = cur()
            if t is not None:
                if t.unwinding:
                    self.outcome = self.outcome or "violation"
                else:
                    self.end("violation")

    def blame(self, e):
        """The innermost function of the code under test that the exception came through."""
        from . import session
        tb, where = e.__traceback__, None
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(session._SRC):
                where = tb.tb_frame.f_code.co_qualname
            tb = tb.tb_next
        return where

    def on_thread_exception(self, t, e):
        import traceback
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        self.log.append((self.step, t.name, "thread-exception", type(e).__name__))
        if isinstance(e, Violation):
            self.violations.append((e.prop, e.kind, e.detail))
            self.outcome = self.outcome or "violation"
        elif isinstance(e, Exception) and not isinstance(e, HarnessError) and t.foreground and self.blame(e):
            # the code under test failed where the scenario needs it to work (opening a session,
            # setting its configuration, closing it): no property holds if it cannot even start
            self.violations.append((self.plan.get("prop"), "unexpected-failure:" + type(e).__name__,
                                    self.norm(f"{t.name}: {e} in {self.blame(e)}")[:1500]))
            self.outcome = self.outcome or "violation"
        elif t.foreground or isinstance(e, HarnessError):
            self.outcome = self.outcome or "error"
            self.outcome_detail = self.outcome_detail or tb
        else:
            self.thread_errors = getattr(self, "thread_errors", [])
            self.thread_errors.append((t.name, tb))

    # ---- baton
    def _set_current(self, t):
        old = self.current
        self.current = t
        if self.on_switch is not None and t is not None:
            self.on_switch(old, t)

    def _pass_to(self, me, t):
        """Give the baton to t; returns when me gets it back (me None: caller is main/leaving)."""
        self.switches += 1
        self.switch_hash = hash((self.switch_hash, t.id, self.step)) & 0xFFFFFFFFFFFFFFFF
        self._set_current(t)
        t.gate.release()
        if me is not None:
            me.gate.acquire()
            self._resumed(me)

    def _resumed(self, me):
        if me.killed and not me.unwinding:
            me.unwinding = True
            raise SimKilled()

    def _thread_finished(self, t):
        if t in self.runnable:
            self.runnable.remove(t)
        if t in self.timers:
            self.timers.remove(t)
        if t.foreground:
            self.fg_left -= 1
        self.wake_all(("join", t.id))

    def _leave(self, t):
        """The OS thread of t is about to end: give the baton away."""
        if t.return_to is not None:
            g = t.return_to
            g.release()
            return
        if self.outcome is not None or self.fg_left == 0:
            if self.outcome is None:
                self.outcome = "done"
            self.main_gate.release()
            return
        self.step += 1
        n = self._next_runnable()
        if n is None:
            self.outcome = self.outcome or "deadlock"
            self.outcome_detail = self.describe()
            self.main_gate.release()
            return
        self._pass_to(None, n)

    def describe(self):
        return "; ".join(f"{t.name}:{t.state}:{_key_str(t.wait_key)}" for t in self.threads
                         if t.state not in ("done",))

    def _fire_timers(self):
        if self.timers:
            now = self.now()
            for t in [t for t in self.timers if t.wake_at <= now]:
                self._wake(t, timed_out=True)

    def _next_runnable(self):
        self._fire_timers()
        if not self.runnable:
            if not self.timers:
                return None
            w = min(t.wake_at for t in self.timers)
            if w > self.now():
                self.extra += w - self.now()
                # guard against floating point
                while self.now() < w:
                    self.extra += 1e-9
            if self.now() > self.time_cap:
                return None
            self._fire_timers()
        return self.sched.at_block(self, self.runnable)

    def _wake(self, t, timed_out=False):
        if t.state != "blocked":
            return
        t.state = "runnable"
        t.wait_key = None
        t.timed_out = timed_out
        t.wake_at = None
        if t in self.timers:
            self.timers.remove(t)
        self._add_runnable(t)
        self.sched.woke()

    def wake_all(self, key):
        for t in self.threads:
            if t.state == "blocked" and t.wait_key == key:
                self._wake(t)

    # ---- yield points
    def line(self, t):
        """Fast path for LINE/INSTRUCTION events."""
        self.step += 1
        if self.step >= self.sched.next_pre and not t.noyield:
            self._slow(t)
        elif self.step > self.step_cap:
            self._slow(t)

    def yield_(self, t=None):
        if t is None:
            t = cur()
            if t is None:
                return
        if t.unwinding:
            return
        self.step += 1
        if t.noyield:
            return
        self._fire_timers()
        if self.step >= self.sched.next_pre:
            self._slow(t)

    def _slow(self, t):
        if t.unwinding:
            return
        if self.step > self.step_cap:
            self.end("steps", self.describe())
        self._fire_timers()
        n = self.sched.preempt(self, t, self.runnable)
        if n is not t:
            self._pass_to(t, n)

    def block(self, key, timeout=None):
        """Block the current thread until woken on key; returns False on timeout."""
        t = cur()
        if t.unwinding:
            raise SimKilled()
        if timeout is not None and timeout <= 0:
            self.yield_(t)
            return False
        self.step += 1
        if self.step > self.step_cap:
            self.end("steps", self.describe())
        t.state = "blocked"
        t.wait_key = key
        t.timed_out = False
        self.runnable.remove(t)
        if timeout is not None:
            t.wake_at = self.now() + timeout
            self.timers.append(t)
        n = self._next_runnable()
        if n is None:
            if self.now() > self.time_cap:
                self.outcome = self.outcome or "time"
            else:
                self.outcome = self.outcome or "deadlock"
            self.outcome_detail = self.outcome_detail or self.describe()
            self.main_gate.release()
            t.gate.acquire()
            self._resumed(t)
        elif n is not t:
            self._pass_to(t, n)
        return not t.timed_out

    def sleep(self, dt):
        t = cur()
        if dt <= 0:
            self.yield_(t)
            return
        self.block(("sleep", t.id), dt)

    # ---- killing
    def kill_threads(self, victims):
        """Unwind the given threads now (each runs its unwinding to the end, without yielding to
        others). If the current thread is a victim, SimKilled is raised in it at the end."""
        me = cur()
        mine = False
        for t in victims:
            if t is me:
                mine = True
                continue
            if t.state == "done":
                continue
            t.killed = True
            if t in self.runnable:
                self.runnable.remove(t)
            if t in self.timers:
                self.timers.remove(t)
            t.state = "unwinding"
            g = _real_allocate_lock()
            g.acquire()
            t.return_to = g
            self._set_current(t)
            t.gate.release()
            g.acquire()
            self._set_current(me)
        if mine:
            me.killed = True
            me.unwinding = True
            raise SimKilled()


def _key_str(k):
    if isinstance(k, tuple):
        return "/".join(str(x) for x in k)
    return getattr(k, "_simname", type(k).__name__)


# ------------------------------------------------------------------------------------- locks

_lock_seq = 0


class SimLock:
    """threading.Lock that blocks in the simulation when used by a simulated thread, and is a
    plain uncontended lock elsewhere."""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        t = cur()
        if t is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("simulated lock contended outside the simulation")
            self._locked = True
            return True
        sim = t.sim
        if t.unwinding:
            if self._locked:
                if not blocking:
                    return False
                raise SimKilled()
            self._locked = True
            return True
        sim.yield_(t)
        if self._locked:
            if not blocking:
                return False
            deadline = None if timeout is None or timeout < 0 else sim.now() + timeout
            while self._locked:
                left = None if deadline is None else deadline - sim.now()
                if left is not None and left <= 0:
                    return False
                sim.probe("lock-contended")
                sim.block(self, left)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            t = cur()
            if t is not None and t.unwinding:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        t = cur()
        if t is not None:
            t.sim.wake_all(self)
            t.sim.yield_(t)
        elif SIM is not None:
            SIM.wake_all(self)

    def locked(self):
        return self._locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    def __repr__(self):
        return f"<SimLock locked={self._locked}>"


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        return _get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        t = cur()
        if t is None:
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("simulated rlock contended outside the simulation")
            self._owner, self._count = me, 1
            return True
        sim = t.sim
        if t.unwinding:
            if self._owner is not None:
                if not blocking:
                    return False
                raise SimKilled()
            self._owner, self._count = me, 1
            return True
        sim.yield_(t)
        deadline = None if timeout is None or timeout < 0 else sim.now() + timeout
        while self._owner is not None:
            if not blocking:
                return False
            left = None if deadline is None else deadline - sim.now()
            if left is not None and left <= 0:
                return False
            sim.probe("lock-contended")
            sim.block(self, left)
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _get_ident():
            t = cur()
            if t is not None and t.unwinding:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            t = cur()
            if t is not None:
                t.sim.wake_all(self)
                t.sim.yield_(t)
            elif SIM is not None:
                SIM.wake_all(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count = 0
        self._owner = None
        t = cur()
        if t is not None:
            t.sim.wake_all(self)
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count = s[0]

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def _cleanup_thread_maps():
    _BY_IDENT.clear()

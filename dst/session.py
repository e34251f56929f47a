"""Simulated sessions (processes) and the loader that gives each its own copy of the package."""
import gc
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import zlib

from . import core, seams
from .core import SimKilled, cur

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "earthkit.regrid"
TOOL = 4                  # sys.monitoring tool id

_code_cache = {}          # path -> code
_repo_codes = []          # every code object of repository functions
_known = set()             # their ids
_SRC = os.path.join(REPO, "src", "earthkit", "regrid")
_gran = None
_places = {}


def package_dir():
    return os.path.join(REPO, "src", "earthkit", "regrid")


def _walk_codes(code, out):
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            out.append(c)
            _walk_codes(c, out)


def _load_code(path):
    c = _code_cache.get(path)
    if c is None:
        with seams.real.get("open", open)(path, "rb") as f:
            src = f.read()
        c = compile(src, path, "exec", dont_inherit=True)
        _code_cache[path] = c
        new = []
        _walk_codes(c, new)
        _repo_codes.extend(new)
        _known.update(map(id, [c, *new]))
        _apply_events(new)
    return c


def _apply_events(codes):
    E = sys.monitoring.events
    ev = {"line": E.LINE, "instr": E.INSTRUCTION, None: 0, "none": 0}[_gran]
    for c in codes:
        sys.monitoring.set_local_events(TOOL, c, ev)


def set_granularity(g):
    global _gran
    if sys.monitoring.get_tool(TOOL) is None:
        sys.monitoring.use_tool_id(TOOL, "dst")
        E = sys.monitoring.events
        sys.monitoring.register_callback(TOOL, E.LINE, _on_line)
        sys.monitoring.register_callback(TOOL, E.INSTRUCTION, _on_line)
        # Code objects made at run time: cloudpickle (used by dask's tokenize) rebuilds the functions of local classes
        sys.monitoring.register_callback(TOOL, E.PY_START, _on_start)
        sys.monitoring.set_events(TOOL, E.PY_START)
    if g != _gran:
        _gran = g
        _apply_events(_repo_codes)


def _on_start(code, pos):
    if code.co_filename.startswith(_SRC) and id(code) not in _known:
        _apply_events([code])
    return sys.monitoring.DISABLE


def _place(name):
    h = _places.get(name)
    if h is None:
        h = _places[name] = zlib.crc32(name.encode())
    return h


def _on_line(code, pos):
    t = core._BY_IDENT.get(core._get_ident())
    if t is None:
        return
    if t.unwinding:
        t.unwind_ops += 1
        if t.unwind_ops > 50000:
            raise SimKilled()
        return
    sim = t.sim
    sim.step += 1
    loc = sim.sched.loc
    if loc is not None and (_place(code.co_name) + pos) % loc[0] == loc[1]:
        sim.sched.at_loc(sim, t)
    if sim.step >= sim.sched.next_pre and not t.noyield:
        sim._slow(t)
    elif sim.step > sim.step_cap:
        sim._slow(t)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_load_code(self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname[len(PKG):].lstrip(".")
        base = os.path.join(package_dir(), *rel.split(".")) if rel else package_dir()
        init = os.path.join(base, "__init__.py")
        st = seams.real.get("stat", os.stat)
        try:
            st(init)
            f, pkg = init, True
        except OSError:
            f, pkg = base + ".py", False
            try:
                st(f)
            except OSError:
                if rel == "_version":
                    return None
                return None
        spec = importlib.machinery.ModuleSpec(fullname, _Loader(f), origin=f, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


_finder = None


def install_finder():
    global _finder
    if _finder is None:
        _finder = Finder()
        sys.meta_path.insert(0, _finder)
        try:
            import earthkit  # namespace package  # noqa
        except ImportError:
            import types
            m = types.ModuleType("earthkit")
            m.__path__ = [os.path.join(REPO, "src", "earthkit")]
            sys.modules["earthkit"] = m


def all_modules():
    out = []
    top = package_dir()
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ("__pycache__", "sphinxext", "conf"))
        for f in sorted(fs):
            if not f.endswith(".py") or f in ("testing.py", "_version.py"):
                continue
            rel = os.path.relpath(os.path.join(d, f), top)[:-3].replace(os.sep, ".")
            if rel == "__init__":
                out.append(PKG)
            elif rel.endswith(".__init__"):
                out.append(PKG + "." + rel[:-9])
            else:
                out.append(PKG + "." + rel)
    return out


_ALL = None
_active = None      # session whose modules are in sys.modules


def _is_ours(name):
    return name == PKG or name.startswith(PKG + ".")


def activate(sess):
    """Make sess the owner of sys.modules' earthkit.regrid entries and of the environment."""
    global _active
    if sess is _active:
        return
    mods = sys.modules
    old = _active
    names = [n for n in mods if n.startswith(PKG)]
    if old is not None:
        old.modules = {n: mods[n] for n in names if _is_ours(n)}
        for k in old.env:
            os.environ.pop(k, None)
    for n in names:
        if _is_ours(n):
            del mods[n]
    if sess is not None:
        mods.update(sess.modules)
        for k, v in sess.env.items():
            os.environ[k] = v
    ek = mods.get("earthkit")
    if ek is not None:
        top = mods.get(PKG)
        if top is not None:
            ek.__dict__["regrid"] = top
        else:
            ek.__dict__.pop("regrid", None)
    _active = sess


class Session:
    """One simulated process incarnation."""

    def __init__(self, sim, name, env=None):
        self.sim = sim
        self.name = name
        self.env = dict(env or {})
        self.modules = {}
        self.dead = False
        self.exited = False
        self.booting = False
        self.booted = False
        self.nofault = False
        self.threads = []
        self.nthreads = 0
        self.files = []
        self.fds = set()
        self.conns = []
        self.flocks = set()
        self.finalizers = []
        self.atexit = []
        self.uncaught = []
        self.on_dead = []
        sim.sessions.append(self)

    def __getattr__(self, n):
        # api shortcuts: sess.cache, sess.config ...
        if n.startswith("_"):
            raise AttributeError(n)
        raise AttributeError(n)

    def spawn(self, role, func, foreground=True):
        t = self.sim.spawn(f"{self.name}/{role}", self, func, foreground=foreground)
        self.threads.append(t)
        return t

    def boot(self):
        """Import the whole package (in the calling simulated thread of this session)."""
        global _ALL
        t = cur()
        assert t.session is self
        sim = self.sim
        while sim.boot_busy:
            sim.block("boot")
        sim.boot_busy = True
        self.booting = True
        nf, self.nofault = self.nofault, not sim.plan.get("boot_faults", False)
        try:
            if _ALL is None:
                _ALL = all_modules()
            import importlib
            importlib.import_module(PKG)
            t.noyield += 1
            try:
                for m in _ALL:
                    if m not in sys.modules:
                        try:
                            importlib.import_module(m)
                        except SimKilled:
                            raise
                        except ImportError:
                            pass
            finally:
                t.noyield -= 1
            self.booted = True
        finally:
            self.nofault = nf
            self.booting = False
            sim.boot_busy = False
            sim.wake_all("boot")
        sim.event("boot", self.name)

    def mod(self, name=""):
        n = PKG + ("." + name if name else "")
        if _active is self:
            return sys.modules[n]
        return self.modules[n]

    # -- end of life
    def _reap(self):
        """What the kernel does when the process is gone."""
        sim = self.sim
        for c in self.conns:
            c._reap()
        self.conns = []
        for fd in list(self.fds):
            sim.fds.pop(fd, None)
            try:
                seams.real["os_close"](fd)
            except OSError:
                pass
        self.fds.clear()
        for k in list(self.flocks):
            sim.flocks.pop(k, None)
        self.flocks.clear()
        sim.wake_all("flock")
        if sim.boot_busy and self.booting:
            self.booting = False
            sim.boot_busy = False
            sim.wake_all("boot")
        for fin in self.finalizers:
            fin.detach()
        for cb in self.on_dead:
            cb(self)

    def kill(self):
        """SIGKILL: nothing of the session runs any more; its durable state stays."""
        if self.dead:
            return
        self.dead = True
        sim = self.sim
        me = cur()
        others = [t for t in self.threads if t is not me and t.state != "done"]
        sim.kill_threads(others)
        self._reap()
        sim.wake_all(("session", self.name))
        if me is not None and me.session is self:
            me.killed = True
            me.unwinding = True
            raise SimKilled()

    def exit(self):
        """Normal interpreter exit, called by a thread of the session."""
        if self.dead:
            return
        t = cur()
        for f, a, k in reversed(self.atexit):
            try:
                f(*a, **k)
            except Exception:
                pass
        for fin in reversed(self.finalizers):
            try:
                fin()
            except Exception as e:
                self.sim.event("exit-finalizer-failed", type(e).__name__, str(e)[:200])
        self.dead = True
        self.exited = True
        others = [x for x in self.threads if x is not t and x.state != "done"]
        self.sim.kill_threads(others)
        self._reap()
        self.sim.wake_all(("session", self.name))
        self.sim.event("exit", self.name)

    def close_files(self):
        for f in self.files:
            try:
                import io
                io.FileIO.close(f)
            except Exception:
                pass
        self.files = []
        self.modules = {}

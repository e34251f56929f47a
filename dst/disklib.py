"""Clients, recorders and oracles for the disk cache."""
import hashlib
import json
import os
import random

from . import core, seams
from .core import cur

real = seams.real


class CreatorError(Exception):
    pass


class MatcherError(Exception):
    pass


# ------------------------------------------------------------------------- self-describing content

def content(key, nonce, size):
    h = json.dumps({"key": key, "nonce": nonce, "len": size}).encode()
    n = max(0, size - len(h) - 66)
    body = random.Random(f"{key}:{nonce}").randbytes(n)
    b = h + b"\n" + body
    return hashlib.sha256(b).hexdigest().encode() + b"\n" + b


def parse(b):
    """(key, nonce) of complete content, else None."""
    try:
        sha, rest = b.split(b"\n", 1)
        if hashlib.sha256(rest).hexdigest().encode() != sha:
            return None
        h = json.loads(rest.split(b"\n", 1)[0])
        return h["key"], h["nonce"]
    except Exception:
        return None


def read_file(p):
    try:
        with real["open"](p, "rb") as f:
            return f.read()
    except OSError:
        return None


class Creation:
    __slots__ = ("key", "nonce", "session", "sname", "thread", "start", "end", "ok", "killed", "target", "meta", "dir")


class Watch:
    """History of every file under the watched directories, one state per mutation."""

    def __init__(self, w):
        self.w = w
        self.hist = {}       # path -> [(step, content id or None, thread)]
        self.blobs = {}
        self.removed = {}    # path -> [(step, thread)]
        self.dirs = []
        self.outside = []
        self.allowed = []
        self.guard = None
        w.on_mutation = self

    def __call__(self, op, path, path2):
        w = self.w
        t = cur()
        if t is None or t.session is None:
            return
        for p in ((path, path2) if path2 else (path,)):
            if not any(p == d.rstrip("/") or p.startswith(d.rstrip("/") + "/") for d in self.allowed):
                self.outside.append((w.step, t.name, op, w.norm(p)))
        if op == "unlink":
            self.gone(path, t)
        elif op == "rename":
            self.gone(path, t)
            self.state(path2, t)
        elif op in ("write", "open-w"):
            self.state(path, t)

    def gone(self, path, t):
        self.removed.setdefault(path, []).append((self.w.step, t.name))
        h = self.hist.get(path)
        if h is not None:
            h.append((self.w.step, None, t.name))

    def state(self, path, t):
        if not any(path.startswith(d) for d in self.dirs):
            return
        b = read_file(path)
        if b is None:
            return
        i = hashlib.sha256(b).digest()
        self.blobs.setdefault(i, b)
        h = self.hist.setdefault(path, [])
        if not h or h[-1][1] != i:
            h.append((self.w.step, i, t.name))

    def states(self, path):
        return [(s, self.blobs[i], n) for s, i, n in self.hist.get(path, ()) if i is not None]


# ------------------------------------------------------------------------- keys

def make_keys(rng, n, kinds=("file",), sizes=(300, 4000)):
    keys = []
    for i in range(n):
        k = {"kind": rng.choice(kinds), "size": rng.randrange(*sizes)}
        x = rng.randrange(8)
        base = rng.randrange(3)
        if x == 0:
            k.update(owner="own", args=[base, "a"], ext=".cache")
        elif x == 1:
            k.update(owner="own", args=[str(base), "a"], ext=".cache")
        elif x == 2:
            k.update(owner="own", args=[base, "a"], ext=".bin")
        elif x == 3:
            k.update(owner="Own2", args=[base, "a"], ext=".cache")
        elif x == 4:
            k.update(owner="own", args={"x": base, "y": [1, 2]}, ext=".cache")
        elif x == 5:
            k.update(owner="own", args={"x": base, "y": [1, 3]}, ext=".cache")
        elif x == 6:
            k.update(owner="OWN", args=[base, "a"], ext=".cache")
        else:
            k.update(owner="own", args=[base, "a"], ext=".cache", extra=rng.choice(["v1", "v2"]))
        k["name"] = json.dumps([k["owner"], k["args"], k["ext"], k.get("extra")])
        if all(k["name"] != o["name"] for o in keys):
            keys.append(k)
    for i, k in enumerate(keys):
        if k["kind"] == "dl":
            k["url"] = f"http://srv.test/data/f{i}.bin"
    return keys


class Client:
    """Executes operations in sessions and records what happened."""

    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.keys = list(plan["keys"])
        self.watch = Watch(w)
        self.creations = []
        self.nonce = 0
        self.prop = plan["prop"]
        self.accesses = []

    # -- creators
    def creator(self, s, ki, o):
        w = self.w
        key = self.keys[ki]

        def create(target, args):
            t = cur()
            c = Creation()
            self.nonce += 1
            c.nonce = f"n{self.nonce}"
            c.key, c.session, c.sname, c.thread, c.start = ki, s, s.name, t.name, w.step
            c.target = target
            c.end = c.ok = c.meta = None
            c.killed = False
            c.dir = os.path.dirname(target)
            self.creations.append(c)
            w.event("create", ki, c.nonce)
            try:
                size = key["size"] + o.get("grow", 0)
                b = content(ki, c.nonce, size)
                if o.get("fail") == "start":
                    raise CreatorError(c.nonce)
                if key["kind"] == "dir":
                    import shutil
                    if os.path.exists(target):
                        shutil.rmtree(target)
                    os.makedirs(os.path.join(target, "sub"))
                    self._write(os.path.join(target, "a"), b, o)
                    if o.get("fail") == "mid":
                        raise CreatorError(c.nonce)
                    self._write(os.path.join(target, "sub", "b"), b, o)
                else:
                    self._write(target, b, o, c.nonce if o.get("fail") == "mid" else None)
                if o.get("fail") == "end":
                    raise CreatorError(c.nonce)
                c.meta = {"nonce": c.nonce} if not o.get("nometa") else None
                c.ok = True
                return c.meta
            finally:
                c.end = w.step
                c.killed = t.unwinding
                w.event("created", ki, c.nonce, c.ok)
        return create

    def _write(self, target, b, o, failnonce=None):
        import time
        n = o.get("chunks", 1)
        step = max(1, -(-len(b) // n))
        with open(target, "wb", **({"buffering": 0} if o.get("unbuf") else {})) as f:
            for i in range(0, len(b), step):
                d = b[i:i + step]
                while d:
                    k = f.write(d)
                    d = d[k:]
                if failnonce and i >= len(b) // 2 - step:
                    f.flush()
                    raise CreatorError(failnonce)
                if o.get("slow"):
                    time.sleep(o["slow"])

    # -- operations
    def op(self, s, o):
        return getattr(self, "op_" + o["op"])(s, o)

    def op_file(self, s, o):
        w = self.w
        ki = o["k"]
        key = self.keys[ki]
        n0 = len(self.creations)
        me = cur()
        forced = []
        force = None
        if o.get("force") == "yes":
            force = True
        elif o.get("force"):
            def force(args, path, owner_data):
                forced.append((args, path, owner_data))
                return o["force"] == "call-yes"
        if key["kind"] == "dl":
            dl = s.mod("utils.download").download_and_cache

            def f():
                return dl(key["url"], owner="url", force=force, maximum_retries=2, retry_after=1)
        else:
            cf = s.mod("utils.caching").cache_file
            create = self.creator(s, ki, o)

            args = key["args"]
            if isinstance(args, dict) and o.get("turn"):
                args = dict(reversed(args.items()))        # the same arguments
            kw = {"hash_extra": key["extra"]} if "extra" in key else {}

            def f():
                return cf(key["owner"], create, args, extension=key["ext"], force=force, **kw)
        op = w.do(("file", ki) + ((o["force"],) if o.get("force") else ()), f)
        mine = [c for c in self.creations[n0:] if c.thread == me.name]
        op.extra = {"c": "file", "k": ki, "o": o, "mine": mine, "s": s, "forced": forced, "path": op.result,
                    "got": None, "removable": None}
        if op.ok:
            self.check_return(op, key)
        else:
            self.check_error(op)
        return op

    def check_return(self, op, key):
        """C05: what came back is complete and of this key (unless it was removed since)."""
        w, prop = self.w, self.prop
        p = op.result
        ki = op.extra["k"]
        for c in op.extra["mine"]:
            if not c.ok:
                w.violation("C05", "error-swallowed", f"{op}: its creator {c.nonce} raised")
        if not isinstance(p, str):
            w.violation("C05", "no-path", f"{op} returned {p!r}")
            return
        gone = [x for x in self.watch.removed.get(p, ()) if x[0] >= op.inv]
        if key["kind"] == "dir":
            bs = [read_file(os.path.join(p, "a")), read_file(os.path.join(p, "sub", "b"))]
            if None in bs and not real["exists"](p):
                bs = [None]
        else:
            bs = [read_file(p)]
        for b in bs:
            if b is None:
                if not gone and not self.plan.get("removal"):
                    w.violation(prop if prop in ("C11", "C07") else "C05", "returned-missing", f"{op}: {w.norm(p)} does not exist")
                return
            r = parse(b)
            if r is None:
                w.violation(prop if prop in ("C07",) else "C05", "returned-incomplete", f"{op}: {w.norm(p)} has {len(b)} bytes, expected {key['size']}; "
                            f"history {[(s, len(x), n) for s, x, n in self.watch.states(p)][-6:]}")
                return
            if r[0] != ki:
                w.violation("C06", "wrong-key", f"{op}: content of key {r[0]}")
                return
            op.extra["got"] = r[1]

    def check_error(self, op):
        w, prop = self.w, self.prop
        o = op.extra["o"]
        mine = op.extra["mine"]
        bad = [c for c in mine if not c.ok]
        if bad and o.get("fail"):
            if op.etype != "CreatorError" or op.emsg != bad[-1].nonce:
                if not w.faulted(op):
                    w.violation("C05", "error-changed", f"{op}: creator raised {bad[-1].nonce}")
            return
        if w.faulted(op) or op.extra.get("excused"):
            return
        w.violation(prop, "unexpected-error", f"{op} {w.norm(tb(op.error))}")

    def admin(self, s, o, f):
        op = self.w.do((o["op"],) + ((o["m"],) if "m" in o else ()), f)
        op.extra = {"c": o["op"], "o": o, "s": s}
        return op

    def op_entries(self, s, o):
        return self.answer(self.admin(s, o, lambda: s.mod().cache.entries()))

    def op_size(self, s, o):
        return self.answer(self.admin(s, o, lambda: s.mod().cache.size()))

    def op_summary(self, s, o):
        return self.answer(self.admin(s, o, lambda: s.mod().cache.summary_dump_database()))

    def op_check(self, s, o):
        return self.answer(self.admin(s, o, lambda: s.mod().cache.check_size()))

    def op_tidy(self, s, o):
        # what a check killed before its evictions leaves: foreign files on record
        tidy = getattr(s.mod().cache, "_housekeeping", None)
        if tidy is not None:
            return self.answer(self.admin(s, o, lambda: tidy()))

    def op_dir(self, s, o):
        return self.answer(self.admin(s, o, lambda: s.mod().cache.directory()))

    def op_sleep(self, s, o):
        self.w.sleep(o["dt"])

    def op_jump(self, s, o):
        self.w.wall_off += o["dt"]
        self.w.event("clock-jump", o["dt"])
        self.w.count_fault("clock-jump")

    def op_rm(self, s, o):
        """The user deletes a finished file of the cache which nobody is requesting just now."""
        w = self.w
        ki = o["k"]
        ps = sorted({op.result for op in w.ops if op.extra and op.extra.get("k") == ki and op.ok and isinstance(op.result, str)})
        if not ps or any(op.ret is None and op.desc[:2] == ("file", ki) for op in w.ops):
            return
        for p in ps:
            if real["isdir"](p):
                import shutil
                real["rename"](p, w.path(f"trash{w.step}"))
                shutil.rmtree(w.path(f"trash{w.step}"))
            elif real["exists"](p):
                real["unlink"](p)
            else:
                continue
            w.event("removed", ki)
            self.watch.gone(p, cur())
            w.probe("removed-by-user")

    def matcher(self, o, seen):
        m = o["m"]

        def f(e):
            seen.append(e.get("path"))
            if m == "all":
                return True
            if m == "none":
                return False
            if m == "owner":
                return e["owner"] == "own"
            if m == "args":
                return "x" in e["args"] if isinstance(e["args"], dict) else False
            if m == "big":
                return (e["size"] or 0) > 2000
            if m == "meta":
                od = e["owner_data"]
                return isinstance(od, dict) and od.get("nonce", "n0")[-1] in "02468"
            if m == "slow":
                import time
                time.sleep(o["dt"])
                return False
            if m == "raise":
                raise MatcherError(o["id"])
            if m == "exit":
                raise SystemExit(o["id"])
            raise core.HarnessError(m)
        return f

    def op_purge(self, s, o):
        seen = []
        if "m" not in o:
            op = self.admin(s, o, lambda: s.mod().cache.purge())
        else:
            mt = self.matcher(o, seen)
            if o["m"] == "exit":
                def f():
                    try:
                        return s.mod().cache.purge(matcher=mt)
                    except SystemExit as e:
                        raise MatcherError(*e.args)
            else:
                def f():
                    return s.mod().cache.purge(matcher=mt)
            op = self.admin(s, o, f)
        op.extra["seen"] = seen
        return self.answer(op)

    def answer(self, op):
        """C12: the answer is of the right kind, the exception the caller's own."""
        w = self.w
        c = op.extra["c"]
        o = op.extra["o"]
        prop = self.prop
        if not op.ok:
            if c == "purge" and o.get("m") in ("raise", "exit") and op.etype == "MatcherError":
                if op.emsg != o["id"]:
                    w.violation("C12", "foreign-exception", f"{op}: own matcher raises {o['id']}")
                return op
            if op.etype == "MatcherError":
                w.violation("C12", "foreign-exception", f"{op}")
            elif not w.faulted(op):
                w.violation(prop, "unexpected-error", f"{op} {w.norm(tb(op.error))}")
            return op
        r = op.result
        managed = op.extra.get("managed", self.plan["conf"].get("policy", "user") != "off")
        bad = False
        if c == "entries":
            bad = managed and not (isinstance(r, list) and all(isinstance(e, dict) and "path" in e for e in r))
        elif c == "size":
            bad = managed and (isinstance(r, bool) or not isinstance(r, int))
        elif c == "summary":
            bad = managed and not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, int) for x in r))
        elif c == "dir":
            bad = not isinstance(r, str)
        elif c == "purge":
            bad = r is not None
            if o.get("m") in ("raise", "exit") and op.extra["seen"]:
                w.violation("C12", "exception-lost", f"{op}: the matcher raised {o['id']}")
        if bad and not self.plan.get("policy_changes"):
            w.violation("C12", "foreign-answer", f"{op} answered {str(r)[:300]}")
        return op


def tb(e):
    import traceback
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]

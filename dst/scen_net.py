"""Remote inventories: index checks, downloads, offline use, under network and disk faults (C13-C16)."""
import gzip
import hashlib
import io
import os

from . import disklib, inv, seams
from .disklib import Watch
from .net import Server
from .world import World

real = seams.real
SYS = "https://sites.ecmwf.int/repository/earthkit/regrid/db/1/"
TMP = (".tmp", ".lock", ".download", ".deleted", "-journal", ".db")
TRANSIENT = ["refused", "reset", "conn-timeout", "read-timeout", "500", "502", "503", "504", "429"]
RETRIES, RETRY_AFTER = 5, 10


# ------------------------------------------------------------------------------------ plans

def gen(rng, prop, tier):
    keys = [(i, o, m) for i in range(len(inv.GRIDS_IN)) for o in range(len(inv.GRIDS_OUT)) for m in inv.METHODS]
    base = rng.sample(keys, rng.choice([3, 4, 5]))
    mseed = rng.getrandbits(20)
    specs = [[i, o, m, rng.choice([30, 60, 150, 300]), mseed + n] for n, (i, o, m) in enumerate(base)]
    nv = rng.choice([1, 2, 2, 3])
    n0 = rng.randrange(1, len(specs)) if nv > 1 else rng.randrange(1, len(specs) + 1)
    cuts = sorted(rng.sample(range(n0, len(specs) + 1), min(nv - 1, len(specs) + 1 - n0))) if nv > 1 else []
    versions = [n0] + [max(c, n0) for c in cuts]
    srv = {"ranges": rng.choice([True, True, True, False, "ignored"]),
           "length": rng.choice(["length"] * 5 + ["chunked", "close", "close"]),
           "latency": rng.choice([0.02, 0.02, 0.3, 1.5]), "chunk": rng.choice([150, 400, 1500]),
           "chunk_latency": rng.choice([0.01, 0.2])}
    plan = {"specs": specs, "versions": versions, "srv": srv, "url": rng.choice(["sys", "http://srv.test/db", "http://srv.test/db/"]),
            "conf": {"weights-memory-cache-policy": rng.choice(["off", "off", "largest", "unlimited"])},
            "weird": rng.random() < 0.3, "gap": rng.choice([1, 1, 30]), "pubs": [], "threads": [], "faults": {},
            "gran": "line"}
    globals()["gen_" + prop](rng, plan, tier)
    if prop in ("C13", "C15") and rng.random() < 0.2:
        plan["conf"]["check-out-of-date-urls"] = True
        plan["conf"]["download-out-of-date-urls"] = rng.random() < 0.5
    if plan["kind"] != "retry" and rng.random() < 0.3:
        # a second remote inventory with the same names and other content
        plan["two"] = rng.choice(TWO[plan["url"] == "sys"])
        for t in plan["threads"]:
            for o in t["ops"]:
                if o["op"] == "regrid" and not o.get("local") and not o.get("script") and rng.random() < 0.35:
                    o["two"] = True
    return plan


TWO = [["http://srv.test/db2/", "http://srv.test/db2", "http://srv.test/DB", "http://other.test/db/", "http://srv.test/a/db",
        "https://srv.test/db", "http://srv.test:8080/db", "sys"],
       ["https://sites.ecmwf.int/repository/earthkit/regrid/db/2/", "http://srv.test/db",
        "https://mirror.test/repository/earthkit/regrid/db/1/"]]


def _pubs(rng, plan, span, after=0.0):
    out = []
    for v in range(1, len(plan["versions"])):
        out.append({"at": round(after + rng.random() * span, 2), "v": v, "first": rng.choice(["gz", "sha"]),
                    "gap": round(rng.choice([0, 0.05, 0.5, 3]) * rng.random(), 3)})
    out.sort(key=lambda p: p["at"])
    for k, p in enumerate(out):
        p["v"] = k + 1
    plan["pubs"] = out


def _regrid(rng, plan, hi=None):
    return {"op": "regrid", "k": rng.randrange(hi or len(plan["specs"])), "v": rng.randrange(1000)}


def _threads(rng, phases, sessions, threads, nops, mk):
    out = []
    for ph in range(phases):
        for s in range(sessions):
            for _ in range(rng.choice(threads)):
                out.append({"ph": ph, "s": "abc"[s], "ops": [mk() for _ in range(rng.choice(nops))]})
    return out


def gen_C13(rng, plan, tier):
    plan["kind"] = rng.choice(["faults", "faults", "faults", "publish"])
    plan["conf"]["cache-policy"] = rng.choice(["user", "user", "user", "user", "temporary", "off"])
    _pubs(rng, plan, rng.choice([2, 20]))

    def mk():
        x = rng.random()
        if x < 0.72:
            return _regrid(rng, plan)
        if x < 0.86:
            return {"op": "sleep", "dt": rng.choice([0.1, 1, 4])}
        if x < 0.94:
            return {"op": "clear"}
        return {"op": "purge"}
    plan["threads"] = _threads(rng, rng.choice([1, 2, 3]), rng.choice([1, 1, 2]), [1, 1, 2], [2, 3, 4], mk)
    if plan["kind"] == "faults":
        r = rng.choice([0.1, 0.25, 0.5])
        rates = {"net": r}
        if rng.random() < 0.5:
            rates.update({"fs.write": 0.05, "fs.rename": 0.05, "fs.open-w": 0.02})
        plan["faults"] = {"seed": rng.getrandbits(32), "rates": rates, "max": rng.choice([1, 2, 3, 6])}
    plan["heal"] = True
    plan["gran"] = "instr" if rng.random() < 0.1 else "line"


def gen_C14(rng, plan, tier):
    plan["kind"] = rng.choice(["down", "down", "down", "concurrent", "concurrent", "faults", "calm", "crash", "crash"])
    plan["conf"]["cache-policy"] = rng.choice(["user", "user", "user", "user", "temporary", "off"])
    crash = plan["kind"] == "crash"
    if crash:
        plan["conf"]["cache-policy"] = "user"
    _pubs(rng, plan, rng.choice([3, 12, 40]) if crash else rng.choice([3, 12]))
    conc = plan["kind"] == "concurrent"

    def mk():
        x = rng.random()
        if x < 0.7:
            return _regrid(rng, plan)
        if x < 0.9:
            return {"op": "sleep", "dt": rng.choice([0.5, 2, 6])}
        return {"op": "clear"}
    plan["threads"] = _threads(rng, rng.choice([2, 3]) if crash else rng.choice([1, 2]), rng.choice([1, 2]) if conc else 1,
                               [2, 3] if conc else [1], [2, 3, 5] if conc else [4, 6, 8], mk)
    if crash:
        # killed between the steps that put a new index in its place
        index = rng.random() < 0.5
        plan["faults"] = {"seed": rng.getrandbits(32), "onlykill": True, "max": rng.choice([1, 2, 2, 3]),
                          "match": ["/regrid-"] if index else ["cache"],
                          "rates": {"fs.rename": 0.6} if index else {"fs.rename": rng.choice([0.12, 0.3])}
                          if rng.random() < 0.6 else {"db.exec": 0.03, "db.commit": 0.06, "fs.write": 0.1}}
    if plan["kind"] == "down":
        t = 0.0
        for _ in range(rng.choice([1, 2])):
            a = t + rng.random() * 6
            b = a + rng.choice([1, 5, 30])
            plan["pubs"].append({"at": round(a, 2), "down": True})
            plan["pubs"].append({"at": round(b, 2), "down": False})
            t = b
        plan["pubs"].sort(key=lambda p: p["at"])
    if plan["kind"] == "faults":
        plan["faults"] = {"seed": rng.getrandbits(32), "rates": {"net": rng.choice([0.2, 0.5])}, "nokill": rng.random() < 0.7,
                          "max": rng.choice([1, 2, 4])}
    plan["heal"] = True


def gen_C15(rng, plan, tier):
    plan["kind"] = rng.choice(["retry", "retry", "stall", "random"])
    plan["conf"]["cache-policy"] = rng.choice(["user", "user", "user", "temporary", "off"])
    T = rng.choice([None, "2s", "7s", 20])
    if T is not None:
        plan["conf"]["url-download-timeout"] = T
    if plan["kind"] == "retry":
        plan["versions"] = [len(plan["specs"])]
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            o = _regrid(rng, plan)
            n = rng.randrange(1, RETRIES)
            sc = []
            m = rng.choice(["GET", "GET", "HEAD", "mixed"])
            if m == "mixed":
                sc += [{"match": ".npz", "method": "HEAD", "e": rng.choice(TRANSIENT)} for _ in range(rng.randrange(1, RETRIES))]
                m = "GET"
            sc += [{"match": ".npz", "method": m, "e": rng.choice(TRANSIENT)} for _ in range(n)]
            o["script"] = sc
            ops.append(o)
        plan["threads"] = [{"ph": 0, "s": "a", "ops": ops}]
    elif plan["kind"] == "stall":
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            o = _regrid(rng, plan)
            e = rng.choice(["stall", "stall", "conn-timeout", "read-timeout"])
            o["script"] = [{"match": rng.choice([".npz", ".gz", ".sha256", ""]), "e": e, "n": rng.choice([1, 1, 2, 8]),
                            "method": rng.choice(["GET", "GET", "HEAD"]), "frac": round(rng.random(), 2)}]
            if e == "stall":
                o["script"][0]["method"] = "GET"
            ops.append(o)
        plan["threads"] = [{"ph": 0, "s": "a", "ops": ops}]
        _pubs(rng, plan, 5)
    else:
        _pubs(rng, plan, 20)
        plan["threads"] = _threads(rng, rng.choice([1, 2]), rng.choice([1, 2]), [1, 2], [2, 3], lambda: _regrid(rng, plan))
        plan["faults"] = {"seed": rng.getrandbits(32), "rates": {"net": rng.choice([0.2, 0.5, 0.8])},
                          "max": rng.choice([2, 4, 8])}
    plan["heal"] = True


def gen_C16(rng, plan, tier):
    plan["kind"] = rng.choice(["seq", "seq", "concurrent", "local"])
    plan["conf"]["cache-policy"] = "user"
    conc = plan["kind"] == "concurrent"
    if rng.random() < 0.4:
        _pubs(rng, plan, 8)
    down = rng.random() < 0.6

    def mk():
        x = rng.random()
        if plan["kind"] == "local" and x < 0.4:
            return dict(_regrid(rng, plan), local=True)
        if x < 0.8:
            return _regrid(rng, plan)
        if x < 0.9:
            return {"op": "clear"}
        return {"op": "sleep", "dt": rng.choice([0.5, 3, 100])}
    plan["threads"] = _threads(rng, rng.choice([2, 3]), rng.choice([1, 2]) if conc else 1, [1, 2] if conc else [1],
                               [3, 4] if conc else [4, 6, 8], mk)
    if down:
        plan["pubs"].append({"at": round(rng.choice([3, 10]) * rng.random() + 1, 2), "down": True})
        plan["pubs"].sort(key=lambda p: p["at"])
    plan["conf"]["weights-memory-cache-policy"] = rng.choice(["off", "off", "off", "largest"])
    plan["heal"] = False


def build(plan):
    return World(plan, step_cap=1500000)


# ------------------------------------------------------------------------------------ running

class Net:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.prop = plan["prop"]
        self.ents = [inv.Entry(s) for s in plan["specs"]]
        self.url = SYS if plan["url"] == "sys" else plan["url"]
        self.arg = "ecmwf" if plan["url"] == "sys" else plan["url"]
        base = self.url if self.url.endswith("/") else self.url + "/"
        self.base = base
        self.remote = inv.Inventory("remote", plan["specs"])
        self.done = {}              # version -> step its publication was complete
        self.begun = {}
        self.idx = {}
        for v, n in enumerate(plan["versions"]):
            self.idx[v] = self.index(v, n)
        self.blobs = set()
        self.srv = w.server = Server(w, plan["srv"])
        self.ents2 = []
        if plan.get("two"):
            self.two()
        self.downs = []
        self.changes = []
        self.regrids = []
        self.watch = Watch(w)

    def two(self):
        u = SYS if self.plan["two"] == "sys" else self.plan["two"]
        self.arg2 = "ecmwf" if self.plan["two"] == "sys" else u
        self.base2 = u if u.endswith("/") else u + "/"
        specs = [x[:4] + [x[4] + 100] for x in self.plan["specs"]]
        self.ents2 = [inv.Entry(x) for x in specs]
        t = inv.Inventory("remote2", specs).index([e.key for e in self.ents2]).encode() + b"\n"
        docs = {e.path: e.data for e in self.ents2}
        docs["index.json.gz"] = gzip.compress(t, mtime=1)
        docs["index.json.sha256"] = hashlib.sha256(t).hexdigest().encode() + b"\n"
        self.blobs.add(t)
        for n, b in docs.items():
            self.srv.put(self.base2 + n, b)
            self.blobs.add(b)

    def regrid_two(self, s, o, sure=False):
        """The second inventory never changes: a request answers with its weights or has met trouble."""
        import numpy as np
        w = self.w
        e = self.ents2[o["k"]]
        gi, go = inv.query(e.i, e.o)
        f = s.mod("array").regrid
        x = e.values(o["v"])
        op = w.do(("regrid2", o["k"]),
                  lambda: f(x, in_grid=gi, out_grid=go, interpolation=e.method, backend="precomputed", inventory=self.arg2)[0])
        op.extra = {"c": "regrid2", "k": o["k"], "s": s, "o": o}
        if op.ok:
            r, y = np.asarray(op.result), e.expect(o["v"])
            op.result = None
            if r.shape != tuple(y.shape) or not np.array_equal(r, y):
                w.violation(self.prop, "other-inventory", f"{op} gave another product than the matrix published at {self.base2}")
        elif sure or not self.net_trouble(op) and not any(a <= op.ret and (b is None or b >= op.inv) for a, b in self.changes):
            w.violation(self.prop, "other-inventory-failed", f"{op}: no trouble during it; "
                        f"requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]} {w.norm(disklib.tb(op.error))}")
        for r in op.requests:
            if not r[4].startswith(self.base2):
                w.violation(self.prop, "wrong-server", f"{op}, for {self.base2}, requested {r[3:]}")
        w.probe("two")
        return op

    def index(self, v, n):
        t = self.remote.index([e.key for e in self.ents[:n]])
        if self.plan.get("weird"):
            import json
            d = json.loads(t)
            d["matrix"]["f" * 60 + str(v)] = {"input": {"grid": "X1", "flavour": v}, "output": {"grid": "eORCA025_T"},
                                              "interpolation": {"engine": "mir", "version": 16, "method": "linear"}}
            t = json.dumps(d)
        return t.encode() + b" " * (v * 3)

    def publish(self, v, first="gz", gap=0):
        w = self.w
        self.begun[v] = w.step
        for e in self.ents[:self.plan["versions"][v]]:
            u = self.base + e.path
            if u not in self.srv.docs:
                self.srv.put(u, e.data)
                self.blobs.add(e.data)
        t = self.idx[v]
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode="wb", mtime=1) as f:
            f.write(t)
        gz, sha = b.getvalue(), hashlib.sha256(t).hexdigest().encode() + b"\n"
        self.blobs |= {t, gz, sha}
        docs = [("index.json.gz", gz), ("index.json.sha256", sha)]
        if first == "sha":
            docs.reverse()
        self.srv.put(self.base + docs[0][0], docs[0][1])
        if gap:
            w.sleep(gap)
        self.srv.put(self.base + docs[1][0], docs[1][1])
        self.srv.docs[self.base + "index.json"] = type(self.srv.docs[self.base + docs[0][0]])(t, '"i%d"' % v)
        w.step += 1
        self.done[v] = w.step
        w.event("published", v)

    # -- what is on offer
    def complete_before(self, k, step):
        """The step at which entry k's publication was complete, if before ``step``."""
        for v in sorted(self.done):
            if k < self.plan["versions"][v]:
                return self.done[v] if self.done[v] < step else None
        return None

    def begun_before(self, k, step):
        return any(k < self.plan["versions"][v] and b < step for v, b in self.begun.items())

    # -- operations
    def setup(self, s):
        s.nofault = True
        cfg = s.mod().config
        cfg.autosave = False
        d = {"user-cache-directory": self.w.path("cache"), "temporary-cache-directory-root": self.w.path("troot"),
             "temporary-directory-root": self.w.path("oroot"), "maximum-cache-size": None}
        d.update(self.plan["conf"])
        cfg.set(d)
        s.nofault = False

    def op(self, s, o):
        w = self.w
        c = o["op"]
        if c == "regrid":
            return (self.regrid_two if o.get("two") else self.regrid)(s, o)
        if c == "sleep":
            w.sleep(o["dt"])
        elif c == "clear":
            w.do(("clear",), s.mod("utils.memcache").clear_memory_cache)
        elif c == "purge":
            ch = [w.step, None]
            self.changes.append(ch)
            ch[1] = w.do(("purge",), lambda: s.mod().cache.purge()).ret

    def regrid(self, s, o, heal=False):
        import numpy as np
        w = self.w
        e = self.ents[o["k"]]
        for x in o.get("script", ()):
            self.srv.script.append(dict(x))
        gi, go = inv.query(e.i, e.o)
        f = s.mod("array").regrid
        src = self.local if o.get("local") else self.arg
        x = e.values(o["v"])
        if o.get("script"):
            w.fault_steps.append((w.step, "script", "net"))
        op = w.do(("local" if o.get("local") else "regrid", o["k"]),
                  lambda: f(x, in_grid=gi, out_grid=go, interpolation=e.method, backend="precomputed", inventory=src)[0])
        self.srv.script[:] = [] if o.get("script") else self.srv.script
        for r in op.requests:
            if not r[4].startswith(self.base) and not o.get("local"):
                w.violation(self.prop, "wrong-server", f"{op}, for {self.base}, requested {r[3:]}")
        op.extra = {"c": "regrid", "k": o["k"], "s": s, "o": o, "none": not op.ok and op.etype == "ValueError"
                    and "weights" in op.emsg, "heal": heal}
        if not o.get("local"):
            self.regrids.append(op)
        if op.ok:
            y = e.expect(o["v"])
            r = np.asarray(op.result)
            if r.shape != tuple(y.shape) or not np.array_equal(r, y):
                w.violation("C13" if self.prop != "C16" else "C16", "wrong-weights", f"{op} gave another product than the published matrix")
            op.result = None
            if not o.get("local") and not self.begun_before(o["k"], op.ret):
                w.violation(self.prop, "weights-from-nowhere", f"{op}: no published index has it")
        else:
            self.failed(op, o)
        self.timing(op, s)
        return op

    def net_trouble(self, op):
        return any(r[5] not in (200, 206) for r in op.requests) or self.w.faulted(op)

    def failed(self, op, o):
        w = self.w
        k = o["k"]
        if o.get("local"):
            if not w.faulted(op):
                w.violation(self.prop, "unexpected-error", f"{op}: local inventory {w.norm(disklib.tb(op.error))}")
            return
        trouble = self.net_trouble(op)
        if op.extra["none"]:
            if self.must_find(op, k):
                w.violation(self.prop, "published-not-found", f"{op}: published since step "
                            f"{self.complete_before(k, op.inv)}; requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]}")
            bad = [r for r in op.requests if r[5] not in (200, 206) and r[3] == "GET"]
            if bad:
                w.violation("C14" if self.prop not in ("C13", "C15") else self.prop, "failed-check-hidden",
                            f"{op}: said there are no weights though its request {bad[0][3:]} failed")
            return
        # an error other than 'no weights': there must have been trouble; a document may also be
        # replaced between the requests that make up its download
        if any(b <= op.ret and self.done.get(v, op.ret) >= op.inv for v, b in self.begun.items() if v):
            w.probe("error-during-publication")
            return
        if any(a <= op.ret and (b is None or b >= op.inv) for a, b in self.changes):
            w.probe("error-during-purge")
            return
        ok_script = self.plan["kind"] == "retry"
        if ok_script:
            return w.violation("C15", "not-retried", f"{op}: {[(r[3], r[4][-12:], r[5]) for r in op.requests]}")
        if not trouble:
            w.violation(self.prop, "not-healed" if op.extra["heal"] else "unexpected-error",
                        f"{op}: no trouble during it; requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]} {w.norm(disklib.tb(op.error))}")

    @staticmethod
    def _idx(r):
        return r[4].endswith((".sha256", ".gz"))

    def check_steps(self, s, before, sure=False):
        """Steps of the index checks of session s that count, made by operations begun before ``before``.
        With ``sure`` only those that were surely made, otherwise those that may have been. [(step, op)]"""
        out = []
        loaded = None           # since when the session has an index in memory
        early = False
        for o2 in self.regrids:
            x = o2.extra
            if x is None or x["s"] is not s or o2.inv >= before:
                continue
            sha = [r for r in o2.requests if r[4].endswith(".sha256") and r[3] == "GET" and r[5] == 200]
            gz = [r for r in o2.requests if r[4].endswith(".gz") and r[3] == "GET" and r[5] == 200]
            fine = o2.ok or x["none"] or any(r[4].endswith(".npz") for r in o2.requests)
            if sha and fine:
                out.append((sha[0][0], o2))
            elif gz and fine and ((loaded is not None and loaded < o2.inv) or len(gz) > 1 or
                                  (not sure and (early or any(a <= o2.ret for a, _ in self.changes)))):
                out.append((gz[-1][0], o2))
            elif x["none"] and not out or not sure and fine and early:
                # it waited for the same download made by another session at that moment
                sh = [r[0] for o3 in self.w.ops if o3 is not o2 and o3.desc[0] != "regrid2" and o3.inv <= o2.ret and (o3.ret is None or o3.ret >= o2.inv)
                      for r in o3.requests if self._idx(r) and r[3] == "GET" and r[5] == 200 and r[0] <= o2.ret]
                if sh:
                    self.w.probe("check-shared")
                    out.append((min(sh), o2))
            if loaded is None and (o2.ok or x["none"] or (gz and not sure)):
                loaded = o2.ret
            early = True            # the index may be loaded, also if the operation failed later
        return out

    def must_find(self, op, k):
        pub = self.complete_before(k, op.inv)
        if pub is None:
            return False
        s = op.extra["s"]
        # operations still running have no extra yet: be lenient when another one of this session overlaps
        for st, o2 in self.check_steps(s, op.ret):
            if st < pub:
                return False
        for o2 in self.w.ops:
            if o2 is not op and o2.desc[0] != "regrid2" and o2.ret is None and o2.thread.split("/")[0] == op.thread.split("/")[0] and \
                    any(r[0] < pub for r in o2.requests if self._idx(r)):
                return False
        return True

    def timing(self, op, s):
        """C15: bounded time, and stalls cut off by the configured timeout."""
        w = self.w
        T = self.plan["conf"].get("url-download-timeout", 30)
        T = float(str(T).rstrip("s"))
        lat = self.plan["srv"]["latency"]
        body = 400 * self.plan["srv"]["chunk_latency"]
        alone = len(self.plan["threads"]) == 1
        n = len(op.requests)
        dt = op.tret - op.tinv
        sleeps = sum(1 for r in op.requests if r[5] not in (200, 206))
        bound = n * (2 * T + lat + body) + sleeps * RETRY_AFTER + 30 + self.w.faults_time
        if not alone:
            nt = len(self.plan["threads"])
            bound = nt * (26 * (2 * T + lat + body) + 10 * RETRY_AFTER) + 60
        elif n:
            stalls = sum(1 for r in op.requests if r[5] in ("conn-timeout", "read-timeout")) + w.fault_counts.get("net:stall", 0)
            bound = n * (lat + body) + stalls * (T + 0.1) + sleeps * RETRY_AFTER + 20
        if dt > bound:
            w.violation("C15" if self.prop == "C15" else self.prop, "too-long",
                        f"{op} took {dt:.1f} s, bound {bound:.1f}, timeout {T}: {[(r[3], r[4][-12:], r[5]) for r in op.requests]}")


def drive(w, plan):
    prop = plan["prop"]
    c = Net(w, plan)
    w.faults_time = 0
    w.gate = False
    c.watch.dirs = [w.path("cache") + "/", w.path("troot") + "/", w.path("oroot") + "/"]
    c.watch.allowed = [w.root]
    for d in ("troot", "oroot"):
        os.makedirs(w.path(d))
    loc = inv.Inventory("localinv", plan["specs"])
    c.local = loc.write(w)
    snap = snapshot(c.local)
    c.publish(0)
    phases = sorted({t["ph"] for t in plan["threads"]})
    live = []

    def role(i):
        def f(s):
            for o in plan["threads"][i]["ops"]:
                c.op(s, o)
        return f

    def heal(s):
        for k in range(len(c.ents)):
            if c.complete_before(k, w.step) is None:
                continue
            if s.name != "z9" and k % 2:
                continue
            op = c.regrid(s, {"op": "regrid", "k": k, "v": 7}, heal=True)
            if not op.ok and not op.extra["none"]:
                continue        # reported
            if op.tret - op.tinv > 120:
                w.violation(prop, "slow-heal", f"{op} took {op.tret - op.tinv:.0f} s with a healthy network")
        if c.ents2:
            c.regrid_two(s, {"k": 0, "v": 7}, True)

    def parked(s):
        s.parked = True
        w.wake_all(("session", s.name))
        while not w.gate:
            w.block(("gate",))
        heal(s)

    def publisher():
        t0 = w.now()
        for p in plan["pubs"]:
            dt = t0 + p["at"] - w.now()
            if dt > 0:
                w.sleep(dt)
            if "down" in p:
                c.srv.down = p["down"] and not w.healing
                w.event("server", "down" if c.srv.down else "up")
                if c.srv.down:
                    w.count_fault("server-down")
            else:
                c.publish(p["v"], p["first"], p["gap"])

    w.healing = False

    def driver():
        w.spawn("publisher", None, publisher)
        last = phases[-1] if phases else 0
        for ph in phases:
            ss = []
            for n in sorted({t["s"] for t in plan["threads"] if t["ph"] == ph}):
                roles = [(f"t{i}", role(i)) for i, t in enumerate(plan["threads"]) if t["ph"] == ph and t["s"] == n]
                hold = plan.get("heal") and ph == last
                s = w.launch(f"{n}{ph}", roles, setup=c.setup, teardown=parked if hold else None)
                s.parked = False
                ss.append(s)
            for s in ss:
                if plan.get("heal") and ph == last:
                    while not (s.dead or s.done or s.parked):
                        w.block(("session", s.name))
                else:
                    w.wait(s)
            if ph == last and plan.get("heal"):
                w.faults.on = False
                w.healing = True
                c.srv.down = False
                c.srv.script[:] = []
                w.disk_full_ops = 0
                w.sleep(plan["gap"])
                w.gate = True
                w.wake_all(("gate",))
                for s in ss:
                    w.wait(s)
            w.sleep(plan["gap"])
        w.faults.on = False
        w.healing = True

        def body(s):
            if plan.get("heal"):
                heal(s)
            elif prop == "C16":
                offline(c, s)
            entries(c, s)
        s = w.launch("z9", [("t", body)], setup=c.setup)
        w.wait(s)
        for s in w.sessions:
            if s.uncaught and not s.dead:
                w.violation(prop, "thread-died", s.uncaught[0][3])

    w.sample = {"plan": {k: plan[k] for k in ("kind", "specs", "versions", "srv", "pubs", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    if not w.violations and w.outcome == "done":
        post(c, w, plan, prop, snap)
    w.nontrivial = len(c.srv.requests) >= 3 and len(w.ops) >= 3


def snapshot(d):
    out = {}
    for top, ds, fs in seams._real_walk(d):
        for f in fs:
            p = os.path.join(top, f)
            with real["open"](p, "rb") as g:
                out[p] = (hashlib.sha256(g.read()).hexdigest(), real["stat"](p).st_mtime_ns)
        for x in ds:
            out[os.path.join(top, x)] = "dir"
    return out


def offline(c, s):
    """C16: a fresh session with the server down gets everything that was used before."""
    w = c.w
    c.srv.down = True
    had = {op.extra["k"] for op in c.regrids if op.ok}
    for k in sorted(had):
        op = c.regrid(s, {"op": "regrid", "k": k, "v": 11})
        if not op.ok:
            w.violation("C16", "not-offline", f"{op}: its index and matrix are in the cache; requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]}")
        w.probe("offline-served")
    for k in sorted({op.extra["k"] for op in w.ops if op.ok and op.extra and op.extra["c"] == "regrid2"}):
        op = c.regrid_two(s, {"k": k, "v": 11}, True)
        if op.requests:
            w.violation("C16", "requested-again", f"{op} made requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]}")


def entries(c, s):
    if c.plan["conf"]["cache-policy"] != "user":
        return
    op = c.w.do(("entries",), lambda: s.mod().cache.entries())
    if op.ok:
        c.final_entries = op.result
        op.result = None


def post(c, w, plan, prop, snap):
    # C13: every file in its final place holds, at every moment, something the server published
    if prop in ("C13", "C16"):
        finals = {e["path"]: e for e in getattr(c, "final_entries", ())}
        readers = {}
        for op in w.ops:
            for what, p in op.touched:
                if what == "open-r":
                    readers.setdefault(p, set()).add(op)
        for p, h in c.watch.hist.items():
            if p.endswith(TMP):
                continue
            writers = {n for _, _, n in h}
            foreign = any(op.thread not in writers for op in readers.get(p, ()))
            if p not in finals and not foreign:
                continue
            if p in finals and finals[p]["owner"] == "orphans":
                continue
            for st, b, tn in c.watch.states(p):
                if b not in c.blobs:
                    w.violation("C13" if prop == "C13" else prop, "not-published",
                                f"{w.norm(p)} held {len(b)} bytes at step {st} (by {tn}) that were never published")
    # C14: a check that succeeded is not repeated
    if prop in ("C14", "C16"):
        for s in w.sessions:
            if prop == "C16" and w.fault_steps:
                break
            cs = [(st, o2) for st, o2 in c.check_steps(s, w.step + 1, True) if o2.ok or o2.extra["none"]]
            if not cs:
                continue
            first = min((o2 for _, o2 in cs), key=lambda o: o.ret)
            w.probe("checked")
            for o3 in c.regrids:
                if o3.extra["s"] is s and o3.inv > first.ret and any(c._idx(r) for r in o3.requests):
                    w.violation(prop, "checked-again", f"{o3} asked for the index again, {first} had checked it; "
                                f"{[(r[3], r[4][-12:], r[5]) for r in o3.requests]}")
    if prop == "C16":
        sharing(c, w, plan)
        if snapshot(c.local) != snap:
            w.violation("C16", "local-modified", "the local inventory was modified")
        for op in w.ops:
            if op.extra and op.extra.get("o", {}).get("local") and op.requests:
                w.violation("C16", "local-network", f"{op} made requests {[(r[3], r[4]) for r in op.requests]}")


def sharing(c, w, plan):
    """Nothing is requested that is in the cache already."""
    if plan["kind"] == "local":
        pass
    first = {}
    for op in c.regrids:
        s = op.extra["s"]
        first[s] = min(first.get(s, op.inv), op.inv)
    for op in c.regrids:
        if not op.requests:
            continue
        k, s = op.extra["k"], op.extra["s"]
        # (a session running at that time may have an older index in memory)
        done = [o for o in c.regrids if o.extra["k"] == k and o.ok and o.ret < op.inv
                and (o.extra["s"] is s or o.ret < first[s])]
        if done:
            w.violation("C16", "requested-again", f"{op} made requests {[(r[3], r[4][-20:], r[5]) for r in op.requests]} though {done[0]} "
                        "had put all of it in the cache")
    gets = {}
    for r in c.srv.requests:
        if r[3] == "GET" and r[5] in (200, 206) and r[4].endswith(".npz"):
            gets.setdefault(r[4], []).append(r)
    for u, rs in gets.items():
        if len(rs) > 1:
            w.violation("C16", "downloaded-twice", f"{u[-30:]} downloaded {len(rs)} times: {[(r[0], r[2]) for r in rs]}")
    # the index is fetched again only after a check found another checksum
    if len(plan["threads"]) == len({t["ph"] for t in plan["threads"]}):
        have = None
        for op in c.regrids:
            sha = [r for r in op.requests if r[3] == "GET" and r[4].endswith(".sha256") and r[5] == 200]
            gz = [r for r in op.requests if r[3] == "GET" and r[4].endswith(".gz") and r[5] == 200]
            for r in gz:
                at = r[6]
                if have is not None and at == have:
                    sv = [x[6] for x in sha if x[0] < r[0]]
                    if sv and sv[-1] == have:
                        w.violation("C16", "index-downloaded-again", f"{op}: version {at} was cached and current; "
                                    f"{[(x[3], x[4][-12:], x[5]) for x in op.requests]}")
                have = at if op.ok or op.extra["none"] else None

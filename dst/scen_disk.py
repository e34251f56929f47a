"""The disk cache: sessions (processes) x threads sharing directories, creators, reports, purges,
evictions, configuration changes, faults and kills. Decides C05-C12."""
import json
import os
import random

from . import disklib, seams
from .disklib import Client, parse, read_file
from .net import Server
from .world import World

real = seams.real


# ------------------------------------------------------------------------------------ generation

def gen(rng, prop, tier):
    return globals()["gen_" + prop](rng, tier)


def _creator(rng, o, fail=0.15):
    x = rng.random()
    if x < fail:
        o["fail"] = rng.choice(["start", "mid", "end"])
    if rng.random() < 0.4:
        o["slow"] = rng.choice([0.01, 0.5, 3])
    if rng.random() < 0.5:
        o["chunks"] = rng.choice([2, 3])
    if rng.random() < 0.3:
        o["unbuf"] = True
    if rng.random() < 0.5:
        o["turn"] = True
    return o


def _file(rng, nkeys, fail=0.15, force=0.0):
    o = {"op": "file", "k": rng.randrange(nkeys)}
    if rng.random() < force:
        o["force"] = rng.choice(["yes", "call-yes", "call-no"])
    return _creator(rng, o, fail)


def _threads(rng, phases, sessions, threads, mk, nops):
    out = []
    for ph in range(phases):
        for s in range(sessions):
            for t in range(threads if isinstance(threads, int) else rng.choice(threads)):
                out.append({"ph": ph, "s": "abc"[s], "ops": [mk() for _ in range(rng.choice(nops))]})
    return out


def _gran(rng, p=0.2):
    return "instr" if rng.random() < p else "line"


def gen_C05(rng, tier):
    kinds = rng.choice([("file",), ("file", "dir"), ("file", "dl"), ("file", "dir", "dl")])
    keys = disklib.make_keys(rng, rng.choice([1, 2, 2, 3]), kinds)
    force = rng.choice([0, 0, 0.3])
    policy = rng.choices(["user", "temporary", "off"], [7, 1, 1])[0]
    removal = rng.random() < 0.3
    kill = rng.random() < 0.6

    def mk():
        if removal and rng.random() < 0.15:
            return rng.choice([{"op": "purge"}, {"op": "purge", "m": "all"}, {"op": "purge", "m": "owner"}])
        return _file(rng, len(keys), 0.15, force)
    threads = _threads(rng, rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2]), [1, 2, 2], mk, [1, 2, 3])
    rates = {}
    for k, r in (("fs.write", 0.12), ("fs.rename", 0.1), ("fs.open-w", 0.04), ("fs.unlink", 0.04), ("db.exec", 0.02),
                 ("db.commit", 0.03), ("fs.stat", 0.01), ("net", 0.2), ("fs.mkdir", 0.03)):
        if rng.random() < 0.6:
            rates[k] = r
    return {"kind": "C05", "keys": keys, "threads": threads, "conf": {"policy": policy, "max": _limit(rng, keys, 0.2)},
            "faults": {"seed": rng.getrandbits(32), "rates": rates, "max": rng.choice([0, 1, 1, 2, 3, 5]),
                       "nokill": not kill},
            "removal": removal, "heal": policy == "user", "gran": _gran(rng), "bufsize": rng.choice([100, 8192]),
            "jitter": rng.random() < 0.3}


def _limit(rng, keys, p):
    tot = sum(k["size"] for k in keys) or 1000
    if rng.random() >= p:
        return None
    return max(200, int(tot * rng.choice([0.3, 0.6, 0.9]))) | 1


def gen_C06(rng, tier):
    keys = disklib.make_keys(rng, rng.choice([1, 1, 2, 3]), rng.choice([("file",), ("file", "dir"), ("file", "dl")]))
    fail = rng.choice([0, 0, 0.3])
    force = rng.choice([0, 0, 0.35])
    removal = rng.random() < 0.2

    def mk():
        if removal and rng.random() < 0.2:
            return {"op": "purge", "m": rng.choice(["all", "owner", "args"])}
        if rng.random() < 0.1:
            return {"op": "entries"}
        if removal and rng.random() < 0.1:
            return {"op": "rm", "k": rng.randrange(len(keys))}
        o = _file(rng, len(keys), fail, force)
        if rng.random() < 0.1:
            o["nometa"] = True
        return o
    threads = _threads(rng, rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 3]), rng.choice([[1, 2], [2], [3], [4]]), mk, [1, 2, 3])
    return {"kind": "C06", "keys": keys, "threads": threads, "conf": {"policy": "user", "max": _limit(rng, keys, 0.1)},
            "removal": removal, "gran": _gran(rng, 0.3), "faults": {}}


def gen_C07(rng, tier):
    p = gen_C05(rng, tier)
    p["conf"] = {"policy": "user", "max": _limit(rng, p["keys"], 0.5)}
    p["removal"] = False
    for t in p["threads"]:
        t["ops"] = [o if o["op"] == "file" else _file(rng, len(p["keys"])) for o in t["ops"]]
        for o in t["ops"]:
            if rng.random() < 0.15:
                o["fail"] = rng.choice(["start", "mid", "end"])
    p["kind"] = "C07"
    p["heal"] = True
    p["faults"]["max"] = rng.choice([1, 1, 2, 3])
    p["faults"]["nokill"] = rng.random() < 0.2
    p["gap"] = rng.choice([1, 1, 1, 300])
    return p


def gen_C08(rng, tier):
    keys = disklib.make_keys(rng, rng.choice([2, 3, 4]), rng.choice([("file",), ("file", "dir"), ("file", "dir", "dl")]))
    fail = rng.choice([0, 0, 0.2])
    force = rng.choice([0, 0, 0.2])
    limit = _limit(rng, keys, 0.3)
    removal = rng.random() < 0.4

    def mk():
        x = rng.random()
        if x < 0.2:
            return {"op": rng.choice(["entries", "size", "summary", "check"])}
        if removal and x < 0.35:
            return {"op": "purge", "m": rng.choice(["owner", "args", "big", "meta"])}
        if removal and x < 0.38:
            return {"op": "purge"}
        if removal and x < 0.46:
            return {"op": "rm", "k": rng.randrange(len(keys))}
        o = _file(rng, len(keys), fail, force)
        if rng.random() < 0.1:
            o["nometa"] = True
        if rng.random() < 0.3:
            o["grow"] = rng.choice([1, 57, 1000])
        return o
    seq = rng.random() < 0.3
    threads = _threads(rng, rng.choice([1, 2, 3]), 1 if seq else rng.choice([1, 2, 2]), 1 if seq else [1, 2, 3], mk, [2, 3, 5])
    return {"kind": "C08", "keys": keys, "threads": threads, "removal": removal, "gran": _gran(rng),
            "conf": {"policy": "temporary" if rng.random() < 0.1 else "user", "max": limit}, "faults": {},
            "probe_odd": rng.random() < 0.3}


def gen_C09(rng, tier):
    seq = rng.random() < 0.6
    n = rng.choice([3, 4, 5, 6])
    keys = []
    for i in range(n):
        keys.append({"kind": rng.choice(["file", "file", "file", "dir"]), "owner": "own", "args": [i], "ext": ".cache",
                     "name": str(i), "size": rng.choice([300, 700, 1500, 2500]) + rng.randrange(60)})
    even = rng.random() < 0.2           # limits that can be met exactly
    if even:
        for k in keys:
            k["size"] = 500 * rng.choice([1, 1, 2])
            k["kind"] = "file"
    tot = sum(k["size"] for k in keys)
    usage = rng.random() < 0.3
    disk = None
    if usage:
        disk = {"total": rng.choice([50000, 100000]), "base": 0}
        disk["base"] = int(disk["total"] * rng.choice([0.3, 0.5]))

    def lim():
        if rng.random() < 0.04:
            return 0
        if even:
            return 500 * rng.randrange(1, tot // 500 + 1)
        return max(150, int(tot * rng.choice([0.15, 0.3, 0.5, 0.8, 1.2]))) | 1

    def use():
        return min(99, int((disk["base"] + tot * rng.choice([0.3, 0.5, 0.9])) * 100 / disk["total"]) + 1)
    conf = {"policy": "user", "max": None if usage and rng.random() < 0.7 else lim(), "usage": use() if usage else None}
    failing = rng.choice([0.0, 0.0, 0.25])
    setter = rng.random() < 0.4

    def mk():
        x = rng.random()
        if x < 0.68:
            o = _file(rng, n, 0.05 if seq else failing)
            if not seq and rng.random() < 0.25:
                o["slow"] = rng.choice([3, 20, 100])
            return o
        if x < 0.76 and setter:
            o = {"op": "set"}
            if usage and rng.random() < 0.6:
                o["usage"] = use() if rng.random() < 0.9 else None
            else:
                o["max"] = lim() if rng.random() < 0.9 else None
            if rng.random() < 0.3:
                o["temp"] = rng.randrange(1, 3)
            return o
        if x < 0.84:
            return {"op": rng.choice(["check", "size", "entries"])}
        if x < 0.92:
            return {"op": "sleep", "dt": rng.choice([0.001, 1, 200, 86400] if seq else [0.001, 1, 5, 30, 200])}
        return {"op": "purge", "m": rng.choice(["args", "big", "meta"])}
    if seq:
        threads = [{"ph": ph, "s": "a", "ops": [mk() for _ in range(rng.randrange(5, 14))]}
                   for ph in range(rng.choice([1, 1, 2]))]
    else:
        threads = _threads(rng, 1, rng.choice([1, 2]), [2, 3], mk, [2, 3, 4])
    p = {"kind": "C09", "keys": keys, "threads": threads, "conf": conf, "seq": seq, "removal": True, "disk": disk,
         "faults": {}, "gran": _gran(rng) if not seq else "line"}
    if seq:
        p["sched"] = {"mode": "serial"}
    return p


def gen_C10(rng, tier):
    seq = rng.random() < 0.5
    keys = disklib.make_keys(rng, rng.choice([2, 3, 4, 5]), rng.choice([("file",), ("file", "dir"), ("file", "dir", "dl")]),
                             sizes=(300, 5000))
    if rng.random() < 0.3:
        keys[0]["size"] = 0 if keys[0]["kind"] == "file" else keys[0]["size"]
    limit = _limit(rng, keys, 0.2)
    jump = rng.random() < 0.25
    pur = rng.choice([0.2, 0.4])
    orphans = rng.random() < 0.4

    def mk():
        x = rng.random()
        if x < pur:
            return rng.choice([{"op": "purge"}, {"op": "purge", "m": rng.choice(["all", "none", "owner", "args", "big", "meta"])}])
        if x < pur + 0.05:
            return {"op": "tidy" if orphans and rng.random() < 0.7 else "entries"}
        if x < pur + 0.10:
            return {"op": "sleep", "dt": rng.choice([1, 130, 300])}
        if jump and x < pur + 0.15:
            return {"op": "jump", "dt": rng.choice([-7200, -5, 3600])}
        o = _file(rng, len(keys), 0.1, 0.1)
        if not seq and rng.random() < 0.2:
            o["slow"] = rng.choice([150, 400])
            o["chunks"] = 2
        return o
    if seq:
        threads = [{"ph": ph, "s": "a", "ops": [mk() for _ in range(rng.randrange(4, 12))]} for ph in range(rng.choice([1, 2]))]
        if orphans and rng.random() < 0.6:
            ops = rng.choice(threads)["ops"]
            i = rng.randrange(1, len(ops) + 1)
            ops[i:i] = [{"op": "tidy"}, {"op": "purge", "m": rng.choice(["owner", "args", "big", "meta"])}]
    else:
        threads = _threads(rng, rng.choice([1, 1, 2]), rng.choice([1, 2]), [2, 3], mk, [2, 3, 4])
        if rng.random() < 0.25:
            # a creation fails, what it left is found by housekeeping, and then comes the next one
            for t in threads:
                t["ph"] += 1
            threads.insert(0, {"ph": 0, "s": "a", "ops": [_creator(rng, {"op": "file", "k": k}, 1.0) for k in range(len(keys))] +
                               [{"op": "sleep", "dt": 300}, {"op": "tidy"}]})
            k = rng.randrange(len(keys))
            threads[1]["ops"].insert(0, dict(_creator(rng, {"op": "file", "k": k}, 0), slow=200, chunks=2))
            threads[-1]["ops"][:0] = [{"op": "sleep", "dt": rng.choice([1, 150])}, {"op": "purge"}]
    p = {"kind": "C10", "keys": keys, "threads": threads, "conf": {"policy": "user", "max": limit}, "seq": seq,
         "removal": True, "faults": {}, "gran": _gran(rng), "orphans": orphans}
    if rng.random() < 0.4:
        p["cdir"] = rng.choice(["my.caches/regrid", "cache.v1", "a_b%/ca'che"])
    if seq:
        p["sched"] = {"mode": "serial"}
    return p


def gen_C11(rng, tier):
    keys = disklib.make_keys(rng, rng.choice([1, 2, 3]), ("file",))
    multi = rng.random() < 0.6

    def a_conf():
        c = {"policy": rng.choice(["user", "user", "temporary", "off"])}
        if rng.random() < 0.5:
            c["dir"] = rng.choice(["cache", "cacheB", "cache2", "~"])
        if rng.random() < 0.3:
            c["troot"] = rng.choice(["troot1", "troot2"])
        if rng.random() < 0.3:
            c["oroot"] = rng.choice(["oroot1", "oroot2"])
        return c

    def mk_user():
        x = rng.random()
        if x < 0.75:
            return _file(rng, len(keys), 0.05)
        return {"op": rng.choice(["entries", "size", "dir"])}

    def mk_set():
        x = rng.random()
        if x < 0.45:
            o = dict(a_conf(), op="set")
            if rng.random() < 0.3:
                o["temp"] = rng.randrange(1, 4)
            return o
        return mk_user()
    threads = []
    for ph in range(rng.choice([1, 2, 2])):
        for s in range(rng.choice([1, 1, 2])):
            threads.append({"ph": ph, "s": "abc"[s], "ops": [mk_set() for _ in range(rng.choice([2, 4, 6]))]})
            if multi:
                for _ in range(rng.choice([1, 2])):
                    threads.append({"ph": ph, "s": "abc"[s], "ops": [mk_user() for _ in range(rng.choice([1, 2, 3]))]})
    return {"coarse": rng.choice([None, None, None, 0.016, 1]), "kind": "C11", "keys": keys, "threads": threads, "conf": dict(a_conf(), max=None), "removal": False,
            "policy_changes": True, "faults": {}, "gran": _gran(rng, 0.3)}


def gen_C12(rng, tier):
    keys = disklib.make_keys(rng, rng.choice([1, 2, 3]), ("file",))
    nid = [0]
    setter = rng.random() < 0.4
    pol = setter and rng.random() < 0.4

    def mk():
        x = rng.random()
        if x < 0.3:
            return {"op": rng.choice(["entries", "size", "summary", "check", "dir"])}
        if x < 0.55:
            nid[0] += 1
            o = {"op": "purge", "m": rng.choice(["raise", "raise", "exit", "none", "owner", "args", "slow"]), "id": f"m{nid[0]}"}
            if o["m"] == "slow":
                o["dt"] = rng.choice([0.01, 2, 20])
            return o
        if x < 0.65 and setter:
            if pol and rng.random() < 0.5:
                return {"op": "set", "policy": rng.choice(["user", "off", "temporary"])}
            return {"op": "set", "max": rng.choice([None, 2001, 100001, 5001])}
        return _file(rng, len(keys), 0.25)
    threads = _threads(rng, 1, rng.choice([1, 1, 2]), [2, 3, 4], mk, [2, 3, 4])
    rates = {}
    if rng.random() < 0.4:
        rates = {"db.exec": 0.03, "db.commit": 0.03, "fs.unlink": 0.05}
    return {"kind": "C12", "keys": keys, "threads": threads, "conf": {"policy": "user", "max": _limit(rng, keys, 0.2)},
            "faults": {"seed": rng.getrandbits(32), "rates": rates, "max": rng.choice([1, 2, 3]), "nokill": True},
            "removal": True, "heal": not pol, "policy_changes": pol, "gran": _gran(rng, 0.3)}


# ------------------------------------------------------------------------------------ execution

def build(plan):
    return World(plan, step_cap=900000)


CK = {"policy": "cache-policy", "max": "maximum-cache-size", "usage": "maximum-cache-disk-usage"}


def hang_kind(w, plan):
    return "hang"


class Disk(Client):
    def __init__(self, w, plan):
        super().__init__(w, plan)
        self.base = plan.get("cdir", "cache")       # relative name of the usual cache directory
        self.cdir = w.path(self.base)
        self.changes = []       # (inv, ret or None, session name): configuration changes
        self.conf = {}          # session -> stack of conf dicts
        self.heal_t0 = None
        self.seq = Seq(self) if plan.get("seq") else None

    # -- configuration
    def full(self, c):
        w = self.w
        d = {}
        for k in CK:
            if k in c:
                d[CK[k]] = c[k]
                if isinstance(c[k], int) and k in ("max", "usage") and (self.plan["seed"] or 0) % 3 == 0:
                    # as people write it
                    d[CK[k]] = f"{c[k]}%" if k == "usage" else f"{c[k] // 1024}k" if c[k] % 1024 == 0 else str(c[k])
        if "dir" in c:
            d["user-cache-directory"] = "~/ucache" if c["dir"] == "~" else w.path(c["dir"])
        if "troot" in c:
            d["temporary-cache-directory-root"] = w.path(c["troot"])
        if "oroot" in c:
            d["temporary-directory-root"] = w.path(c["oroot"])
        return d

    def dir_of(self, c):
        if c.get("dir") == "~":
            return self.w.path("home", "ucache")
        return self.w.path(c.get("dir", self.base))

    def eff(self, s):
        r = {}
        for c in self.conf[s.name]:
            r.update(c)
        return r

    def setup(self, s):
        cfg = s.mod().config
        cfg.autosave = False
        c = dict(self.plan["conf"])
        c.setdefault("dir", self.base)
        self.conf[s.name] = [c]
        cfg.set(self.full(c))
        if self.seq:
            self.seq.opened(s)

    def op_set(self, s, o):
        w = self.w
        cfg = s.mod().config
        c = {k: v for k, v in o.items() if k not in ("op", "temp")}
        ch = [w.step + 1, None, s.name]
        self.changes.append(ch)
        if o.get("temp"):
            cm = cfg.temporary(self.full(c))
            self.conf[s.name].append(c)
            op = w.do(("enter", json.dumps(c)), cm.__enter__)
        else:
            cm = None
            self.conf[s.name][-1].update(c)
            op = w.do(("set", json.dumps(c)), lambda: cfg.set(self.full(c)))
        ch[1] = op.ret
        op.extra = {"c": "set", "o": o, "s": s}
        if not op.ok and not w.faulted(op):
            w.violation(self.prop, "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        self.after_change(s, op)
        return cm

    def leave(self, s, cm):
        w = self.w
        ch = [w.step + 1, None, s.name]
        self.changes.append(ch)
        self.conf[s.name].pop()
        op = w.do(("leave",), lambda: cm.__exit__(None, None, None))
        ch[1] = op.ret
        op.extra = {"c": "set", "o": {}, "s": s}
        self.after_change(s, op)

    def stable(self, s, op):
        """No policy or directory change of this session overlaps op."""
        return not any(n == s.name and a <= op.ret and (b is None or b >= op.inv) for a, b, n in self.changes)

    def after_change(self, s, op):
        """C11: directory and reports follow a change at once."""
        w = self.w
        if not self.plan.get("policy_changes") or self.prop != "C11" or not op.ok:
            return
        c = self.eff(s)
        d = w.do(("dir*",), lambda: s.mod().cache.directory())
        if not d.ok or not self.stable_after(s, op, d):
            return
        self.check_dir(s, c, d.result, d, "directory() after the change")
        r = w.do(("entries*",), lambda: s.mod().cache.entries())
        if not r.ok:
            return w.violation("C11", "reports-fail", repr(r))
        if not self.stable_after(s, op, r):
            return
        self.check_entries_dir(s, c, r)

    def stable_after(self, s, op, d):
        return not any(n == s.name and a > op.ret and a <= d.ret for a, b, n in self.changes)

    def check_dir(self, s, c, d, op, what):
        w = self.w
        p = c["policy"]
        if not isinstance(d, str):
            return w.violation("C11", "wrong-directory", f"{op}: {what}: {d!r}")
        if p == "user":
            if os.path.normpath(d) != os.path.normpath(self.dir_of(c)):
                w.violation("C11", "wrong-directory", f"{op}: {what}: {w.norm(d)} but the policy is user in {w.norm(self.dir_of(c))}")
        else:
            root = c.get("troot" if p == "temporary" else "oroot")
            want = w.path(root) if root else w.path("tmp")
            if os.path.dirname(os.path.normpath(d)) != want:
                w.violation("C11", "wrong-directory", f"{op}: {what}: {w.norm(d)} but the policy is {p} under {w.norm(want)}")
            own = self.tmpdirs.setdefault(d, (s.name, p))
            if own[0] != s.name:
                w.violation("C11", "shared-temporary", f"{op}: {w.norm(d)} was handed to session {own[0]} too")
            if not real["isdir"](d):
                w.violation("C11", "directory-gone", f"{op}: {w.norm(d)} does not exist while its policy is in force")

    tmpdirs = None

    def check_entries_dir(self, s, c, r):
        w = self.w
        if c["policy"] == "off":
            if r.result is not None:
                w.violation("C11", "reports-stale", f"{r} answered {len(r.result)} entries though nothing is managed")
            return
        for e in r.result:
            d = os.path.dirname(e["path"])
            if c["policy"] == "user" and os.path.normpath(d) != os.path.normpath(self.dir_of(c)) \
                    or c["policy"] == "temporary" and self.tmpdirs.get(d, (s.name, "temporary")) != (s.name, "temporary"):
                w.violation("C11", "reports-stale", f"{r} lists {w.norm(e['path'])}, not in the directory in force")

    def op_dir(self, s, o):
        op = super().op_dir(s, o)
        if self.prop == "C11" and op.ok and self.stable(s, op):
            self.check_dir(s, self.eff_at(s, op), op.result, op, "directory()")
        return op

    def op_entries(self, s, o):
        op = super().op_entries(s, o)
        if self.prop == "C11" and op.ok and self.stable(s, op):
            self.check_entries_dir(s, self.eff_at(s, op), op)
        return op

    def eff_at(self, s, op):
        return self.eff(s)      # only used when no change overlaps (so it is still in force)

    def op_file(self, s, o):
        if self.seq:
            self.seq.before(s, o)
        n0 = self.w.wall()
        op = super().op_file(s, o)
        op.extra["wall"] = (n0, self.w.wall())
        if self.prop == "C11" and op.ok and self.stable(s, op) and self.keys[o["k"]]["kind"] == "file":
            c = self.eff(s)
            self.check_dir(s, c, os.path.dirname(op.result), op, "file")
            if c["policy"] == "off":
                if op.result in self.offpaths:
                    self.w.violation("C11", "off-reused", f"{op} returned {self.w.norm(op.result)} a second time")
                self.offpaths.add(op.result)
                if len(op.extra["mine"]) != 1:
                    self.w.violation("C11", "off-not-created", f"{op} ran {len(op.extra['mine'])} creators")
                cur = self.offdir.get(s.name)
                self.offdir[s.name] = os.path.dirname(op.result)
        return op

    offpaths = None
    offdir = None

    def run(self, s, ops):
        stack = []
        for o in ops:
            while stack and stack[-1][1] <= 0:
                self.leave(s, stack.pop()[0])
                if self.seq:
                    self.seq.settle(s, None)
            for x in stack:
                x[1] -= 1
            if self.plan.get("jitter"):
                self.w.sleep(0.3)
            r = self.op(s, o)
            if o["op"] == "set" and o.get("temp"):
                stack.append([r, o["temp"]])
            if self.seq:
                self.seq.after(s, o, r)
        while stack:
            self.leave(s, stack.pop()[0])
            if self.seq:
                self.seq.settle(s, None)

    # -- quiescent checks
    def truth(self, d):
        """Finished files of known keys in directory d: {path: (key, nonce, size)}."""
        out = {}
        try:
            names = sorted(real["listdir"](d))
        except OSError:
            return out
        for n in names:
            p = os.path.join(d, n)
            if ".tmp" in n or n.endswith((".lock", ".deleted")) or ".db" in n:
                continue
            if real["isdir"](p):
                b = read_file(os.path.join(p, "a"))
            else:
                b = read_file(p)
            r = parse(b) if b is not None else None
            if r is None:
                continue
            out[p] = (r[0], r[1], tree_size(p))
        return out

    def report(self, s, prop, ctx, lost_meta=(), lossy=False):
        """Reports agree with the disk. lost_meta: creations whose request was disturbed (their
        metadata may be missing, not wrong). Returns the entries."""
        w = self.w
        cache = s.mod().cache
        ops = []
        for name, f in (("entries", cache.entries), ("size", cache.size), ("summary", cache.summary_dump_database)):
            op = w.do((name + "!",), f)
            op.extra = {"c": name, "s": s, "o": {}}
            ops.append(op)
            if not op.ok:
                w.violation(prop, "report-fails", f"{ctx}: {op} {w.norm(disklib.tb(op.error))}")
                return None
        ents, size, summ = (x.result for x in ops)
        d = cache.directory()
        t = self.truth(d)
        listed = {}
        for e in ents:
            p = e["path"]
            if p in listed:
                w.violation(prop, "listed-twice", f"{ctx}: {w.norm(p)}")
            listed[p] = e
            if not real["exists"](p):
                w.violation(prop, "listed-missing", f"{ctx}: {w.norm(p)}")
            if e["owner"] == "orphans":
                w.probe("orphan-listed")
                continue
            if p not in t:
                w.violation(prop, "listed-unknown", f"{ctx}: {w.norm(str(e))[:500]}")
                continue
            k, nonce, sz = t[p]
            key = self.keys[k]
            if e["size"] != sz:
                w.violation(prop, "wrong-size", f"{ctx}: {w.norm(p)} listed {e['size']}, is {sz}")
            owner = key["owner"] if key["kind"] != "dl" else "url"
            args = key["args"] if key["kind"] != "dl" else {"url": key["url"], "parts": None}
            if e["owner"] != owner or e["args"] != args:
                w.violation(prop, "wrong-record", f"{ctx}: key {k} listed as {e['owner']} {e['args']}")
            if key["kind"] != "dl":
                c = self.by_nonce.get(nonce)
                if c is not None and e["owner_data"] != c.meta and not (nonce in lost_meta and e["owner_data"] is None):
                    w.violation(prop, "wrong-metadata", f"{ctx}: key {k} content {nonce} listed with {e['owner_data']}")
            else:
                if not isinstance(e["owner_data"], dict) and not (lossy and e["owner_data"] is None):
                    w.violation(prop, "wrong-metadata", f"{ctx}: download listed with {e['owner_data']}")
        for p in t:
            if p not in listed:
                if self.plan.get("policy_changes") and t[p][1] in lost_meta:
                    w.probe("excused-by-change")    # finished after its directory was left
                    continue
                w.violation(prop, "not-listed", f"{ctx}: {w.norm(p)} (key {t[p][0]} content {t[p][1]})")
        tot = sum(e["size"] or 0 for e in ents)
        if size != tot:
            w.violation(prop, "wrong-total", f"{ctx}: size() is {size}, the entries sum to {tot}")
        if tuple(summ) != (len(ents), tot):
            w.violation(prop, "wrong-summary", f"{ctx}: summary {summ}, entries {len(ents)} with {tot}")
        return ents

    @property
    def by_nonce(self):
        return {c.nonce: c for c in self.creations}


def tree_size(p):
    if not real["isdir"](p):
        return real["stat"](p).st_size
    return sum(real["stat"](os.path.join(d, f)).st_size for d, _, fs in seams._real_walk(p) for f in fs)


# ------------------------------------------------------------------------------------ C09/C10 model

class Seq:
    """Exact checks for one thread in one session at a time: every removal must be justified."""

    def __init__(self, c):
        self.c = c
        self.files = {}     # path -> [size, created seq, accessed seq, key, nonce, access unknown]
        self.n = 0
        self.partial = {}

    def opened(self, s):
        self.settle(s, None)

    def disk(self):
        return {p: v for p, v in self.c.truth(self.c.cdir).items()}

    def before(self, s, o):
        pass

    def percent(self, used):
        d = self.c.w.disk
        return int(float(used) / d["total"] * 100 + 0.5)

    def used(self):
        w = self.c.w
        return w.disk["base"] + seams.disk_content(w.root)

    def after(self, s, o, op):
        c, w = self.c, self.c.w
        if o["op"] in ("sleep", "jump"):
            if o["op"] == "jump" and o["dt"] < 0:
                self.jumped = True
            return
        if o["op"] == "file" and op.ok:
            self.n += 1
            p = op.result
            if op.extra["mine"] or p not in self.files:
                if p in self.files and not o.get("force") and c.prop in ("C09", "C10"):
                    w.violation(c.prop, "recreated", f"{op}: key {o['k']} was there")
                sz = self.measure(p)
                if sz is not None:
                    self.files[p] = [sz, self.n, self.n, o["k"], op.extra["got"], False]
            else:
                self.files[p][2] = self.n
                self.files[p][5] = False
        if o["op"] == "file" and not op.ok:
            self.partial[o["k"]] = c.keys[o["k"]]["size"] + 600       # may have left something behind, for a while
        if o["op"] == "file" and not op.ok and not o.get("force"):
            self.n += 1
        if o["op"] == "file" and o.get("force") and not op.ok:
            # a refresh that failed may have dropped the old copy
            for p in [p for p, v in self.files.items() if v[3] == o["k"]]:
                if not real["exists"](p):
                    del self.files[p]
                else:
                    self.files[p][5] = True      # whether it counts as an access is not said
        must = None
        if o["op"] == "purge" and op.ok:
            must = self.purged(o)
        self.settle(s, op, must)
        there = [p for p in c.strays if real["exists"](p)]
        if o["op"] == "purge" and o.get("m") not in (None, "all") or \
                o["op"] != "purge" and c.eff(s).get("max") is None and c.eff(s).get("usage") is None:
            # nothing asked for their removal (a partial file or lock without its file may go)
            for p in c.strays:
                if p not in there and p.endswith(".bin"):
                    w.violation("C10", "other-file-removed", f"after {op}: {w.norm(p)} is gone")
        c.strays = there

    jumped = False

    def measure(self, p):
        try:
            return tree_size(p)
        except OSError:
            return self.c.keys and None

    def purged(self, o):
        m = o.get("m")
        out = set()
        for p, (sz, cr, ac, k, nonce, _) in self.files.items():
            key = self.c.keys[k]
            c = self.c.by_nonce.get(nonce)
            if m is None or m == "all":
                out.add(p)
            elif m == "owner":
                if key["kind"] != "dl" and key["owner"] == "own":
                    out.add(p)
            elif m == "args":
                if key["kind"] != "dl" and isinstance(key["args"], dict) and "x" in key["args"]:
                    out.add(p)
            elif m == "big":
                if sz > 2000:
                    out.add(p)
            elif m == "meta":
                if key["kind"] == "dl":         # its metadata has no nonce: see matcher()
                    out.add(p)
                elif c is not None and c.meta and c.meta["nonce"][-1] in "02468":
                    out.add(p)
        return out

    def settle(self, s, op, must=None):
        c, w = self.c, self.c.w
        r = w.do(("size!",), lambda: s.mod().cache.size())       # queued behind everything before
        if not r.ok:
            return w.violation(c.prop, "unexpected-error", repr(r))
        disk = self.disk()
        before = self.files
        gone = [p for p in before if p not in disk]
        extra = [p for p in disk if p not in before]
        if extra and not (op is not None and not op.ok):
            w.violation(c.prop, "unexpected-file", f"after {op}: {w.norm(str(extra))}")
        conf = c.eff(s)
        mx, usage = conf.get("max"), conf.get("usage")
        if must is not None:
            missing = [p for p in must if p in disk]
            if missing:
                w.violation("C10", "not-purged", f"after {op}: {[w.norm(p) for p in missing]} sizes {[before[p][0] for p in missing]}")
            rest = {p: v for p, v in before.items() if p not in must}
            gone = [p for p in gone if p not in must]
        else:
            rest = before
        self.files = {p: v for p, v in before.items() if p in disk}
        total = sum(v[0] for v in self.files.values())
        newest = max((v[1] for v in rest.values()), default=None)
        nojump = not self.jumped
        P = c.prop
        if gone:
            full = sum(v[0] for v in rest.values())
            left = [p for p in rest if p not in gone]
            # was it needed at all, was any of it too much, was the order right?
            last = max(gone, key=lambda p: rest[p][2])
            w.probe("evicted", len(gone))
            why = f"after {op}: removed {[(rest[p][3], rest[p][0], rest[p][2]) for p in gone]} kept " \
                  f"{[(rest[p][3], rest[p][0], rest[p][2]) for p in left]} limit {mx} usage {usage} (key,size,access)"
            size_ok = mx is None or full <= mx
            usage_ok = True
            if usage is not None:
                u_full = self.used() + sum(rest[p][0] for p in gone) + sum(self.partial.values())
                usage_ok = self.percent(u_full) <= usage
            if size_ok and usage_ok:
                w.violation(P, "evicted-needlessly", why)
            elif nojump and not any(rest[p][5] for p in gone):
                if any(rest[p][1] == newest for p in gone):
                    w.violation(P, "evicted-newest", why)
                older = [p for p in left if rest[p][2] < rest[last][2] and rest[p][1] != newest and not rest[p][5]]
                if older:
                    w.violation(P, "evicted-wrong-order", why)
                t1 = total + rest[last][0]
                enough = mx is None or t1 <= mx
                if usage is not None:
                    # with usage the amount is computed in percent: one percent of slack
                    enough = enough and self.percent(self.used() + rest[last][0] + w.disk["total"] * 0.01) <= usage
                if enough:
                    w.violation(P, "evicted-too-much", why)
        if mx is not None and total > mx and nojump:
            ev = [v for v in self.files.values() if v[1] != max(x[1] for x in self.files.values())]
            if ev:
                w.violation(P, "limit-exceeded", f"after {op}: total {total} > {mx} with {len(self.files)} files "
                            f"{[(v[3], v[0]) for v in self.files.values()]}")
        if usage is not None and nojump and self.percent(self.used()) > usage + 1:
            ev = [v for v in self.files.values() if v[1] != max(x[1] for x in self.files.values())]
            if ev:
                w.violation(P, "usage-exceeded", f"after {op}: {self.percent(self.used())}% > {usage}% with {len(self.files)} files")


# ------------------------------------------------------------------------------------ driver

def drive(w, plan):
    prop = plan["prop"]
    c = Disk(w, plan)
    c.tmpdirs, c.offpaths, c.offdir, c.strays = {}, set(), {}, []
    cdir = c.cdir
    c.watch.dirs = [w.path(x) for x in (c.base + "/", "cache/", "cacheB/", "cache2/", "tmp/", "troot1/", "troot2/", "oroot1/", "oroot2/",
                                        "home/ucache/", "home/.cache/")]
    c.watch.allowed = c.watch.dirs + [w.path("home")] + [d[:-1] for d in c.watch.dirs]
    if plan.get("disk"):
        w.disk = dict(plan["disk"])
    if any(k["kind"] == "dl" for k in plan["keys"]):
        w.server = Server(w)
        for i, k in enumerate(plan["keys"]):
            if k["kind"] == "dl":
                w.server.put(k["url"], disklib.content(i, "srv", k["size"]))
    canaries = {}
    if prop == "C10":
        c.watch.allowed = [w.path("home"), w.path(c.base.split("/")[0]), cdir]
        for p in (w.path("cache2/keep.bin"), w.path("cache.old"), w.path("cachefile.cache"), w.path("home/keep.txt"),
                  w.path("keep.cache")):
            real_write(p, b"canary " + p.encode()[-20:])
            canaries[p] = read_file(p)
        if plan.get("orphans"):
            for n in ("stray.bin", "a.bin", "own-abc.cache.tmp", "own-abc.cache.lock", "own-0.bin", "z.bin"):
                p = os.path.join(cdir, n)
                real_write(p, b"orphan" * 20)
                real["utime"](p, (w.wall() - 5000, w.wall() - 5000))
                c.strays.append(p)
            w.probe("orphans-planted")
    state = {"heal": [], "bounded": []}
    phases = sorted({t["ph"] for t in plan["threads"]})
    gate = ("gate",)
    w.gate = False

    def role(i):
        def f(s):
            c.run(s, plan["threads"][i]["ops"])
        return f

    def parked(s):
        s.parked = True
        w.wake_all(("session", s.name))
        while not w.gate:
            w.block(gate)
        heal(s)

    def heal(s):
        for ki in range(len(plan["keys"])):
            o = {"op": "file", "k": ki, "heal": True}
            op = c.op_file(s, o)
            if not op.ok:
                w.violation(prop, "not-healed", f"{op} {w.norm(disklib.tb(op.error))}")
            elif op.tret - op.tinv > 60:
                w.violation(prop, "slow-heal", f"{op} took {op.tret - op.tinv:.0f} s after faults stopped")
            elif op.extra["got"] is None and plan["conf"].get("max") is None and not plan.get("removal"):
                w.violation(prop, "not-healed", f"{op}: content could not be read")
        s.healed = True

    def setup(s):
        s.nofault = not plan.get("boot_faults")
        c.setup(s)
        s.nofault = False

    def driver():
        last = phases[-1] if phases else 0
        for ph in phases:
            names = sorted({t["s"] for t in plan["threads"] if t["ph"] == ph})
            ss = []
            for n in names:
                roles = [(f"t{i}", role(i)) for i, t in enumerate(plan["threads"]) if t["ph"] == ph and t["s"] == n]
                hold = plan.get("heal") and ph == last
                s = w.launch(f"{n}{ph}", roles, setup=setup, teardown=parked if hold else None)
                s.parked = False
                ss.append(s)
            for s in ss:
                if plan.get("heal") and ph == last:
                    while not (s.dead or s.done or s.parked):
                        w.block(("session", s.name))
                else:
                    w.wait(s)
            if ph == last and plan.get("heal"):
                w.faults.on = False
                w.disk_full_ops = 0
                w.sleep(plan.get("gap", 1))
                w.gate = True
                w.wake_all(gate)
                for s in ss:
                    w.wait(s)
            check_gone(c, ss)
            w.sleep(plan.get("gap", 1) if ph != last else 1)
        w.faults.on = False
        w.disk_full_ops = 0
        mx = plan["conf"].get("max")
        if prop == "C09" and not c.seq and mx is not None and not any(o["op"] == "set" for t in plan["threads"] for o in t["ops"]):
            t = c.truth(c.cdir)
            tot = sum(v[2] for v in t.values())
            if tot > mx and len(t) > 1:
                w.violation("C09", "limit-exceeded", f"all requests have finished: {tot} bytes in {len(t)} files, maximum {mx}: "
                            f"{[(v[0], v[2]) for v in t.values()]}")
        final(c, w, plan, prop, state, heal, setup)
        for s in w.sessions:
            if s.uncaught and not s.dead:
                w.violation(prop, "thread-died", s.uncaught[0][3])

    w.sample = {"plan": {k: plan[k] for k in ("kind", "keys", "conf", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    if not w.violations and w.outcome == "done":
        post(c, w, plan, prop, canaries)
    w.nontrivial = len(w.ops) >= 4 and (w.switches > len(w.sessions) * 3)


def real_write(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with real["open"](p, "wb") as f:
        f.write(b)


def check_gone(c, ss):
    """C11: temporary directories of sessions that exited are gone."""
    w = c.w
    for s in ss:
        if s.dead and not s.exited:
            continue
        for d, own in c.tmpdirs.items():
            if own[0] == s.name and real["exists"](d):
                w.violation("C11", "temporary-left", f"{w.norm(d)} of {own} is still there after the session exited")


def final(c, w, plan, prop, state, heal, setup):
    """A fresh session at quiescence."""
    pol = plan["conf"].get("policy", "user")
    if pol != "user" and prop != "C11":
        return

    def body(s):
        killed = any(x.dead and not x.exited for x in w.sessions)
        lost = {x.nonce for x in c.creations if x.killed or _disturbed(c, x)}
        # a refresh that was disturbed may have got as far as forgetting the old metadata
        redone = {x.key for x in c.creations if x.nonce in lost}
        lost |= {x.nonce for x in c.creations if x.key in redone}
        if c.plan.get("policy_changes"):
            c.conf[s.name] = [{"policy": "user", "dir": c.base}]
            s.mod().config.set(c.full({"policy": "user", "dir": c.base, "max": None}))
        faulty = bool(w.fault_steps or killed or plan.get("policy_changes"))
        if prop in ("C05", "C07", "C12", "C06") and plan.get("heal"):
            if prop == "C07":
                c.report(s, "C07", "after faults stopped, before anything is requested", lost, faulty)
            heal(s)
        if prop in ("C07", "C08", "C09", "C10", "C12"):
            c.report(s, prop, "new session after everything finished", lost if faulty else (), faulty)
        if prop in ("C07", "C09") and plan["conf"].get("max") is not None and not c.seq:
            limit(c, s, prop)
        if prop == "C11":
            for op in w.ops:
                x = op.extra
                if x and x.get("c") == "file" and op.ok and os.path.dirname(op.result) == c.cdir:
                    if not real["exists"](op.result):
                        w.violation("C11", "user-file-lost", f"{op}: gone from the user cache")
            ents = c.report(s, "C11", "later session with the same directory", lost, True)
            have = {p: v for p, v in c.truth(c.cdir).items()}
            for p, (k, nonce, sz) in have.items():
                op = c.op_file(s, {"op": "file", "k": k})
                if op.ok and op.extra["mine"]:
                    w.violation("C11", "user-file-not-found", f"{op}: created again though {w.norm(p)} is there")
        if prop == "C08":
            recheck(c, s)
        state["final"] = True

    s = w.launch("z9", [("t", body)], setup=setup)
    w.wait(s)


def _disturbed(c, x):
    """A fault hit the request of creation x after its creator had returned."""
    for op in c.w.ops:
        if op.extra and op.thread == x.thread and op.inv <= x.start and (op.ret is None or op.ret >= x.start):
            return op.ret is None or c.w.faulted(op) or not c.stable(op.extra["s"], op)
    return True


def limit(c, s, prop):
    """The limit is in force: a new file makes the total fit (or only spared files remain)."""
    w = c.w
    key = {"kind": "file", "owner": "own", "args": ["probe"], "ext": ".cache", "name": "probe", "size": 400}
    c.keys.append(key)
    op = c.op_file(s, {"op": "file", "k": len(c.keys) - 1})
    if not op.ok:
        return w.violation(prop, "not-healed", repr(op))
    r = w.do(("size!",), lambda: s.mod().cache.size())
    t = c.truth(c.cdir)
    tot = sum(v[2] for v in t.values())
    mx = c.eff(s).get("max")
    if r.ok and tot > mx and len(t) > 1:
        w.violation(prop, "limit-exceeded", f"{tot} bytes in {len(t)} files, maximum {mx}: {[(v[0], v[2]) for v in t.values()]}")


def recheck(c, s):
    """C08: a re-request changes the access record and nothing else."""
    w = c.w
    cache = s.mod().cache
    for k in range(len(c.keys)):
        e0 = {e["path"]: e for e in cache.entries()}
        op = c.op_file(s, {"op": "file", "k": k})
        if not op.ok or op.extra["mine"] or op.result not in e0:
            if op.ok and op.result in e0 and op.extra["mine"]:
                w.violation("C08", "recreated", f"{op}: listed and present, created again")
            continue
        e1 = {e["path"]: e for e in cache.entries()}.get(op.result)
        if e1 is None:
            continue
        a, b = e0[op.result], e1
        for f in ("creation_date", "owner_data", "owner", "args", "size"):
            if a[f] != b[f]:
                w.violation("C08", "changed-by-access", f"{op}: {f} was {a[f]} is {b[f]}")
        if not (b["accesses"] > a["accesses"] and str(b["last_access"]) > str(a["last_access"])):
            w.violation("C08", "access-not-recorded", f"{op}: accesses {a['accesses']} -> {b['accesses']}, last {a['last_access']} -> {b['last_access']}")
        w.probe("access-checked")


def spared(c, w):
    """C09, concurrent plans: files which eviction had to leave alone."""
    fops = [o for o in w.ops if o.extra and o.extra.get("c") == "file"]
    inf = 1 << 60
    path, first = {}, {}
    for o in fops:
        if o.ok:
            path[o.extra["k"]] = o.result
        first[o.extra["k"]] = min(first.get(o.extra["k"], inf), o.inv)
    opof = {x.nonce: o for o in fops for x in o.extra["mine"]}
    for k, p in path.items():
        for st, tn in c.watch.removed.get(p, ()):
            made = [x for x in c.creations if x.key == k and x.ok and x.end < st]
            if not made or any(o.inv <= st <= (o.ret or inf) and o.desc[0].startswith("purge") for o in w.ops) or any(
                    x.key == k and x.start <= st <= (x.end or inf) for x in c.creations):
                continue
            w.probe("evictions-judged")
            mine = opof[made[-1].nonce]
            # earlier creations that are still running
            for a in c.creations:
                if a.key != k and a.start <= st < (a.end or inf) and a.start < first[k] and first[a.key] == opof[a.nonce].inv:
                    w.violation("C09", "spared-file-evicted", f"{mine}: {w.norm(p)} evicted at {st} by {tn}, although the creation "
                                f"{a.nonce} of key {a.key}, which had started before it, was running [{a.start},{a.end}]")
            # the most recently created one
            if first[k] == mine.inv and len(made) == 1 and all(
                    opof[a.nonce].inv > st or (a.end is not None and a.end < mine.inv) for a in c.creations if a.key != k) and all(
                    o.ret is not None and o.ret < mine.inv or o.inv > st for o in fops if o.extra["k"] != k):
                w.violation("C09", "spared-file-evicted", f"{mine}: {w.norm(p)}, the most recently created file, evicted at {st} by {tn}")


def post(c, w, plan, prop, canaries):
    """Checks over the recorded history."""
    returned = {}
    for op in w.ops:
        x = op.extra
        if x and x.get("c") == "file" and op.ok and isinstance(op.result, str):
            returned.setdefault(op.result, set()).add(x["k"])
    # C06: paths
    byname = {}
    for p, ks in returned.items():
        names = {c.keys[k]["name"] if c.keys[k]["kind"] != "dl" else c.keys[k]["url"] for k in ks}
        if len(names) > 1:
            w.violation("C06", "path-shared", f"{w.norm(p)} returned for {sorted(names)}")
        if os.path.dirname(p) == c.cdir:
            byname.setdefault(min(names), set()).add(p)
    for n, ps in byname.items():
        if len(ps) > 1:
            w.violation("C06", "path-differs", f"{n}: {[w.norm(p) for p in ps]}")
    # C05: nothing incomplete was ever under a returned name
    if prop in ("C05", "C06", "C07"):
        for p, ks in returned.items():
            for q, h in c.watch.hist.items():
                if q != p and not q.startswith(p + "/"):
                    continue
                for st, b, tn in c.watch.states(q):
                    r = parse(b)
                    if r is None or r[0] not in ks:
                        w.violation("C05", "partial-visible", f"{w.norm(q)} held {len(b)} bytes at step {st} (by {tn}): not a "
                                    f"complete content of key {sorted(ks)}")
    # C06: creators
    groups = {}
    for x in c.creations:
        groups.setdefault((c.keys[x.key]["name"], x.dir), []).append(x)
    pathof = {}
    for p, ks in returned.items():
        for k in ks:
            pathof[(c.keys[k]["name"], os.path.dirname(p))] = p
    if plan["conf"].get("policy", "user") == "user" and not plan.get("policy_changes"):
        for g, xs in groups.items():
            xs.sort(key=lambda x: x.start)
            for a, b in zip(xs, xs[1:]):
                if a.end is None or b.start < a.end:
                    w.violation("C06", "creators-overlap", f"key {a.key}: {a.nonce} in {a.thread} [{a.start},{a.end}] and {b.nonce} in "
                                f"{b.thread} [{b.start},{b.end}]")
            p = pathof.get(g)
            if p is None or w.fault_steps:
                continue
            h = c.watch.hist.get(p, [])
            if c.keys[xs[0].key]["kind"] == "dir":
                h = [(x.end, True, "") for x in xs if x.ok] + [(st, None, n) for st, n in c.watch.removed.get(p, ())]
                h.sort(key=lambda y: y[0])
            for x in xs:
                prev = [y for y in h if y[0] < x.start]
                if prev and prev[-1][1] is not None:
                    f = [op for op in w.ops if op.thread == x.thread and op.inv <= x.start and (op.ret or 1 << 60) >= x.start]
                    if f and f[0].desc[0] == "file" and len(f[0].desc) > 2 and (f[0].desc[2] == "yes" or f[0].desc[2] == "call-yes"
                                                                               and f[0].extra["forced"]):
                        continue
                    w.violation("C06", "created-again", f"key {x.key}: {x.nonce} by {x.thread} at {x.start} though {w.norm(p)} was there since "
                                f"{prev[-1][0]}")
    # C06: refresh decisions see the metadata of what is there
    if prop == "C06":
        for op in w.ops:
            x = op.extra
            if not x or x.get("c") != "file" or not x["forced"] or c.keys[x["k"]]["kind"] == "dl":
                continue
            if len(x["forced"]) != 1:
                w.violation("C06", "forced-calls", f"{op}: refresh decision asked {len(x['forced'])} times")
            args, path, od = x["forced"][0]
            if any(o2 is not op and o2.extra and o2.inv <= op.ret and (o2.ret or 1 << 60) >= op.inv
                   and (o2.extra.get("c") == "purge" or o2.extra.get("k") == x["k"]) for o2 in w.ops):
                continue
            done = [y for y in c.creations if y.key == x["k"] and y.ok and y.end < op.inv]
            if done and (od != done[-1].meta or args != c.keys[x["k"]]["args"]):
                w.violation("C06", "stale-metadata", f"{op}: refresh decision saw {od}, created was {done[-1].meta}")
            w.probe("metadata-seen")
    if prop == "C09" and not c.seq and not w.fault_steps:
        spared(c, w)
    # C10: containment
    if prop == "C10":
        for p, b in canaries.items():
            if read_file(p) != b:
                w.violation("C10", "outside-damaged", w.norm(p))
        bad = [o for o in c.watch.outside if not o[3].startswith(("$R/home", "$R/tmp"))]
        if bad:
            w.violation("C10", "outside-touched", repr(bad[:5]))
        for x in c.creations:
            if x.end is None or x.killed:
                continue
            for p, rs in c.watch.removed.items():
                if p == x.target or p.startswith((x.target + ".", x.target + os.sep)) and not p.endswith(".lock"):
                    for st, tn in rs:
                        if x.start < st < x.end and tn != x.thread:
                            w.violation("C10", "removed-in-progress", f"{w.norm(p)} of {x.nonce} [{x.start},{x.end}] removed at {st} by {tn}")

"""Configuration: saving and restarting (C17), temporary scopes (C18), followers of the configuration (C19)."""
import os

from . import disklib, inv, seams
from .disklib import Watch
from .world import World

real = seams.real
K = 1024
# option -> {raw value: value get() returns}
VALS = {
    "url-download-timeout": [("10s", 10), ("1m", 60), (7, 7), (45, 45), ("2h", 7200)],
    "maximum-cache-size": [("1GB", K ** 3), ("2K", 2 * K), ("200MB", 200 * K * K), (None, None), (123456, 123456)],
    "maximum-cache-disk-usage": [(None, None), ("95%", 95), ("99%", 99)],
    "check-out-of-date-urls": [(True, True), (False, False)],
    "download-out-of-date-urls": [(True, True), (False, False)],
    "maximum-weights-memory-cache-size": [(None, None), ("100MB", 100 * K * K), (777777, 777777), ("1GB", K ** 3), ("30KB", 30 * K)],
    "weights-memory-cache-policy": [(x, x) for x in ("off", "unlimited", "largest", "lru")],
    "weights-memory-cache-strict-mode": [(True, True), (False, False)],
    "temporary-directory-root": [(None, None), ("$R/o1", "$R/o1"), ("$R/o2", "$R/o2")],
    "temporary-cache-directory-root": [(None, None), ("$R/t1", "$R/t1"), ("$R/t2", "$R/t2")],
    "user-cache-directory": [("$R/u1", "$R/u1"), ("$R/u2", "$R/u2"), ("$R/u3", "$R/u3")],
    "cache-policy": [(x, x) for x in ("off", "temporary", "user")],
}
DEFAULT_GET = {"url-download-timeout": 30, "maximum-cache-size": 5 * K ** 3, "maximum-weights-memory-cache-size": 500 * K * K}
NAMES = sorted(VALS)
CHEAP = [n for n in NAMES if n not in ("cache-policy", "user-cache-directory", "temporary-cache-directory-root",
                                       "temporary-directory-root")]
WHERE = ("cache-policy", "user-cache-directory", "temporary-cache-directory-root", "temporary-directory-root")
BAD = [("no-such-option", 1), ("cache-policy", "sometimes"), ("weights-memory-cache-policy", "all"),
       ("maximum-cache-size", "lots"), ("url-download-timeout", "soon"), ("maximum-cache-disk-usage", "a lot"),
       ("maximum-weights-memory-cache-size", "12 zillion")]
ENVS = {"url-download-timeout": ("5", 5), "maximum-cache-size": ("1000000", 1000000),
        "weights-memory-cache-policy": ("lru", "lru"), "maximum-weights-memory-cache-size": ("64MB", 64 * K * K)}


def env_name(k):
    return "EARTHKIT_REGRID_" + k.upper().replace("-", "_")


# ------------------------------------------------------------------------------------ plans

def a_kv(rng, names, n=None):
    n = n or rng.choice([1, 1, 1, 2, 3])
    return [[k, rng.choice(VALS[k])[0]] for k in rng.sample(names, min(n, len(names)))]


def style(rng, kv):
    if len(kv) == 1:
        return rng.choice(["pos", "dict", "kw"])
    return rng.choice(["dict", "kw"])


def a_set(rng, names, bad=0.0):
    kv = a_kv(rng, names)
    o = {"op": "set", "kv": kv, "style": style(rng, kv)}
    if rng.random() < bad:
        kv.insert(rng.randrange(len(kv) + 1), list(rng.choice(BAD)))
        seen = {}
        for k, v in kv:
            seen[k] = v
        if len(seen) < len(kv):
            del kv[1:]
            kv[0] = list(rng.choice(BAD))
        o["style"] = "dict" if len(kv) > 1 else o["style"] if o["style"] != "kw" or len(kv) == 1 else "dict"
        if len(kv) > 1 and rng.random() < 0.4:
            o["style"] = "kw"
        o["bad"] = True
    return o


def a_reset(rng, names):
    return {"op": "reset", "name": rng.choice(names) if rng.random() < 0.75 else None}


def gen(rng, prop, tier):
    plan = {"faults": {}, "gran": "line"}
    globals()["gen_" + prop](rng, plan, tier)
    return plan


def gen_C17(rng, plan, tier):
    plan["kind"] = rng.choice(["seq", "conc", "conc", "start"])
    names = CHEAP if rng.random() < 0.8 else NAMES
    conc = plan["kind"] != "seq"
    plan["file"] = rng.choice(["none", "none", "none", "saved", "old-version", "migrate"])
    plan["file_kv"] = a_kv(rng, CHEAP, rng.choice([1, 2, 4]))
    out = []

    def mk(sole):
        x = rng.random()
        if x < 0.55:
            return a_set(rng, names)
        if x < 0.68:
            return a_reset(rng, names)
        if x < 0.76 and sole:
            return {"op": "scope", "kv": a_kv(rng, names), "ops": [a_set(rng, names) for _ in range(rng.choice([0, 1, 2]))],
                    "dt": rng.choice([0, 0, 0.3])}
        if x < 0.82 and sole:
            return {"op": "autosave", "v": rng.random() < 0.4}
        if x < 0.88:
            return {"op": "save_as"}
        return {"op": "sleep", "dt": rng.choice([0.01, 0.3, 2])}
    for ph in range(rng.choice([1, 2, 3]) if plan["kind"] != "start" else 1):
        for s in range(rng.choice([2, 3]) if conc else 1):
            nt = rng.choice([1, 1, 2]) if plan["kind"] == "conc" else 1
            for _ in range(nt):
                n = rng.choice([1, 2, 4]) if conc else rng.choice([3, 6])
                out.append({"ph": ph, "s": "abc"[s], "delay": round(rng.choice([0, 0, 0.05, 1]) * rng.random(), 3),
                            "ops": [mk(nt == 1) for _ in range(n)]})
    plan["threads"] = out
    plan["env"] = {n: [k for k in sorted(ENVS) if rng.random() < 0.3] for n in "abc" if rng.random() < 0.25}
    if rng.random() < 0.6:
        r = rng.choice([0.03, 0.1, 0.3])
        plan["faults"] = {"seed": rng.getrandbits(32), "max": rng.choice([1, 1, 2, 4]), "match": ["/.config", "/.earthkit"],
                          "rates": {"fs.write": r, "fs.open-w": r, "fs.rename": r, "fs.unlink": r, "fs.mkdir": r}}
        plan["boot_faults"] = rng.random() < 0.5
    plan["gran"] = "instr" if rng.random() < 0.1 else "line"


def gen_C18(rng, plan, tier):
    plan["kind"] = rng.choice(["plain", "plain", "observers", "observers", "disk"])
    names = NAMES if plan["kind"] == "disk" or rng.random() < 0.3 else CHEAP
    ops = []
    depth = 0
    lifo = rng.random() < 0.6
    for _ in range(rng.randrange(6, 26)):
        x = rng.random()
        if x < 0.28 and depth < 5:
            o = a_set(rng, names, 0.2)
            o["op"] = "enter"
            if rng.random() < 0.12:
                o["kv"], o["bad"] = [], False
            ops.append(o)
            depth += 1
        elif x < 0.50 and depth:
            ops.append({"op": "leave", "i": 0 if lifo else rng.randrange(3), "exc": rng.random() < 0.4})
            depth -= 1
        elif x < 0.72:
            ops.append(a_set(rng, names, 0.3))
        elif x < 0.80:
            ops.append(a_reset(rng, names) if rng.random() < 0.85 else {"op": "reset", "name": "no-such-option"})
        elif x < 0.90 and plan["kind"] == "observers":
            ops.append({"op": "arm", "i": rng.randrange(2), "n": rng.choice([1, 1, 2, 3]), "skip": rng.choice([0, 0, 1, 2])})
        elif x < 0.96:
            k = rng.choice(sorted(ENVS))
            ops.append({"op": "env", "k": k, "on": rng.random() < 0.6})
        else:
            ops.append({"op": "autosave", "v": rng.random() < 0.5})
    plan["threads"] = [{"ops": ops}]
    plan["env"] = [k for k in sorted(ENVS) if rng.random() < 0.1]
    plan["sched"] = {"mode": "serial"}
    if plan["kind"] == "disk":
        plan["faults"] = {"seed": rng.getrandbits(32), "max": rng.choice([1, 2, 4]), "nokill": True,
                          "rates": {"fs.mkdir": 0.3, "fs.open-w": 0.1, "fs.write": 0.1, "db.open": 0.1}}


def gen_C19(rng, plan, tier):
    plan["kind"] = rng.choice(["one-setter", "one-setter", "two-setters", "scopes"])
    heavy = rng.random() < 0.6
    names = NAMES if heavy else CHEAP
    mem = ["weights-memory-cache-policy", "maximum-weights-memory-cache-size", "weights-memory-cache-strict-mode"]
    if rng.random() < 0.4:
        names = mem + ["maximum-cache-size"]
    out = []
    nset = 1 if plan["kind"] == "one-setter" else rng.choice([2, 2, 3])

    def setter():
        ops, depth = [], 0
        for _ in range(rng.choice([3, 5, 8])):
            x = rng.random()
            if x < 0.3 and depth < 3:
                o = a_set(rng, names)
                o["op"] = "enter"
                ops.append(o)
                depth += 1
            elif x < 0.5 and depth:
                ops.append({"op": "leave", "i": 0, "exc": rng.random() < 0.3})
                depth -= 1
            elif x < 0.85:
                ops.append(a_set(rng, names))
            else:
                ops.append(a_reset(rng, names))
        return ops

    def user():
        ops = []
        for _ in range(rng.choice([2, 4, 6])):
            x = rng.random()
            if x < 0.45:
                ops.append({"op": "regrid", "k": rng.randrange(3), "v": rng.randrange(100)})
            elif x < 0.65:
                ops.append({"op": "file", "k": rng.randrange(3)})
            elif x < 0.75:
                ops.append({"op": "info"})
            elif x < 0.85:
                ops.append({"op": "get"})
            elif x < 0.92:
                ops.append({"op": "clear"})
            else:
                ops.append({"op": "check"})
        return ops
    for _ in range(nset):
        out.append({"role": "set", "ops": setter()})
    for _ in range(rng.choice([1, 2, 3])):
        out.append({"role": "use", "ops": user()})
    plan["threads"] = out
    keys = [(i, o, m) for i in range(len(inv.GRIDS_IN)) for o in range(len(inv.GRIDS_OUT)) for m in inv.METHODS[:2]]
    ms = rng.getrandbits(20)
    plan["specs"] = [[i, o, m, rng.choice([40, 300, 900]), ms + n] for n, (i, o, m) in enumerate(rng.sample(keys, 3))]
    plan["start"] = a_kv(rng, NAMES, rng.choice([0, 2, 4]) or 1)
    plan["autosave"] = rng.random() < 0.2
    plan["gran"] = "instr" if rng.random() < 0.3 else "line"


def build(plan):
    return World(plan, step_cap=1500000)


# ------------------------------------------------------------------------------------ common

class Conf:
    def __init__(self, w, plan):
        self.w, self.plan, self.prop = w, plan, plan["prop"]

    def val(self, v):
        return v.replace("$R", self.w.root) if isinstance(v, str) else v

    def got(self, k, raw):
        """The value get() returns for a raw value."""
        for a, b in VALS[k]:
            if self.val(a) == raw and type(self.val(a)) is type(raw):
                return self.val(b)
        if raw == self.defaults[k]:
            return DEFAULT_GET.get(k, raw)
        raise KeyError((k, raw))

    def read_defaults(self, s):
        self.defaults = {k: v for k, v in s.mod("utils.config").DEFAULTS.items()}

    def now(self, s):
        return {k: v for k, v, _ in s.mod().config.dump() if k in VALS}

    def args(self, o):
        kv = {k: self.val(v) for k, v in o["kv"]}
        if o["style"] == "dict":
            return (kv,), {}
        if o["style"] == "kw":
            return (), {k.replace("-", "_"): v for k, v in kv.items()}
        k = list(kv)[0]
        return (k, kv[k]), {}

    def coerce(self, k, v):
        return self.val(v)


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k, "?") != b.get(k, "?")}


def drive(w, plan):
    globals()["drive_" + plan["prop"]](w, plan)


# ------------------------------------------------------------------------------------ C17

class Save:
    __slots__ = ("inv", "ret", "sess", "kv", "full", "clean", "op")

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)


def drive_C17(w, plan):
    c = Conf(w, plan)
    watch = Watch(w)
    watch.dirs = [w.path("home") + "/"]
    watch.allowed = [w.root]
    path = w.path("home", ".config", "earthkit", "regrid", "config.yaml")
    from_file = {k: c.val(v) for k, v in plan["file_kv"]}
    if plan["file"] in ("saved", "old-version"):
        os.makedirs(os.path.dirname(path))
        write_yaml(path, from_file, "0.0.1" if plan["file"] == "old-version" else "999")
    elif plan["file"] == "migrate":
        os.makedirs(w.path("home", ".earthkit_regrid"))
        write_yaml(w.path("home", ".earthkit_regrid", "settings.yaml"), from_file, "0.0.1")
    initial = []
    saves = []             # every call that may have written the configuration file
    extra = []             # save_as files
    c.boots = []
    for d in ("u1", "u2", "u3", "t1", "t2", "o1", "o2"):
        os.makedirs(w.path(d))
    live = {}
    logs = {}

    def possible(save, k):
        """Values of option k a save may have written."""
        out = set()
        if k in save.kv:
            out.add(save.kv[k])
        mine = live[save.sess]["sets"]
        end = save.ret if save.ret is not None else 1 << 60
        last = None
        for inv_, ret, kv in mine:
            if k not in kv:
                continue
            if ret is not None and ret < save.inv:
                if last is None or ret > last[0]:
                    last = (ret, inv_, kv[k])
            elif inv_ <= end:
                out.add(kv[k])
        # what was there before: the last set, and the ones running at the same time as it
        if k not in save.kv or len(out) > 1 or not out:
            if last is None:
                out.add(live[save.sess]["start"][k])
            else:
                for inv_, ret, kv in mine:
                    if k in kv and ret is not None and ret < save.inv and ret >= last[1]:
                        out.add(kv[k])
        return out

    def explained(cfg, start, end):
        """Some save begun by end wrote cfg, and no other one finished between it and start."""
        stale = None
        for sv in [None] + saves:
            if sv is None:
                if cfg not in initial:
                    continue
                ret = 0
            else:
                if sv.inv > end or not all(cfg[k] in possible(sv, k) for k in VALS):
                    continue
                ret = sv.ret if sv.ret is not None else 1 << 60
            later = [a for a in saves if a is not sv and a.clean and a.ret is not None and a.ret <= start and a.inv > ret]
            if not later:
                return True, None
            stale = later[0]
        return False, stale

    def setup(s):
        s.nofault = True
        cfg = c.now(s)
        if not hasattr(c, "defaults"):
            c.read_defaults(s)
        if not initial:
            base = dict(c.defaults)
            if plan["file"] in ("saved", "old-version"):
                base.update(from_file)
                initial.append(base)
            elif plan["file"] == "migrate":
                initial.append(dict(base, **from_file))
                if plan["faults"]:
                    initial.append(base)
            else:
                initial.append(base)
        check_start(s, cfg, s.t_start, w.step)
        if plan["file"] == "old-version":
            # starting rewrites the file in the form of this version
            sv = Save()
            sv.inv, sv.ret, sv.sess, sv.kv, sv.clean, sv.op = s.t_start, w.step, s, dict(cfg), False, None
            live[s] = {"start": dict(cfg), "sets": []}
            saves.append(sv)
        live.setdefault(s, {"start": dict(cfg), "sets": []})
        live[s]["base"] = dict(cfg)
        live[s]["auto"] = True
        s.nofault = False

    def check_start(s, cfg, start, end, what=None):
        ok, stale = explained(cfg, start, end)
        if ok:
            return
        near = initial[0]
        for sv in saves:
            if sv.full and len(diff(cfg, sv.full)) < len(diff(cfg, near)):
                near = sv.full
        d = {k: tuple(w.norm(x) for x in v) for k, v in diff(cfg, near).items()}
        if stale is not None:
            w.violation("C17", "saved-value-lost", f"{what or s.name} reads an older configuration than the one saved by "
                        f"{stale.op} in {stale.sess.name}; differs from it by { {k: tuple(w.norm(x) for x in v) for k, v in diff(cfg, stale.full).items()} }")
        else:
            w.violation("C17", "not-saved-by-anyone", f"{what or s.name} reads a configuration nobody saved; differs from "
                        f"the nearest by {d} (read, saved)")

    def base_op(s, o, fn, kv):
        L = live[s]
        rec = [w.step, None, kv]
        L["sets"].append(rec)
        sv = None
        if L["auto"]:
            sv = Save()
            sv.inv, sv.ret, sv.sess, sv.kv, sv.clean, sv.op = w.step, None, s, dict(kv), False, None
            sv.full = dict(L["base"], **kv)
            saves.append(sv)
        L["base"].update(kv)
        op = w.do((o["op"], {k: w.norm(v) for k, v in kv.items()}), fn)
        rec[1] = op.ret
        if sv is not None:
            sv.ret, sv.op = op.ret, op
            sv.clean = op.ok and not w.faulted(op)
        if not op.ok and not w.faulted(op):
            w.violation("C17", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")

    def run_op(s, o):
        cfg = s.mod().config
        x = o["op"]
        if x == "set":
            a, kw = c.args(o)
            base_op(s, o, lambda: cfg.set(*a, **kw), {k: c.val(v) for k, v in o["kv"]})
        elif x == "reset":
            n = o["name"]
            base_op(s, o, (lambda: cfg.reset()) if n is None else (lambda: cfg.reset(n)),
                    dict(c.defaults) if n is None else {n: c.defaults[n]})
        elif x == "scope":
            a, kw = c.args(dict(o, style="dict"))
            cm = cfg.temporary(*a, **kw)
            w.do(("enter",), cm.__enter__)
            for p in o["ops"]:
                a, kw = c.args(p)
                w.do(("set-in-scope",), lambda: cfg.set(*a, **kw))
            if o["dt"]:
                w.sleep(o["dt"])
            w.do(("leave",), lambda: cm.__exit__(None, None, None))
        elif x == "autosave":
            cfg.autosave = o["v"]
            live[s]["auto"] = o["v"]
        elif x == "save_as":
            p = w.path("home", ".config", f"copy{len(extra)}.yaml")
            extra.append(None)
            n = len(extra) - 1
            sv = Save()
            sv.inv, sv.sess, sv.kv = w.step, s, {}
            op = w.do(("save_as",), lambda: cfg.save_as(p))
            sv.ret, sv.op = op.ret, op
            if op.ok and not w.faulted(op):
                extra[n] = (p, sv)
        elif x == "sleep":
            w.sleep(o["dt"])

    def role(t):
        def f(s):
            if t["delay"]:
                w.sleep(t["delay"])
            for o in t["ops"]:
                run_op(s, o)
        return f

    def start(name, roles, setup_, env=None):
        s = w.launch(name, roles, setup=setup_, env=env)
        s.t_start = w.step
        return s

    def driver():
        for ph in sorted({t["ph"] for t in plan["threads"]}):
            ss = []
            for n in sorted({t["s"] for t in plan["threads"] if t["ph"] == ph}):
                ts = [t for t in plan["threads"] if t["ph"] == ph and t["s"] == n]
                s = start(f"{n}{ph}", [(f"t{plan['threads'].index(t)}", role(t)) for t in ts], setup,
                          {env_name(k): ENVS[k][0] for k in plan["env"].get(n, ())})
                ss.append(s)
                if ts[0]["delay"]:
                    w.sleep(ts[0]["delay"])
            for s in ss:
                w.wait(s)
                if s.uncaught and not s.dead:
                    w.violation("C17", "thread-died", s.uncaught[0][3])
        w.faults.on = False
        w.sleep(1)
        s = start("z9", [], setup)
        w.wait(s)
        # every content the file ever had, read by a session of its own
        seen = set()
        for st, b, tn in watch.states(path)[-40:]:
            if b in seen or len(seen) >= 6:
                continue
            seen.add(b)
            probe("p%d" % len(seen), b, st, f"a session started at step {st}, when {tn} had changed the file, ")
        for x in extra[:2]:
            if x is None:
                continue
            p, sv = x
            b = disklib.read_file(p)
            if b is None:
                w.violation("C17", "copy-missing", f"{sv.op} wrote nothing")
                continue

            def look(s, sv=sv):
                cfg = c.now(s)
                if not all(cfg[k] in possible(sv, k) for k in VALS):
                    w.violation("C17", "copy-differs", f"{sv.op} wrote a configuration that was not in force")
            home = w.path("probe%d" % len(os.listdir(w.root)))
            os.makedirs(home)
            with real["open"](os.path.join(home, "config.yaml"), "wb") as f:
                f.write(b)
            s = start("q", [], look, {"EARTHKIT_REGRID_CONFIG_FILE": os.path.join(home, "config.yaml")})
            w.wait(s)

    def probe(name, b, step, what):
        home = w.path(name)
        os.makedirs(home)
        with real["open"](os.path.join(home, "config.yaml"), "wb") as f:
            f.write(b)

        def look(s):
            check_start(s, c.now(s), step, step, what)
            w.probe("file-state-checked")
        s = start(name, [], look, {"EARTHKIT_REGRID_CONFIG_FILE": os.path.join(home, "config.yaml")})
        w.wait(s)

    w.sample = {"plan": {k: plan[k] for k in ("kind", "file", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    w.nontrivial = len(saves) >= 2


def write_yaml(p, kv, version):
    import yaml
    with real["open"](p, "w") as f:
        yaml.dump(dict(kv), f, default_flow_style=False)
        yaml.dump({"version": version}, f, default_flow_style=False)


# ------------------------------------------------------------------------------------ C18, C19

class ObserverError(Exception):
    pass


def drive_C18(w, plan):
    c = Conf(w, plan)
    for d in ("u1", "u2", "u3", "t1", "t2", "o1", "o2"):
        os.makedirs(w.path(d))
    env = {env_name(k): ENVS[k][0] for k in plan.get("env", ())}
    st = {"env": {k: ENVS[k] for k in plan.get("env", ())}}

    class Observer:
        def __init__(self, i):
            self.i, self.n, self.skip, self.calls = i, 0, 0, 0

        def __call__(self):
            self.calls += 1
            if self.skip > 0:
                self.skip -= 1
            elif self.n > 0:
                self.n -= 1
                w.count_fault("observer-raises")
                w.fault_steps.append((w.step, "observer", "observer"))
                raise ObserverError(f"observer {self.i}")
    obs = [Observer(0), Observer(1)]

    def setup(s):
        s.nofault = True
        cfg = s.mod().config
        cfg.autosave = False
        c.read_defaults(s)
        st["stack"] = [c.now(s)]
        st["scopes"] = []
        for o in obs:
            cfg.on_change(o)
        s.nofault = False

    def expect(k):
        if k in st["env"]:
            return st["env"][k][1]
        return c.got(k, st["stack"][-1][k])

    def check(s, op, before):
        cfg = s.mod().config
        now = c.now(s)
        want = st["stack"][-1]
        if now != want:
            what = "changed-by-failure" if not op.ok else "wrong-values"
            return w.violation("C18", what, f"{op}: {len(st['scopes'])} scopes; in force "
                               f"{ {k: tuple(w.norm(x) for x in v) for k, v in diff(now, want).items()} } (is, should be)")
        for k in NAMES:
            g = cfg.get(k)
            if g != expect(k):
                return w.violation("C18", "wrong-value", f"{op}: get({k!r}) is {g!r}, expected {expect(k)!r}")
        if op.ok and op.desc[0] != "arm":
            followers(w, c, s, op, "C18", expect)

    def run_op(s, o):
        cfg = s.mod().config
        x = o["op"]
        before = dict(st["stack"][-1])
        if x == "arm":
            ob = obs[o["i"]]
            ob.n, ob.skip = o["n"], o["skip"]
            return
        if x == "env":
            if o["on"]:
                st["env"][o["k"]] = ENVS[o["k"]]
                os.environ[env_name(o["k"])] = ENVS[o["k"]][0]
                s.env[env_name(o["k"])] = ENVS[o["k"]][0]
            else:
                st["env"].pop(o["k"], None)
                os.environ.pop(env_name(o["k"]), None)
                s.env.pop(env_name(o["k"]), None)
            for k in NAMES:
                if cfg.get(k) != expect(k):
                    w.violation("C18", "environment-ignored", f"get({k!r}) is {cfg.get(k)!r}, expected {expect(k)!r}")
            st["envdirty"] = True
            return
        if x == "autosave":
            cfg.autosave = o["v"]
            return
        kv = {k: c.val(v) for k, v in o["kv"]} if "kv" in o else {}
        if x == "set":
            a, kw = c.args(o)
            op = w.do(("set", {k: w.norm(v) for k, v in kv.items()}), lambda: cfg.set(*a, **kw))
            if o.get("bad") and op.ok:
                return w.violation("C18", "bad-accepted", f"{op}")
            if not o.get("bad"):
                if op.ok:
                    st["stack"][-1] = dict(before, **kv)
                elif w.faulted(op):
                    if c.now(s) == dict(before, **kv):
                        st["stack"][-1] = dict(before, **kv)
                else:
                    return w.violation("C18", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "reset":
            n = o["name"]
            op = w.do(("reset", n), (lambda: cfg.reset()) if n is None else (lambda: cfg.reset(n)))
            if n == "no-such-option":
                if op.ok:
                    return w.violation("C18", "bad-accepted", f"{op}")
            else:
                new = dict(c.defaults) if n is None else dict(before, **{n: c.defaults[n]})
                if op.ok or (w.faulted(op) and c.now(s) == new):
                    st["stack"][-1] = new
                elif not w.faulted(op):
                    return w.violation("C18", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "enter":
            a, kw = c.args(o) if kv else ((), {})
            box = []

            def enter():
                box.append(cfg.temporary(*a, **kw))
                return box[0].__enter__()
            op = w.do(("enter", {k: w.norm(v) for k, v in kv.items()}), enter)
            if o.get("bad") and op.ok:
                return w.violation("C18", "bad-accepted", f"{op}")
            if op.ok:
                new = dict(before, **kv)
                st["stack"].append(new)
                st["scopes"].append(box[0])
            elif not o.get("bad") and not w.faulted(op):
                return w.violation("C18", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            if not op.ok:
                w.probe("entry-failed")
        elif x == "leave":
            if not st["scopes"]:
                return
            i = min(o["i"], len(st["scopes"]) - 1)
            j = len(st["scopes"]) - 1 - i
            cm = st["scopes"].pop(j)
            del st["stack"][j + 1]
            e = RuntimeError("raised in the scope")

            def leave():
                if not o["exc"]:
                    return cm.__exit__(None, None, None)
                if cm.__exit__(RuntimeError, e, None):
                    raise AssertionError("the exception was swallowed")
            op = w.do(("leave", i, o["exc"]), leave)
            if not op.ok and not w.faulted(op):
                return w.violation("C18", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            if o["exc"]:
                w.probe("left-by-exception")
        check(s, op, before)

    def role(s):
        for o in plan["threads"][0]["ops"]:
            run_op(s, o)
        for ob in obs:
            ob.n = 0
        while st["scopes"]:
            run_op(s, {"op": "leave", "i": 0, "exc": False})
        w.faults.on = False
        run_op(s, {"op": "set", "kv": [["url-download-timeout", 45]], "style": "pos"})

    def driver():
        s = w.launch("s1", [("t", role)], setup=setup, env=env)
        w.wait(s)
        if s.uncaught:
            w.violation("C18", "thread-died", s.uncaught[0][3])
    w.sample = {"plan": {k: plan[k] for k in ("kind", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    w.nontrivial = len(w.ops) >= 5


def followers(w, c, s, op, prop, expect):
    s.nofault, keep = True, s.nofault
    try:
        followers_(w, c, s, op, prop, expect)
    finally:
        s.nofault = keep


def followers_(w, c, s, op, prop, expect):
    """The caches work with the configuration in force."""
    if w.plan["prop"] == "C18" and any(k == "disk" for k in [w.plan["kind"]]) and w.faults.on and w.faults.fired:
        return
    i = s.mod("utils.memcache").memory_cache_info()
    pol = expect("weights-memory-cache-policy")
    mx = {"off": 0, "unlimited": None}.get(pol, expect("maximum-weights-memory-cache-size"))
    if i.policy != pol or i.maxsize != mx:
        w.violation(prop, "memory-cache-behind", f"after {op} the memory cache has policy {i.policy} and maximum {i.maxsize}, "
                    f"the configuration says {pol} and {mx}")
    d = s.mod().cache.directory()
    p = expect("cache-policy")
    if p == "user":
        want = expect("user-cache-directory")
        bad = os.path.normpath(d) != os.path.normpath(want)
    else:
        root = expect("temporary-cache-directory-root" if p == "temporary" else "temporary-directory-root")
        want = (root or w.path("tmp")) + "/*"
        bad = os.path.dirname(os.path.normpath(d)) != os.path.dirname(want)
    if bad:
        w.violation(prop, "disk-cache-behind", f"after {op} the disk cache uses {w.norm(d)}, the configuration says {p} in {w.norm(want)}")
    pl = s.mod().cache.policy
    if p != "off" and pl.maximum_cache_size() != expect("maximum-cache-size"):
        w.violation(prop, "disk-cache-behind", f"after {op} the disk cache has the limit {pl.maximum_cache_size()}, the configuration says "
                    f"{expect('maximum-cache-size')}")


def drive_C19(w, plan):
    c = Conf(w, plan)
    for d in ("u1", "u2", "u3", "t1", "t2", "o1", "o2"):
        os.makedirs(w.path(d))
    ents = [inv.Entry(x) for x in plan["specs"]]
    local = inv.Inventory("localinv", plan["specs"]).write(w)
    setters = [t for t in plan["threads"] if t["role"] == "set"]
    one = len(setters) == 1
    state = {}
    seen = {"A": None, "B": None}
    running = [0]

    def observer(name):
        def f():
            s = state["s"]
            a = w.step
            v = {k: s.mod().config.get(k) for k in NAMES}
            seen[name] = (a, v)
        return f

    def setup(s):
        import numpy as np
        state["s"] = s
        cfg = s.mod().config
        if not plan.get("autosave"):
            cfg.autosave = False
        c.read_defaults(s)
        for k, v in plan["start"]:
            cfg.set(k, c.val(v))
        cfg.set("user-cache-directory", w.path("u1"))
        cfg.on_change(observer("A"))
        cfg.on_change(observer("B"))

    def follow(s, op):
        now = {k: s.mod().config.get(k) for k in NAMES}
        for n in seen:
            if seen[n] is None or seen[n][0] < op.inv:
                return w.violation("C19", "not-notified", f"observer {n} was not notified by {op}")
            d = diff(seen[n][1], now)
            if d:
                return w.violation("C19", "notified-early", f"the last notification of observer {n} by {op} saw "
                                   f"{ {k: tuple(w.norm(x) for x in v) for k, v in d.items()} } (seen, in force)")
        raw = c.now(s)
        for k in NAMES:
            if now[k] != c.got(k, raw[k]):
                return w.violation("C19", "wrong-value", f"{op}: get({k}) is {now[k]!r} of {raw[k]!r}")
        followers(w, c, s, op, "C19", lambda k: now[k])

    def run_set(s, o, stack):
        cfg = s.mod().config
        x = o["op"]
        if x in ("set", "enter"):
            a, kw = c.args(o)
            d = {k: w.norm(c.val(v)) for k, v in o["kv"]}
            if x == "set":
                op = w.do(("set", d), lambda: cfg.set(*a, **kw))
            else:
                def enter():
                    cm = cfg.temporary(*a, **kw)
                    cm.__enter__()
                    stack.append(cm)
                op = w.do(("enter", d), enter)
        elif x == "leave":
            if not stack:
                return
            cm = stack.pop()

            def leave():
                if o.get("exc"):
                    cm.__exit__(RuntimeError, RuntimeError("x"), None)
                else:
                    cm.__exit__(None, None, None)
            op = w.do(("leave",), leave)
        else:
            n = o["name"]
            op = w.do(("reset", n), (lambda: cfg.reset()) if n is None else (lambda: cfg.reset(n)))
        if not op.ok:
            return w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        if x in ("set", "enter") and one:
            now = {k: cfg.get(k) for k in NAMES}
            for k, v in o["kv"]:
                if now[k] != c.got(k, c.val(v)):
                    w.violation("C19", "not-in-force", f"{op}: get({k}) is {w.norm(now[k])}")
        if one:
            follow(s, op)

    def use(s, o):
        import numpy as np
        x = o["op"]
        if x == "regrid":
            e = ents[o["k"]]
            gi, go = inv.query(e.i, e.o)
            v = e.values(o["v"])
            op = w.do(("regrid", o["k"]), lambda: s.mod("array").regrid(v, in_grid=gi, out_grid=go, interpolation=e.method,
                                                                        backend="precomputed", inventory=local)[0])
            if op.ok:
                if not np.array_equal(np.asarray(op.result), e.expect(o["v"])):
                    w.violation("C19", "wrong-weights", f"{op}")
                op.result = None
            elif not (op.etype == "ValueError" and "too large" in op.emsg):
                w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "file":
            def create(target, args):
                with open(target, "w") as f:
                    f.write(("file %d" % args["k"]) * 100)
            op = w.do(("file", o["k"]), lambda: s.mod("utils.caching").cache_file("use", create, {"k": o["k"]}))
            if not op.ok:
                w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "info":
            op = w.do(("info",), s.mod("utils.memcache").memory_cache_info)
            if not op.ok:
                w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "get":
            def get():
                cfg = s.mod().config
                return [cfg.get(k) for k in NAMES]
            op = w.do(("get",), get)
            if not op.ok:
                w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
        elif x == "clear":
            w.do(("clear",), s.mod("utils.memcache").clear_memory_cache)
        elif x == "check":
            w.do(("check",), lambda: s.mod().cache.check_size())

    def role(t):
        def f(s):
            stack = []
            for o in t["ops"]:
                if t["role"] == "set":
                    run_set(s, o, stack)
                else:
                    use(s, o)
            while stack:
                run_set(s, {"op": "leave"}, stack)
        return f

    def teardown(s):
        # nothing changes any more: everybody must have followed the last change
        last = [o for o in w.ops if o.desc[0] in ("set", "enter", "leave", "reset")]
        if not last:
            return
        now = {k: s.mod().config.get(k) for k in NAMES}
        op = max(last, key=lambda o: o.ret)
        for n in seen:
            if seen[n] is None:
                return w.violation("C19", "not-notified", f"observer {n} was never notified")
            d = diff(seen[n][1], now)
            # with several setters an observer may be called for an earlier change last
            if d and one:
                w.violation("C19", "notified-early", f"observer {n} was last notified with {d}")
        followers(w, c, s, op, "C19", lambda k: now[k])
        if len(s.mod().config._stack) if hasattr(s.mod().config, "_stack") else 0:
            w.violation("C19", "scope-leaked", "a scope is in force after all were left")
        # and the caches still serve
        for k in range(len(ents)):
            use(s, {"op": "regrid", "k": k, "v": 5})
        def create(target, args):
            with open(target, "w") as f:
                f.write("x" * 700)
        paths = []
        for k in range(5):
            op = w.do(("file", "last", k), lambda: s.mod("utils.caching").cache_file("use", create, {"k": "last%d" % k}))
            if not op.ok:
                return w.violation("C19", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            paths.append(op.result)
        if now["cache-policy"] == "off":
            return
        limit = now["maximum-cache-size"]
        s.mod().cache.check_size()
        size = s.mod().cache.size()
        gone = [x for x in paths if not os.path.exists(x)]
        if limit is not None and limit < size:
            w.violation("C19", "disk-cache-behind", f"the disk cache holds {size} bytes, the limit in force is {limit}")
        elif gone and (limit is None or limit > 10 ** 5):
            w.violation("C19", "disk-cache-behind", f"the disk cache removed {w.norm(gone)}, the limit in force is {limit}")

    def driver():
        s = w.launch("s1", [(f"t{i}", role(t)) for i, t in enumerate(plan["threads"])], setup=setup, teardown=teardown)
        w.wait(s)
        if s.uncaught:
            w.violation("C19", "thread-died", s.uncaught[0][3])
    w.sample = {"plan": {k: plan[k] for k in ("kind", "start", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    w.nontrivial = len(w.ops) >= 4 and w.switches > 3

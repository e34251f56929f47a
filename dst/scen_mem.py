"""Memory cache and precomputed regridding from local inventories, several threads, one session."""
import copy
import os
import random

from . import core, inv, lin
from .world import World

MB = 1 << 20


def gen(rng, prop, tier):
    kind = "mixed"
    if prop == "C03":
        kind = rng.choice(["seq", "seq", "conc", "conc"])
    elif prop == "C04":
        kind = "share"
    elif prop == "C02":
        kind = rng.choice(["conc", "conc", "seq", "fail"])
    elif prop == "C01":
        kind = rng.choice(["mixed", "mixed", "mixed", "fail", "cold"])
    ninv = {"mixed": rng.choice([2, 3]), "cold": rng.choice([1, 2])}.get(kind, rng.choice([1, 1, 2]))
    # keys and sizes
    all_keys = [(i, o, m) for i in range(len(inv.GRIDS_IN)) for o in range(len(inv.GRIDS_OUT))
                for m in inv.METHODS[:2]]
    base = rng.sample(all_keys, rng.choice([2, 3, 4]) if kind != "share" else rng.choice([1, 2]))
    if prop == "C01" and rng.random() < 0.4:
        # two output grids with as many points, or two inputs with as many
        i, o, m = base[0]
        base += [x for x in rng.choice([[(i, 0, m), (i, 2, m)], [(1, o, m), (2, o, m)], [(i, o, x) for x in inv.METHODS[:2]]])
                 if x not in base]
    specs = []
    k = 0
    mseed = rng.getrandbits(20)
    for a in range(ninv):
        keys = [x for x in base if rng.random() < 0.8] or base[:1]
        out = []
        for (i, o, m) in keys:
            nnz = 24 + (1 << (k % 8)) + rng.randrange(3) * 256
            k += 1
            out.append([i, o, m, nnz, mseed + k])
        specs.append(out)
    flat = [s for x in specs for s in x]
    for _ in range(200):
        # sizes such that the reported total tells which matrices are held
        if len(flat) > 9 or inv.unique_sums([inv.Entry(s).size for s in flat]) is not None:
            break
        for k, s in enumerate(flat):
            s[3] = 24 + (1 << rng.randrange(9)) + rng.randrange(170)
    memory = rng.random() < 0.85
    sizes = [inv.Entry(s).size for x in specs for s in x]
    tot = sum(sizes)
    small = prop != "C04"

    def a_max():
        x = rng.random()
        if x < 0.25 or not small:
            return "none" if prop != "C01" and rng.random() < 0.3 else tot * 4 + 1
        if x < 0.9:
            return max(1, int(rng.choice([0.3, 0.5, 0.7, 0.95]) * tot)) | 1
        return (max(1, int(min(sizes) * 0.7))) | 1

    def a_policy():
        if prop == "C04":
            return rng.choice(["unlimited", "lru", "largest"])
        return rng.choice(["unlimited", "lru", "lru", "largest", "largest", "off"])

    strict = kind != "share" and rng.random() < 0.3
    conf = {"policy": a_policy(), "max": a_max(), "strict": strict}
    if prop == "C01" and rng.random() < 0.4:
        conf["policy"] = "off" if rng.random() < 0.5 else conf["policy"]
    nthreads = 1 if kind == "seq" else rng.choice([2, 2, 3, 4])
    nops = {"seq": rng.randrange(10, 28), "conc": rng.randrange(2, 6), "share": rng.randrange(1, 4),
            "mixed": rng.randrange(2, 6), "fail": rng.randrange(3, 7), "cold": rng.randrange(1, 3)}[kind]
    threads = []
    spell = prop == "C01" and rng.random() < 0.5
    setter = rng.randrange(nthreads) if prop in ("C03",) else None
    for t in range(nthreads):
        ops = []
        for _ in range(nops):
            x = rng.random()
            may_set = setter is None or setter == t
            if kind in ("share", "cold"):
                x = 0.0 if x < 0.9 else 0.99
            if x < 0.62:
                a = rng.randrange(ninv)
                if rng.random() < 0.9 or prop in ("C04",):
                    s = rng.choice(specs[a])
                    key = s[:3]
                else:
                    key = list(rng.choice(base))
                    if rng.random() < 0.3:
                        key = list(rng.choice(all_keys))
                o = {"op": "regrid", "inv": a, "key": list(key), "v": rng.randrange(1000),
                     "sp": rng.randrange(60) if spell else 0,
                     "al": rng.randrange(3) if spell else 0}
                if prop == "C01":
                    if spell and rng.random() < 0.3:
                        o["pa"] = rng.randrange(5)
                    if rng.random() < 0.25:
                        o["via"] = rng.choice(["interp", "backend"])
                    if rng.random() < 0.4:
                        o["as"] = rng.choice(["2d", "f4", "i4", "strided", "fortran", "readonly"])
                    if rng.random() < 0.3:
                        o["scribble"] = True
                ops.append(o)
            elif x < 0.74 and may_set:
                o = {"op": "set"}
                w = rng.random()
                if w < 0.45:
                    o["policy"] = a_policy()
                elif w < 0.85:
                    o["max"] = a_max()
                else:
                    o["strict"] = rng.random() < 0.5
                if rng.random() < 0.25:
                    o["policy"], o["max"] = a_policy(), a_max()
                o["temp"] = rng.random() < 0.3 and (nthreads == 1 or setter is not None)
                if o["temp"]:
                    o["n"] = rng.randrange(1, 4)
                ops.append(o)
            elif x < 0.80:
                ops.append({"op": "clear"})
            else:
                ops.append({"op": "info"})
        threads.append({"ops": ops})
    faults = {}
    if kind == "fail" or (kind == "share" and rng.random() < 0.5) or (kind == "cold" and rng.random() < 0.3):
        faults = {"seed": rng.getrandbits(32), "rates": {"fs.open-r": rng.choice([0.15, 0.4])},
                  "max": rng.choice([1, 2, 4]), "nokill": True, "match": ["/inv"]}
    gran = "instr" if rng.random() < 0.25 and kind != "seq" else "line"
    plan = {"kind": kind, "specs": specs, "memory": memory, "conf": conf, "threads": threads,
            "faults": faults, "gran": gran, "autosave": rng.random() < 0.2, "warm": kind != "cold" and rng.random() < 0.3}
    if rng.random() < 0.5:
        plan["names"] = rng.randrange(len(NAMES))
    if kind == "seq":
        plan["sched"] = {"mode": "serial"}
    return plan


def shaped(np, x, how):
    """The same values in another container: array of another shape, type or layout."""
    if how is None:
        return x
    if how == "f4":
        return x.astype("float32")
    if how == "i4":
        return x.astype("int32")
    if how == "strided":
        y = np.full(2 * x.size, 7.5)
        y[::2] = x
        return y[::2]
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    n = next(k for k in (12, 8, 6, 4, 3, 2, 1) if x.size % k == 0)
    x = x.reshape(-1, n)
    return np.asfortranarray(x) if how == "fortran" else x


# where the inventories of a run are: the paths must be told apart by all they hold
NAMES = [lambda a: f"inv{a}", lambda a: f"{'abc'[a]}/inv", lambda a: ["inv", "inV", "iNv"][a],
         lambda a: "inv" + "/sub" * a, lambda a: ["inv", "inv ", "inv.d"][a], lambda a: ["inv1/1", "inv1/11", "inv/11"][a],
         lambda a: ["inv_a/db", "inv/a_db", "inv-a/db"][a]]


def build(plan):
    return World(plan, step_cap=600000)


KEYS = {"policy": "weights-memory-cache-policy", "max": "maximum-weights-memory-cache-size",
        "strict": "weights-memory-cache-strict-mode"}


def conf_dict(o):
    return {KEYS[k]: None if o[k] == "none" else str(o[k]) if k == "max" and o[k] % 3 == 0 else o[k] for k in ("policy", "max", "strict") if k in o}


def limit(m):
    return float("inf") if m == "none" else m


def drive(w, plan):
    prop = plan["prop"]
    names = NAMES[plan.get("names", 0)]
    invs = [inv.Inventory(names(a), s, plan["memory"]) for a, s in enumerate(plan["specs"])]
    paths = [v.write(w) for v in invs]

    def inv_path(o):
        p = paths[o["inv"]]
        d, b = os.path.split(p)
        return [p, p + "/", f"{d}/./{b}", f"{d}//{b}", f"{p}/../{b}"][o.get("pa", 0)]

    index = {}
    for v in invs:
        for e in v.entries.values():
            index[w.path(v.name, e.path)] = e
    allents = [e for v in invs for e in v.entries.values()]
    keyid = {}
    for a, v in enumerate(invs):
        for e in v.entries.values():
            keyid[(a,) + e.key] = len(keyid)
    sums = inv.unique_sums([e.size for e in allents])

    def run_op(s, o):
        import numpy as np
        c = o["op"]
        if c == "regrid":
            regrid = s.mod("array").regrid
            i, oo, m = o["key"]
            gi, go = inv.query(i, oo, o.get("sp", 0))
            meth = m
            if m in inv.ALIASES:
                meth = inv.ALIASES[m][o.get("al", 0) % 3]
            x = shaped(np, inv.values(inv.GRIDS_IN[i][2], o["v"]), o.get("as"))
            args = copy.deepcopy((gi, go, x))
            via = o.get("via")

            def f():
                if via == "interp":
                    return s.mod().interpolate(x, in_grid=gi, out_grid=go, method=meth, matrix_source=inv_path(o))
                if via == "backend":
                    b = s.mod("backends").get_backend("precomputed", inventory=inv_path(o))
                    r, g = b.regrid(x, gi, go, meth)
                else:
                    r, g = regrid(x, in_grid=gi, out_grid=go, interpolation=meth, backend="precomputed",
                                  inventory=inv_path(o))
                if g != go:
                    w.violation("C01", "wrong-grid", f"regrid on {go} answered for the grid {g}")
                return r
            op = w.do(("regrid", o["inv"], *o["key"]), f)
            if gi != args[0] or go != args[1] or not np.array_equal(x, args[2]):
                w.violation("C01", "arguments-modified", f"{op} changed what it was given: {args[:2]} to {(gi, go)}")
            e = invs[o["inv"]].entries.get(tuple(o["key"]))
            op.extra = {"c": "regrid", "o": o, "e": e,
                        "kid": keyid.get((o["inv"],) + tuple(o["key"])),
                        "loaded": any(k == "open-r" and p.endswith(".npz") for k, p in op.touched)}
            check_result(w, plan, op, o, e, np)
        elif c == "set":
            config = s.mod().config
            d = conf_dict(o)
            if o.get("temp"):
                cm = config.temporary(d)
                op = w.do(("enter", d), cm.__enter__)
                op.extra = {"c": "set", "o": o}
                return cm
            op = w.do(("set", d), lambda: config.set(d))
            op.extra = {"c": "set", "o": o}
        elif c == "clear":
            f = s.mod("utils.memcache").clear_memory_cache
            op = w.do(("clear",), f)
            op.extra = {"c": "clear"}
        elif c == "info":
            f = s.mod("utils.memcache").memory_cache_info
            op = w.do(("info",), f)
            op.extra = {"c": "info"}
            if op.ok:
                check_info(w, plan, op, sums)

    def role(t):
        def f(s):
            stack = []
            for o in plan["threads"][t]["ops"]:
                while stack and stack[-1][1] <= 0:
                    leave(s, stack.pop())
                for x in stack:
                    x[1] -= 1
                r = run_op(s, o)
                if r is not None:
                    stack.append([r, o["n"], o])
            while stack:
                leave(s, stack.pop())
        return f

    def leave(s, x):
        op = w.do(("leave", conf_dict(x[2])), lambda: x[0].__exit__(None, None, None))
        op.extra = {"c": "leave", "o": x[2]}

    state = {}

    def setup(s):
        config = s.mod().config
        if not plan.get("autosave"):
            config.autosave = False
        config.set(conf_dict(plan["conf"]))
        if plan.get("warm"):
            for a, v in enumerate(invs):
                for e in list(v.entries.values())[:1]:
                    run_op(s, {"op": "regrid", "inv": a, "key": list(e.key), "v": 1})
        run_op(s, {"op": "info"})

    def teardown(s):
        w.faults.on = False
        state["final"] = len(w.ops)
        run_op(s, {"op": "info"})
        if prop in ("C01", "C02", "C04"):
            # black-box inspection of what is held
            config = s.mod().config
            run_op(s, {"op": "set", "policy": "unlimited"}) if prop != "C04" else None
            run_op(s, {"op": "info"})
            held0 = w.ops[-1]
            for a, v in enumerate(invs):
                for e in v.entries.values():
                    run_op(s, {"op": "regrid", "inv": a, "key": list(e.key), "v": 3})
            run_op(s, {"op": "info"})
            state["held0"] = held0

    def driver():
        s = w.launch("s1", [(f"t{t}", role(t)) for t in range(len(plan["threads"]))], setup=setup,
                     teardown=teardown)
        w.wait(s)
        if s.uncaught:
            w.violation(prop, "thread-died", s.uncaught[0][2])
        finish(w, plan, state, invs, keyid, allents, sums)

    w.sample = {"plan": {k: plan[k] for k in ("kind", "specs", "conf", "threads")},
                "seed": plan.get("seed")}
    w.play(driver)
    w.nontrivial = len(w.ops) >= 4 and (w.switches > len(w.sessions) * 3 or plan["kind"] == "seq")


def check_result(w, plan, op, o, e, np):
    """C01: right weights, or the right error."""
    prop = plan["prop"]
    if op.ok:
        if e is None:
            return w.violation("C01", "weights-from-nowhere", f"{op} returned though the inventory has no entry")
        x = e.expect(o["v"])
        if o.get("as") == "i4":
            x = (e.csr @ np.trunc(e.values(o["v"]))).reshape(e.shape)
        r = np.asarray(op.result)
        if r.shape != tuple(x.shape) or not np.array_equal(r, x):
            # which matrix was applied?
            other = [k for k in plan["specs"] for k in k if
                     inv.Entry(k).n_in == e.n_in and np.array_equal(inv.expected(tuple(k), o["v"]).ravel(), r.ravel())]
            return w.violation("C01" if prop != "C04" else "C04", "wrong-weights",
                               f"{op} gave {r.shape}, expected {x.shape} of matrix {e.spec}; equals product of {other}")
        if o.get("scribble") and r.flags.writeable:
            r[...] = -1          # the result is the caller's
        op.result = None
        return
    if e is None:
        if op.etype != "ValueError" or not ("weights" in op.emsg or "No matrix" in op.emsg):
            if not w.faulted(op):
                w.violation("C01", "wrong-error", f"{op}: expected the 'no precomputed weights' error")
        return
    if w.faulted(op):
        return
    if op.etype == "ValueError" and ("No precomputed" in op.emsg or "No matrix" in op.emsg):
        return w.violation("C01" if prop != "C04" else "C04", "entry-not-found", f"{op} though the inventory has {e.spec}")
    strict_possible = any(p.desc[0] in ("set", "enter", "leave") for p in w.ops) or plan["conf"]["strict"]
    if op.etype == "ValueError" and strict_possible and plan["prop"] != "C04":
        op.extra["strict"] = True
        return
    w.violation(prop, "unexpected-error", f"{op}")


def check_info(w, plan, op, sums):
    """C02: every report is self-consistent."""
    r = op.result
    prop = plan["prop"]
    if prop not in ("C02", "C03", "C19"):
        return
    if r.policy in ("lru", "largest") and r.maxsize is not None and r.currsize > r.maxsize:
        w.violation("C02", "bound-exceeded", f"{r}")
    if r.policy == "off" and (r.currsize or r.count):
        w.violation("C02", "off-holds", f"{r}")
    if sums is not None:
        h = sums.get(r.currsize)
        if h is None:
            w.violation("C02", "not-a-sum", f"{r} is not the total of any set of matrices")
        elif len(h) != r.count:
            w.violation("C02", "count", f"{r}: total of matrices {sorted(h)}")
    elif (r.count == 0) != (r.currsize == 0):
        w.violation("C02", "count", f"{r}")


def finish(w, plan, state, invs, keyid, allents, sums):
    prop = plan["prop"]
    ops = [p for p in w.ops if p.extra]
    conc_ops = [p for i, p in enumerate(w.ops) if i < state["final"] and p.extra]
    if prop == "C04":
        return finish_share(w, plan, state, ops)
    if prop == "C02":
        finish_c02(w, plan, state, ops, keyid, allents, sums)
    if prop == "C03":
        finish_c03(w, plan, conc_ops + [w.ops[state["final"]]], keyid, allents, sums)


def finish_share(w, plan, state, ops):
    loads = {}
    for p in ops:
        if p.extra["c"] == "regrid" and p.extra["loaded"] and p.ok:
            loads.setdefault(p.extra["kid"], []).append(p)
    for k, ps in loads.items():
        if len(ps) > 1:
            w.violation("C04", "loaded-twice", f"weights {k} loaded by {ps}")
    for p in ops:
        if p.extra["c"] == "regrid" and not p.ok and not w.faulted(p):
            w.violation("C04", "failure-remembered", f"{p}")
    if len([p for p in ops if p.extra["c"] == "regrid"]) > len(loads):
        w.probe("shared")


def _active(o):
    return o.extra["c"] in ("set", "clear", "leave")


def finish_c02(w, plan, state, ops, keyid, allents, sums):
    # what is held at the end: exactly the ones that answer without opening a file
    h0 = state["held0"]
    later = [p for p in w.ops if p.extra and p.inv > h0.inv and p.extra["c"] == "regrid" and p.ok]
    held = [p.extra["e"] for p in later if not p.extra["loaded"]]
    tot = sum(e.size for e in held)
    if (tot, len(held)) != (h0.result.currsize, h0.result.count):
        w.violation("C02", "accounting", f"reported {h0.result} but {len(held)} matrices of {tot} bytes are held: "
                    f"{[(e.spec, e.size) for e in held]}")
    last = w.ops[-1].result
    if (last.currsize, last.count) != (sum(e.size for e in allents), len(allents)):
        w.violation("C02", "unlimited-holds-all", f"{last} after loading {[e.size for e in allents]}")
    # the configuration in force is reported
    conf = dict(plan["conf"])
    sets = [p for p in ops if p.extra["c"] in ("set", "leave")]
    for p in ops:
        if p.extra["c"] != "info" or not p.ok:
            continue
        if any(q.ret is None or (q.inv <= p.ret and q.ret >= p.inv) for q in sets):
            continue
        before = [q for q in sets if q.ret < p.inv]
        # with several setters only non-overlapping settings of the same option are decided
        for name in ("policy", "max"):
            val = effective(before, name, conf[name])
            if val is None:
                continue
            val = None if val[0] == "none" else val[0]
            if name == "policy":
                if p.result.policy != val:
                    w.violation("C02", "policy-not-in-force", f"{p.result}: configured {val}")
            elif p.result.policy in ("lru", "largest") and p.result.maxsize != val:
                w.violation("C02", "max-not-in-force", f"{p.result}: configured {val}")
    # unlimited holds all that was loaded without an intervening change
    if sums is not None:
        for p in ops:
            if p.extra["c"] != "info" or not p.ok or not (
                    p.result.policy == "unlimited" or p.result.policy != "off" and p.result.maxsize is None):
                continue
            h = sums.get(p.result.currsize)
            if h is None:
                continue
            for q in ops:
                if q.extra["c"] == "regrid" and q.ok and q.ret < p.inv and q.extra["kid"] not in h:
                    if not any(_active(a) and a.ret >= q.inv and a.inv <= p.ret for a in ops):
                        w.violation("C02", "unlimited-lost", f"{p.result} does not hold the weights of {q}")


def effective(sets, name, init):
    """Value of an option after these calls, or None when their order is undecided."""
    stack = [init]
    last = None
    for q in sorted(sets, key=lambda q: q.inv):
        if last is not None and q.inv <= last.ret:
            return None
        last = q
        o = q.extra["o"]
        if q.extra["c"] == "leave":
            stack.pop()
        elif o.get("temp"):
            stack.append(o.get(name, stack[-1]))
        elif name in o:
            stack[-1] = o[name]
    return (stack[-1],)


# ---------------------------------------------------------------------- the model of C03

def finish_c03(w, plan, ops, keyid, allents, sums):
    sizes = [e.size for e in allents]
    est = [e.size if plan["memory"] else 0 for e in allents]
    c = plan["conf"]
    init = (((c["policy"], c["max"], c["strict"]),), (), 0, 0)
    calls = []
    for p in ops:
        x = p.extra
        if x["c"] == "regrid":
            if p.ok:
                out = "ok"
            elif x["e"] is None:
                out = "missing"
            elif x.get("strict"):
                out = "strict"
            else:
                out = "err"
            calls.append((p.inv, p.ret, ("regrid", x["kid"], out, x["loaded"], repr(p))))
        elif x["c"] in ("set", "leave"):
            o = x["o"]
            calls.append((p.inv, p.ret, (x["c"], o.get("policy"), o.get("max"), o.get("strict"), bool(o.get("temp")), repr(p))))
        elif x["c"] == "clear":
            calls.append((p.inv, p.ret, ("clear", repr(p))))
        elif x["c"] == "info":
            r = p.result
            held = None
            if sums is not None:
                held = sums.get(r.currsize)
            calls.append((p.inv, p.ret, ("info", r, held, repr(p))))
        if x["c"] in ("set", "leave", "clear", "info") and not p.ok:
            w.violation("C03", "unexpected-error", repr(p))
            return

    def reduce(policy, items, lim):
        items = list(items)
        while items and sum(sizes[k] for k in items) >= lim:
            if policy == "lru":
                items.pop(0)
            else:
                items.remove(max(items, key=lambda k: sizes[k]))
        return tuple(items)

    def inc(x, n=1):
        return None if x is None else x + n

    def apply(st, op):
        stack, items, hits, misses = st
        policy, mx, strict = stack[-1]
        k = op[0]
        if k == "clear":
            return [(stack, (), 0, 0)]
        if k in ("set", "leave"):
            if k == "leave":
                new = stack[:-1]
            else:
                c = (op[1] or policy, op[2] or mx, strict if op[3] is None else op[3])
                new = stack + (c,) if op[4] else stack[:-1] + (c,)
            p2, m2, _ = new[-1]
            if p2 == "off":
                return [(new, (), 0, 0), (new, (), hits, misses)] if policy != "off" else [(new, (), hits, misses)]
            if p2 in ("lru", "largest"):
                items = reduce(p2, items, limit(m2))
            out = [(new, items, hits, misses)]
            if policy == "off":
                out.append((new, (), 0, 0))
            return out
        if k == "info":
            r, held = op[1], op[2]
            if r.policy != policy:
                return []
            if policy in ("lru", "largest") and r.maxsize != (None if mx == "none" else mx):
                return []
            if r.count != len(items) or r.currsize != sum(sizes[x] for x in items):
                return []
            if held is not None and held != frozenset(items):
                return []
            if policy != "off" and (r.hits, r.misses) != (hits, misses):
                return []
            return [st]
        _, kid, out, loaded, _ = op
        if policy == "off":
            if out == "ok" and loaded or out == "missing" and not loaded or out == "err":
                return [st]
            return []
        if kid is None:
            if out != "missing" or loaded:
                return []
            return [st, (stack, items, hits, misses + 1)]
        if kid in items:
            if out != "ok" or loaded:
                return []
            i2 = tuple(x for x in items if x != kid) + (kid,)
            return [(stack, i2, hits + 1, misses)]
        limited = policy in ("lru", "largest")
        mx = limit(mx)
        pre = items
        if limited:
            cap = mx - sum(sizes[x] for x in items)
            if est[kid] > cap and est[kid] <= mx:
                pre = reduce(policy, items, mx - est[kid])
            if strict and mx - sum(sizes[x] for x in pre) < est[kid]:
                return [(stack, pre, hits, misses)] if out == "strict" else []
        if out == "err":
            return [(stack, pre, hits, misses), (stack, items, hits, misses)]
        if out != "ok" or not loaded:
            return []
        i2 = pre + (kid,)
        if limited:
            i2 = reduce(policy, i2, mx)
        return [(stack, i2, hits, misses + 1)]

    try:
        ok, path = lin.linearize(calls, init, apply)
    except lin.GaveUp:
        w.probe("lin-gave-up")
        return
    w.probe("linearized")
    if not ok:
        n = len(path)
        rest = [c[2][-1] for c in calls if c[2] not in path]
        w.violation("C03", "not-the-model", f"explained {n} of {len(calls)} calls, then stuck. Conf {c} sizes {sizes} "
                    f"order so far: {[x[-1] for x in path][-6:]} not explained: {rest[:5]}")

"""Matrices made from MIR's files: additions to a local inventory (C21) and mir_make_matrix (C25)."""
import io
import json
import os
import struct
import sys

from . import disklib, inv, seams
from .disklib import Watch
from .world import World

real = seams.real

DEFAULT_GBA = {"type": "grid-box-average", "nonLinear": [{"type": "missing-if-heaviest-missing"}], "solver": {"type": "multiply"},
               "cropping": False, "lsmWeightAdjustment": 0.2, "pruneEpsilon": 1e-10, "poleDisplacement": 0}


# ------------------------------------------------------------------------------------ MIR's files

def mir_bytes(m, little=True, scalar=8):
    """A matrix in the format of MIR's cache files (an eckit stream)."""
    import numpy as np
    o = "<" if little else ">"
    b = io.BytesIO()

    def ulong(n):
        b.write(struct.pack("!bL", 10, n))

    def blob(x):
        b.write(struct.pack("!bQ", 21, len(x)) + x)
    ulong(m.shape[0])
    ulong(m.shape[1])
    ulong(m.nnz)
    b.write(struct.pack("!bL", 5, 1 if little else 0))
    ulong(4)
    ulong(scalar)
    ulong(8)
    blob(np.asarray(m.indptr).astype(o + "u4").tobytes())
    blob(np.asarray(m.indices).astype(o + "u4").tobytes())
    blob(np.asarray(m.data).astype(o + "f%d" % scalar).tobytes())
    return b.getvalue()


def mir_parse(b):
    """The matrix of a whole file, else None."""
    import numpy as np
    import scipy.sparse as sp
    try:
        f = io.BytesIO(b)

        def take(n):
            x = f.read(n)
            assert len(x) == n
            return x

        def ulong(tag=10):
            t, n = struct.unpack("!bL", take(5))
            assert t == tag
            return n

        def blob():
            t, n = struct.unpack("!bQ", take(9))
            assert t == 21
            return take(n)
        rows, cols, nnz = ulong(), ulong(), ulong()
        o = "<" if ulong(5) else ">"
        ulong()
        scalar = ulong()
        ulong()
        p, i, d = (np.frombuffer(blob(), o + k) for k in ("u4", "u4", "f%d" % scalar))
        return sp.csr_matrix((d.astype(float), i.astype(int), p.astype(int)), shape=(rows, cols))
    except Exception:
        return None


def npz_parse(b):
    import scipy.sparse as sp
    try:
        return sp.csr_matrix(sp.load_npz(io.BytesIO(b)))
    except Exception:
        return None


def same(a, b):
    return a is not None and a.shape == b.shape and (abs(a - b)).nnz == 0 and abs(a - b).sum() == 0


# ------------------------------------------------------------------------------------ plans

def gen(rng, prop, tier):
    plan = {"faults": {}, "gran": "instr" if rng.random() < 0.1 else "line"}
    (gen_C21 if prop == "C21" else gen_C25)(rng, plan, tier)
    return plan


def gen_C21(rng, plan, tier):
    plan["kind"] = rng.choice(["seq", "seq", "readers", "readers", "conc", "conc"])
    keys = [(i, o, m) for i in range(len(inv.GRIDS_IN)) for o in range(len(inv.GRIDS_OUT)) for m in inv.METHODS]
    keys = rng.sample(keys, rng.choice([2, 3, 5]))
    how = {}
    ms = rng.getrandbits(20)
    jobs = []
    for n in range(len(keys) + rng.choice([0, 1, 2, 3])):
        i, o, m = keys[n] if n < len(keys) else rng.choice(keys)
        # what makes part of the name of an entry is the same each time
        glob, asdict = how.setdefault((i, o, m), (rng.choice(["in", "in", "desc", "arg"]), rng.random() < 0.5))
        jobs.append({"spec": [i, o, m, rng.choice([0, 8, 24, 100, 400]), ms + n], "little": rng.random() < 0.7,
                     "scalar": rng.choice([8, 8, 4]), "glob": glob,
                     "damage": None if rng.random() < 0.75 else round(rng.random(), 4) if rng.random() < 0.7 else rng.choice([0, 1, -1, -4, -8, -16]),
                     "dict": asdict})
    plan["jobs"] = jobs
    keys2 = [k for k in ((i, o, m) for i in range(len(inv.GRIDS_IN)) for o in range(len(inv.GRIDS_OUT)) for m in inv.METHODS) if k not in keys]
    plan["prior"] = [list(k) + [60, ms + 100 + n] for n, k in enumerate(rng.sample(keys2, rng.choice([0, 0, 1, 2])))]
    keys += [tuple(p[:3]) for p in plan["prior"]]
    out = []
    for ph in range(rng.choice([1, 2, 2, 3])):
        for s in range(2 if plan["kind"] == "conc" and rng.random() < 0.8 else 1):
            for _ in range(2 if plan["kind"] == "conc" and rng.random() < 0.3 else 1):
                out.append({"ph": ph, "s": "bc"[s], "delay": round(rng.choice([0, 0, 0.2]) * rng.random(), 3),
                            "ops": [{"j": rng.randrange(len(jobs)), "index": rng.random() < 0.3} for _ in range(rng.choice([1, 2, 3, 4]))]})
        if plan["kind"] != "seq":
            for r in range(rng.choice([0, 1, 2, 3]) if plan["kind"] == "readers" else rng.choice([0, 0, 1])):
                out.append({"ph": ph, "s": "r%d" % r, "delay": round(rng.choice([0, 0.1, 1]) * rng.random(), 3),
                            "ops": [{"k": rng.randrange(len(keys)), "v": rng.randrange(100)} for _ in range(rng.choice([1, 2, 4]))]})
    plan["threads"] = out
    plan["keys"] = keys
    if rng.random() < 0.7:
        r = rng.choice([0.02, 0.06, 0.2])
        plan["faults"] = {"seed": rng.getrandbits(32), "max": rng.choice([1, 1, 2, 4]), "match": ["/out"], "roles": ["b", "c"],
                          "rates": {"fs.write": r, "fs.open-w": r, "fs.rename": r, "fs.unlink": r, "fs.mkdir": r, "fs.open-r": r / 3}}


def gen_C25(rng, plan, tier):
    plan["kind"] = rng.choice(["seq", "conc", "conc", "threads"])
    # several sets of coordinates, alike in different ways
    n = rng.choice([3, 5, 12]) if rng.random() < 0.5 else rng.choice([1001, 1003])
    sets = [{"n": n, "seed": rng.randrange(1000), "how": "base"}]
    for _ in range(rng.choice([1, 2, 3])):
        sets.append({"n": n, "seed": sets[0]["seed"], "how": rng.choice(["middle", "middle", "tiny", "swap", "base", "neg", "other"]),
                     "at": rng.random(), "lon": rng.random() < 0.5})
    plan["sets"] = sets
    out = []
    ph = rng.choice([1, 2, 3])
    names = ["A.npz", "B.npz", "C.mat", "D.npz"]
    for p in range(ph):
        for s in range(rng.choice([2, 3]) if plan["kind"] == "conc" else 1):
            for t in range(rng.choice([2, 3]) if plan["kind"] == "threads" else 1):
                ops = []
                for _ in range(rng.choice([1, 2, 3])):
                    i = rng.randrange(len(sets)) if rng.random() < 0.7 else rng.choice(["g2", "g3"])
                    o = rng.randrange(len(sets)) if rng.random() < 0.4 else rng.choice(["g2", "g3"])
                    out_ = rng.choice([None, None] + names)
                    ops.append({"in": i, "out": o, "form": rng.choice(["list", "array", "array"]), "to": out_, "path": rng.random() < 0.5,
                                "interp": rng.choice(["linear", "nn"]), "fail": rng.choice(["start", "mid", "end"]) if rng.random() < 0.1 else None})
                out.append({"ph": p, "s": "abc"[s], "delay": round(rng.choice([0, 0, 0.2]) * rng.random(), 3), "ops": ops})
    plan["threads"] = out
    if rng.random() < 0.6:
        r = rng.choice([0.01, 0.05, 0.2])
        plan["faults"] = {"seed": rng.getrandbits(32), "max": rng.choice([1, 1, 2, 4]), "match": ["/mircache", "/out"],
                          "rates": {"fs.write": r, "fs.open-w": r, "fs.rename": r, "fs.unlink": r / 2, "fs.open-r": r / 3}}
    plan["bufsize"] = rng.choice([512, 8192])


def build(plan):
    return World(plan, step_cap=3000000)


def drive(w, plan):
    (drive_C21 if plan["prop"] == "C21" else drive_C25)(w, plan)


# ------------------------------------------------------------------------------------ C21

def describe(i, o, method, asdict):
    """MIR's description of an interpolation, and the global flags to give to make_matrix."""
    def grid(e, k):
        if k == "ll":
            n, w_, s, e_ = e["area"]
            return {"type": "regular_ll", "bbox": {"north": n, "west": w_, "south": s, "east": e_},
                    "increments": {"west_east": e["grid"][0], "south_north": e["grid"][1]}, "nj": e["shape"][0], "ni": e["shape"][1],
                    "global": e["global"]}
        if k == "gg":
            n, w_, s, e_ = e["area"]
            return {"type": "reduced_gg", "pl": [13, 17, 17, 13], "N": 2, "bbox": {"north": n, "west": w_, "south": s, "east": e_}, "global": 1}
        return {"type": "healpix", "grid": e["grid"], "order": e["ordering"]}
    a = inv.GRIDS_IN[i][0]
    k = "gg" if a["grid"] == "O2" else "hp" if isinstance(a["grid"], str) else "ll"
    m = dict(DEFAULT_GBA) if method == "grid-box-average" and asdict else method
    return {"input": grid(a, k), "output": grid(inv.GRIDS_OUT[o][0], "ll"), "interpolation": {"engine": "mir", "version": "16", "method": m}}


def entry_key(e):
    """(i, o, method) of an index entry."""
    def norm(g):
        return json.dumps([g["grid"], g.get("order", g.get("ordering", None)), g.get("area") if isinstance(g["grid"], list) else None])
    ks = [n for n, g in enumerate(inv.GRIDS_IN) if norm(g[0]) == norm(e["input"])]
    os_ = [n for n, g in enumerate(inv.GRIDS_OUT) if norm(g[0]) == norm(e["output"])]
    m = e["interpolation"]["method"]
    m = m if isinstance(m, str) else m["type"]
    assert len(ks) == 1 and len(os_) == 1, e
    return ks[0], os_[0], m


class Pending:
    """Until it returns, and when it was killed."""
    ok, ret = False, None


class Version:
    __slots__ = ("entry", "inv", "op")


def drive_C21(w, plan):
    watch = Watch(w)
    out = w.path("out")
    watch.dirs = [out + "/"]
    watch.allowed = [w.root]
    index = os.path.join(out, "index.json")
    os.makedirs(w.path("in"))
    os.makedirs(out)
    jobs = []
    for n, j in enumerate(plan["jobs"]):
        e = inv.Entry(j["spec"])
        d = describe(*j["spec"][:3], j["dict"])
        args = {}
        if j["glob"] == "arg":
            for k in ("input", "output"):
                if "global" in d[k]:
                    args["global_" + k] = bool(d[k].pop("global"))
        elif j["glob"] == "in":
            args = {"global_output": True}
        b = mir_bytes(e.csr, j["little"], j["scalar"])
        bad = j["damage"] is not None
        if bad:
            x = j["damage"]
            n_ = int(len(b) * x) if isinstance(x, float) else x if x >= 0 else len(b) + x
            b = b[:max(0, min(n_, len(b) - 1))]
        f = w.path("in", "m%d.mat" % n)
        with real["open"](f, "wb") as h:
            h.write(b)
        d["matrix"] = {"cache_file": f, "nnz": int(e.csr.nnz), "cols": e.n_in, "rows": e.n_out}
        p = w.path("in", "d%d.json" % n)
        with real["open"](p, "w") as h:
            json.dump(d, h)
        jobs.append((e, p, args, bad))
    versions = {}          # key -> versions begun
    makes = []             # operations, with their key
    if plan["prior"]:
        pi = inv.Inventory("prior", plan["prior"])
        prior = {}
        for e in pi.entries.values():
            raw = e.raw()
            raw["interpolation"]["version"] = "16"
            name = e.name
            f = os.path.join(out, "mir_16_" + e.method, name + ".npz")
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with real["open"](f, "wb") as h:
                h.write(e.data)
            prior[name] = raw
        with real["open"](index, "w") as h:
            json.dump({"version": 1, "matrix": prior}, h, indent=4)
        pkeys = {e.key: e for e in pi.entries.values()}
    else:
        prior, pkeys = {}, {}
    ALIVE = 1 << 60

    def versions_of(key, by):
        """Matrices which may be stored for key at step by, those listed before included."""
        v = [x.entry for x in versions.get(key, ()) if x.inv <= by]
        if key in pkeys:
            v.append(pkeys[key])
        return v

    def done_before(key, step):
        return key in pkeys or any(x.op.ok and x.op.ret <= step for x in versions.get(key, ()))

    def make(s, o):
        e, p, args, bad = jobs[o["j"]]
        kw = dict(args)
        if o["index"]:
            kw["index_file"] = index
        v = Version()
        v.entry, v.inv, v.op = e, w.step, Pending
        if not bad:
            versions.setdefault(e.key, []).append(v)
        op = w.do(("make", o["j"]) + (("truncated",) if bad else ()), lambda: s.mod("utils.builder").make_matrix(p, out, **kw))
        v.op = op
        makes.append((op, e.key, bad))
        if bad:
            if op.ok:
                return w.violation("C21", "truncated-accepted", f"{op}: the input has {os.path.getsize(w.path('in', 'm%d.mat' % o['j']))} bytes "
                                   f"of {len(mir_bytes(e.csr, plan['jobs'][o['j']]['little'], plan['jobs'][o['j']]['scalar']))}")
            w.probe("truncated-rejected")
            return
        if not op.ok:
            if not w.faulted(op):
                w.violation("C21", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            return
        if op.result is not None:
            op.result = None
        w.probe("made")

    def read(s, o):
        key = tuple(plan["keys"][o["k"]])
        e = inv.Entry(list(key) + [0, 0])
        values = inv.values(e.n_in, o["v"])
        must = done_before(key, s.t_start)
        qi, qo = inv.query(key[0], key[1])
        if key[0] == 3:
            qi = {"grid": "O2"}
        op = w.do(("regrid", key), lambda: s.mod("array").regrid(values, in_grid=qi, out_grid=qo, interpolation=key[2],
                                                                backend="precomputed", inventory=out)[0])
        if not op.ok:
            if must and not w.faulted(op):
                w.violation("C21", "entry-lost", f"{op}: the inventory had it before the session began {w.norm(disklib.tb(op.error))}")
            elif op.etype not in ("ValueError", "FileNotFoundError") and not w.faulted(op):
                w.violation("C21", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            return
        import numpy as np
        r, op.result = np.asarray(op.result), None
        for x in versions_of(key, op.ret):
            if np.array_equal(r, (x.csr @ values).reshape(x.shape)):
                w.probe("read")
                return x
        w.violation("C21", "wrong-weights", f"{op}: not the result of any matrix given for it")

    def role(t):
        def f(s):
            for o in t["ops"]:
                (read if t["s"][0] in "rz" else make)(s, o)
        return f

    def setup(s):
        s.nofault = True
        s.mod().config.autosave = False
        s.nofault = False
        s.t_start = w.step

    def phase(ph, ts):
        ss = []
        for n in sorted({t["s"] for t in ts}):
            mine = [t for t in ts if t["s"] == n]
            ss.append(w.launch(f"{n}{ph}", [(f"t{plan['threads'].index(t)}", role(t)) for t in mine], setup=setup))
            if mine[0]["delay"]:
                w.sleep(mine[0]["delay"])
        for s in ss:
            w.wait(s)
            if s.uncaught and not s.dead:
                w.violation("C21", "thread-died", s.uncaught[0][3])

    def driver():
        for ph in sorted({t["ph"] for t in plan["threads"]}):
            phase(ph, [t for t in plan["threads"] if t["ph"] == ph])
        w.faults.on = False
        w.sleep(1)

        def last(s):
            # everything completed is there, with the last matrix given for it
            s.t_start = w.step
            for k, key in enumerate(plan["keys"]):
                key = tuple(key)
                good = [x for x in versions.get(key, ())]
                got = read(s, {"k": k, "v": 7})
                fin = [x for x in good if x.op.ok]
                if fin and got is not None:
                    t = max(x.inv for x in fin)
                    stale = [x for x in fin if x.op.ret < t]
                    ok = [x.entry for x in good if x not in stale]
                    if not any(x.data == got.data for x in ok):
                        w.violation("C21", "old-weights", f"{key}: has an older matrix than the last one completed")
            check_index(s)
        s = w.launch("z8", [], setup=last)
        w.wait(s)

        def again(s):
            # whatever happened before, adding all of them now succeeds
            for n, (e, p, args, bad) in enumerate(jobs):
                if not bad:
                    make(s, {"j": n, "index": False})
            last_of = {}
            for n, (e, p, args, bad) in enumerate(jobs):
                if not bad:
                    last_of[e.key] = e
            final.update(last_of)
        final = {}
        s = w.launch("y9", [], setup=again)
        w.wait(s)
        s = w.launch("z9", [], setup=last)
        w.wait(s)
        history()

    def check_index(s):
        b = disklib.read_file(index)
        if b is None:
            return
        d = json.loads(b)
        for name, e in d["matrix"].items():
            key = entry_key(e)
            f = os.path.join(out, "mir_16_%s" % key[2], name + ".npz")
            m = npz_parse(disklib.read_file(f) or b"")
            if m is None:
                continue
            if name not in prior and "memory" in e and not w.faults.fired:
                size = m.data.nbytes + m.indices.nbytes + m.indptr.nbytes
                if e["memory"] != size and versions.get(key):
                    w.violation("C21", "wrong-size", f"{key}: the index says {e['memory']} bytes in memory, the matrix has {size}")

    def history():
        """The index was whole, and listed only stored matrices, at every moment."""
        states = watch.states(index)
        listed = {n: 0 for n in prior}
        for step, b, tn in states:
            try:
                d = json.loads(b)
                assert d["version"] == 1
                names = d["matrix"]
            except Exception as e:
                return w.violation("C21", "index-damaged", f"at step {step} ({tn}) the index had {len(b)} bytes: {type(e).__name__} {str(e)[:100]}")
            gone = set(listed) - set(names)
            if gone:
                return w.violation("C21", "entry-lost", f"at step {step} {tn} wrote an index without {len(gone)} of the entries")
            for n in names:
                listed[n] = 1
            for name, e in names.items():
                key = entry_key(e)
                f = os.path.join(out, "mir_16_%s" % key[2], name + ".npz")
                if name in prior and not watch.hist.get(f):
                    continue
                h = [x for x in watch.hist.get(f, ()) if x[0] <= step]
                b2 = watch.blobs[h[-1][1]] if h and h[-1][1] is not None else None
                if b2 is None:
                    return w.violation("C21", "matrix-missing", f"at step {step} {tn} listed {key} with no stored matrix")
        # stored matrices are whole from the moment an index lists them
        for f, h in watch.hist.items():
            name = os.path.basename(f)[:-4]
            if not f.endswith(".npz") or name not in listed:
                continue
            first = min([s for s, b, _ in states if name in json.loads(b)["matrix"]] or [0])
            for n, (step, i, tn) in enumerate(h):
                until = h[n + 1][0] if n + 1 < len(h) else ALIVE
                if until <= first:
                    continue
                if i is None:
                    return w.violation("C21", "matrix-missing", f"at step {step} {tn} removed a listed matrix")
                m = npz_parse(watch.blobs[i])
                js = json.loads(states[-1][1])["matrix"][name]
                key = entry_key(js)
                if m is None or not any(same(m, x.csr) for x in versions_of(key, step)):
                    return w.violation("C21", "matrix-damaged", f"at step {step} {tn} left {len(watch.blobs[i])} bytes as the matrix of {key}, "
                                       f"which is listed: {'not whole' if m is None else 'none of those given'}")
        w.probe("index-states", len(states))

    w.sample = {"plan": {k: plan[k] for k in ("kind", "jobs", "threads")}, "seed": plan.get("seed")}
    w.play(driver)
    w.nontrivial = len([o for o in w.ops if o.desc[0] == "make"]) >= 2


# ------------------------------------------------------------------------------------ C25

GRIDS = {"g2": ({"grid": [30, 60]}, 42), "g3": ({"grid": "H1"}, 12)}


def coords(st):
    """Latitudes and longitudes of a set."""
    import random
    r = random.Random(f"c{st['seed']}")
    n = st["n"]
    c = [[round(r.uniform(-90, 90), 3) for _ in range(n)], [round(r.uniform(0, 360), 3) for _ in range(n)]]
    k = 1 if st.get("lon") else 0
    how = st["how"]
    if how == "middle":          # printed forms of long arrays leave out the middle
        a = 3 + int(st["at"] * max(0, n - 6)) if n > 6 else n // 2
        c[k][min(a, n - 1)] += 0.5
    elif how == "tiny":
        c[k][int(st["at"] * n)] += 1e-11
    elif how == "swap":
        c[k][0], c[k][-1] = c[k][-1], c[k][0]
    elif how == "neg":
        c[k] = [-x / 2 for x in c[k]]
    elif how == "other":
        c[k] = [round(x / 3, 3) for x in reversed(c[k])]
    return c


def grid_coords(g):
    n = GRIDS[g][1]
    return [[i * 2.0 - n for i in range(n)], [i * 5.0 for i in range(n)]]


def weights(lat, lon, lat2, lon2, interp):
    import numpy as np
    import scipy.sparse as sp
    n, m = len(lat), len(lat2)
    rows, cols, data = [], [], []
    code = {"linear": 1.0, "nn": 2.0}[interp]
    for i in range(m):
        for c in sorted({i % n, (i * 7 + 3) % n, n - 1 - i % n}):
            rows.append(i)
            cols.append(c)
            data.append(code * 1000 + lat2[i] + 2 * lon2[i] + 3 * lat[c] + 5 * lon[c])
    # the rest of the coordinates counts too
    rows.append(m - 1)
    cols.append((n - 1 - (m - 1) % n + 1) % n)
    data.append(sum((k + 1) * 1e-3 * x for k, x in enumerate(lat + lon)) + sum((k + 1) * 1e-3 * x for k, x in enumerate(lat2 + lon2)))
    return sp.csr_matrix((np.array(data), (np.array(rows), np.array(cols))), shape=(m, n))


def griddef(b):
    """Coordinates in a MIR griddef file, None if it is not whole."""
    try:
        def ulong(o):
            t, n = struct.unpack_from("!bL", b, o)
            assert t == 10
            return n
        assert ulong(0) == 1
        n = ulong(5)
        assert len(b) == 10 + n * 18
        out = [[], []]
        for k in range(2 * n):
            t, y, x = struct.unpack_from("!bLL", b, 10 + 9 * k)
            assert t == 14
            out[k % 2].append(struct.unpack("!d", struct.pack("!LL", x, y))[0])
        return out
    except Exception:
        return None


class MirError(Exception):
    pass


def stub_mir(w, jobs):
    """Stand-in for the mir package: reads and writes its files through the simulated file system."""
    import pathlib
    import types
    import yaml
    m = types.ModuleType("mir")

    def cache():
        return pathlib.Path(w.path("mircache"))

    def griddef_file(path):
        with open(path, "rb") as f:
            b = f.read()
        c = griddef(b)
        if c is None:
            raise MirError(f"griddef: bad stream, {len(b)} bytes")
        return c

    def gridspec(s):
        d = yaml.safe_load(s)
        for k, (spec, _) in GRIDS.items():
            if spec == d:
                return grid_coords(k)
        raise MirError("gridspec " + s)

    class GridSpecInput:
        def __init__(self, s):
            self.coords = lambda: gridspec(s)

    class GriddefInput:
        def __init__(self, path):
            self.coords = lambda: griddef_file(path)

    class EmptyOutput:
        pass

    class Job:
        def __init__(self):
            self.d = {}

        def set(self, k, v):
            self.d[k] = v
            return self

        def execute(self, input, output):
            fail = jobs.get(w.current_name())
            if fail == "start":
                raise MirError("told to fail")
            lat, lon = input.coords()
            d = dict(self.d)
            lat2, lon2 = gridspec(d.pop("grid")) if "grid" in d else griddef_file(d.pop("griddef"))
            target = d.pop("interpolation-matrix", None)
            b = mir_bytes(weights(lat, lon, lat2, lon2, d.pop("interpolation")))
            if d:
                raise MirError(f"unknown {d}")
            if target is not None:
                with open(target, "wb") as f:
                    f.write(b[:len(b) // 2])
                    if fail == "mid":
                        raise MirError("told to fail")
                    f.write(b[len(b) // 2:])
            if fail == "end":
                raise MirError("told to fail")
    m.cache, m.GridSpecInput, m.GriddefInput, m.EmptyOutput, m.Job = cache, GridSpecInput, GriddefInput, EmptyOutput, Job
    return m


def drive_C25(w, plan):
    import numpy as np
    from .core import cur
    watch = Watch(w)
    out = w.path("out")
    watch.dirs = [out + "/", w.path("mircache") + "/"]
    watch.allowed = [w.root]
    os.makedirs(out)
    os.makedirs(w.path("mircache"))
    sets = [coords(s) for s in plan["sets"]]
    failing = {}
    w.current_name = lambda: cur().name
    begun = {}         # target -> [(step, key)]
    memo = {}

    def grid(g):
        return grid_coords(g) if isinstance(g, str) else sets[g]

    def want(key):
        if key not in memo:
            i, o, p = key
            memo[key] = weights(*grid(i), *grid(o), p)
        return memo[key]

    def explain(m):
        r = []
        for a in list(range(len(sets))) + list(GRIDS):
            for b in list(range(len(sets))) + list(GRIDS):
                for p in ("linear", "nn"):
                    if same(m, want((a, b, p))):
                        r.append((a, b, p))
        return r

    def role(t):
        def f(s):
            for o in t["ops"]:
                run(s, o)
        return f

    def run(s, o):
        import pathlib
        mk = s.mod("utils.mir").mir_make_matrix
        kw = {"interpolation": o["interp"]}
        for k, g in (("in", o["in"]), ("out", o["out"])):
            if isinstance(g, str):
                kw[k + "_grid"] = dict(GRIDS[g][0])
            else:
                c = [list(x) for x in sets[g]]
                if o["form"] == "array":
                    c = [np.array(x) for x in c]
                kw[k + "_lat"], kw[k + "_lon"] = c
        target = None
        if o["to"]:
            target = os.path.join(out, o["to"])
            kw["output"] = pathlib.Path(target) if o["path"] else target
        key = (o["in"], o["out"], o["interp"])
        me = cur().name
        failing[me] = o["fail"]
        if target:
            begun.setdefault(target, []).append([w.step, None, key, o["fail"]])
            mine = begun[target][-1]
        op = w.do(("make", o["in"], o["out"], o["interp"], o["form"], o["to"], o["fail"]), lambda: mk(**kw))
        failing[me] = None
        if target:
            mine[1] = op.ret
        if not op.ok:
            if o["fail"]:
                if op.etype != "RuntimeError" and not w.faulted(op):
                    w.violation("C25", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
                w.probe("failed-job")
            elif not w.faulted(op):
                w.violation("C25", "unexpected-error", f"{op} {w.norm(disklib.tb(op.error))}")
            return
        if o["fail"]:
            return w.violation("C25", "error-swallowed", f"{op}: the job failed")
        if target is None:
            m, op.result = op.result, None
            try:
                import scipy.sparse as sp
                m = sp.csr_matrix(m)
            except Exception:
                return w.violation("C25", "no-matrix", f"{op} returned {m!r}")
            if not same(m, want(key)):
                return w.violation("C25", "wrong-matrix", f"{op}: it is that of {explain(m)}")
            w.probe("matrix-checked")
            return
        others = [x for x in begun[target] if x is not mine and (x[1] is None or x[1] >= op.inv)]
        b = disklib.read_file(target)
        m = (npz_parse if target.endswith("npz") else mir_parse)(b or b"")
        if m is None:
            if target.endswith("mat") and others:
                return
            return w.violation("C25", "output-missing", f"{op}: the output has {None if b is None else len(b)} bytes")
        if not any(same(m, want(k)) for k in [key] + [x[2] for x in others]):
            return w.violation("C25", "wrong-matrix", f"{op}: it is that of {explain(m)}")
        w.probe("matrix-checked")

    def phase(ph, ts):
        ss = []
        for n in sorted({t["s"] for t in ts}):
            mine = [t for t in ts if t["s"] == n]
            ss.append(w.launch(f"{n}{ph}", [(f"t{plan['threads'].index(t)}", role(t)) for t in mine]))
            if mine[0]["delay"]:
                w.sleep(mine[0]["delay"])
        for s in ss:
            w.wait(s)
            if s.uncaught and not s.dead:
                w.violation("C25", "thread-died", s.uncaught[0][3])

    def driver():
        for ph in sorted({t["ph"] for t in plan["threads"]}):
            phase(ph, [t for t in plan["threads"] if t["ph"] == ph])
        w.faults.on = False
        w.sleep(1)

        def last(s):
            for i in range(len(sets)):
                for form in ("list", "array"):
                    run(s, {"in": i, "out": "g2", "form": form, "to": None if form == "list" else "L.npz", "path": i % 2, "interp": "nn", "fail": None})
        s = w.launch("z9", [("t", last)])
        w.wait(s)
        for target, bs in begun.items():
            if not target.endswith(".npz"):
                continue
            for step, b, tn in watch.states(target):
                m = npz_parse(b)
                if m is None:
                    w.violation("C25", "output-partial", f"at step {step} ({tn}) {w.norm(target)} had {len(b)} bytes which are no matrix")
                    break
                if not any(same(m, want(x[2])) for x in bs if x[0] <= step and not x[3]):
                    w.violation("C25", "wrong-matrix", f"at step {step} ({tn}) {w.norm(target)} was that of {explain(m)}")
                    break
            if any(i is None for _, i, _ in watch.hist.get(target, ())):
                w.violation("C25", "output-removed", f"{w.norm(target)} was removed meanwhile")
    w.sample = {"plan": {k: plan[k] for k in ("kind", "sets", "threads")}, "seed": plan.get("seed")}
    keep = sys.modules.get("mir")
    sys.modules["mir"] = stub_mir(w, failing)
    try:
        w.play(driver)
    finally:
        if keep is None:
            sys.modules.pop("mir", None)
        else:
            sys.modules["mir"] = keep
    w.nontrivial = len([o for o in w.ops if o.ok]) >= 2

"""Gridded data: xarray objects, chunked or not, and lists of fields (C20)."""
import sys

from . import disklib, inv
from .world import World

IN = (0, 1, 3, 4, 5)
GEO_IN = {0: (7, 12), 4: (5, 8), 5: (7, 12)}
DTYPES = ("float64", "float64", "float32", "int64", "int16")


# ------------------------------------------------------------------------------------ plans

def gen(rng, prop, tier):
    kind = rng.choice(["eager", "lazy", "lazy", "conc", "conc", "churn", "churn", "fail", "fields"])
    gridsin = rng.sample(IN, rng.choice([1, 2, 2]))
    gridsout = sorted(rng.sample(range(len(inv.GRIDS_OUT)), 3))
    specs = []
    ms = rng.getrandbits(20)
    for i in gridsin:
        for o in gridsout:
            for m in inv.METHODS[:2]:
                n = inv.GRIDS_IN[i][2] * 12
                specs.append([i, o, m, rng.choice([24, 100, 300, n // 2]), ms + len(specs)])
    arrays = []
    for _ in range(rng.choice([1, 2, 3])):
        i = rng.choice(gridsin)
        names = rng.sample(["time", "level", "member"], rng.choice([0, 1, 1, 2, 2, 3]))
        dims = [[n, rng.choice([1, 2, 3, 4] if len(names) < 3 else [1, 2, 3])] for n in names]
        lazy = kind in ("lazy", "conc", "churn", "fail") and rng.random() < 0.85 or rng.random() < 0.2
        chunks = None
        if lazy:
            chunks = {n: rng.randrange(1, k + 1) for n, k in dims}
        arrays.append({"i": i, "dims": dims, "seed": rng.randrange(1000), "dtype": rng.choice(DTYPES), "mixed": rng.random() < 0.3, "chunks": chunks,
                       "geochunk": lazy and rng.random() < 0.15, "vars": rng.choice([0, 0, 0, 1, 2, 3]),
                       "first": rng.random() < 0.12, "nan": rng.random() < 0.1})
    sizes = [inv.Entry(s).size for s in specs]

    def conf():
        return {"policy": rng.choice(["off", "unlimited", "lru", "largest"]), "max": rng.choice(
            [max(sizes) + 101, sum(sizes) // 3 | 1, sum(sizes) * 4 + 1])}
    threads = []

    def client(n):
        ops, slots = [], []
        for _ in range(n):
            x = rng.random()
            if not slots or x < 0.5:
                s = len(slots)
                ops.append({"op": "regrid", "a": rng.randrange(len(arrays)), "o": rng.choice(gridsout),
                            "m": rng.choice(inv.METHODS[:2]), "slot": s})
                slots.append(s)
            if x > 0.3:
                k = rng.choice([1, 1, 2, 3])
                ops.append({"op": "compute", "slots": rng.sample(slots, min(k, len(slots))), "workers": rng.choice([1, 2, 3, 4]),
                            "sel": rng.random() < 0.25, "i": rng.randrange(12)})
        return ops

    def churn(n):
        ops = []
        for _ in range(n):
            x = rng.random()
            ops.append({"op": "clear"} if x < 0.3 else {"op": "info"} if x < 0.4 else dict(conf(), op="set", temp=rng.random() < 0.3))
        return ops
    if kind == "fields":
        for _ in range(rng.choice([1, 1, 2])):
            threads.append({"ops": [{"op": "fields", "a": [[rng.choice(gridsin), rng.randrange(1000)] for _ in range(
                rng.choice([1, 2, 3, 5]))], "o": rng.choice(gridsout), "m": rng.choice(inv.METHODS[:2]),
                "single": rng.random() < 0.2} for _ in range(rng.choice([1, 2, 3]))]})
        if rng.random() < 0.5:
            threads.append({"ops": churn(3)})
    else:
        for _ in range({"eager": 1, "lazy": 1, "conc": rng.choice([2, 3]), "churn": rng.choice([1, 2]), "fail": 1}[kind]):
            threads.append({"ops": client(rng.choice([1, 2, 3]))})
        if kind == "churn":
            threads.append({"ops": churn(rng.choice([3, 6, 10]))})
    faults = {}
    if kind == "fail":
        faults = {"seed": rng.getrandbits(32), "rates": {"fs.open-r": rng.choice([0.15, 0.4])}, "max": rng.choice([1, 2, 4]),
                  "nokill": True, "match": ["/inv"]}
    return {"kind": kind, "specs": specs, "arrays": arrays, "threads": threads, "conf": conf(), "faults": faults,
            "collide": rng.random() < 0.3, "gran": "instr" if rng.random() < 0.2 else "line"}


def build(plan):
    return World(plan, step_cap=3000000)


# ------------------------------------------------------------------------------------ stand-ins

class Grid:
    """Stand-in for mir.Grid (the mir package is not installed): regular latitude-longitude grids and the
    one-dimensional ones of inv.GRIDS_IN."""

    def __init__(self, **spec):
        self.spec = dict(spec)
        g = spec["grid"]
        if isinstance(g, str):
            self.shape = next((n,) for e, q, n in inv.GRIDS_IN if q["grid"] == g)
        else:
            self.area = n, w, s, e = spec.get("area", [90, 0, -90, 360])
            self.shape = (int((n - s) / g[1]) + 1, int(min(e - w + g[0], 360) / g[0]))

    def to_latlons(self):
        lat = [self.area[0] - j * self.spec["grid"][1] for j in range(self.shape[0])]
        lon = [self.area[1] + i * self.spec["grid"][0] for i in range(self.shape[1])]
        return [a for a in lat for _ in lon], [b for _ in lat for b in lon]


def stub_mir():
    import types
    m = types.ModuleType("mir")
    m.Grid = Grid
    return m


def stub_data():
    """Stand-in for earthkit.data: lists of fields in memory."""
    import types
    m = types.ModuleType("earthkit.data")

    class Metadata:
        def __init__(self, d):
            self.d = d

        @property
        def gridspec(self):
            return self.d["gridspec"]

        def override(self, **kw):
            return Metadata(dict(self.d, **kw))

    class Field:
        def __init__(self, v, md):
            self.v, self.md = v, md

        def to_numpy(self, flatten=False):
            return self.v.flatten() if flatten else self.v.copy()

        def metadata(self):
            return self.md

    class FieldList:
        def __init__(self, fields=()):
            self.fields = list(fields)

        def __iter__(self):
            return iter(self.fields)

        def __len__(self):
            return len(self.fields)

        def __getitem__(self, i):
            return self.fields[i]

        def __iadd__(self, other):
            return FieldList(self.fields + other.fields)

        @staticmethod
        def from_numpy(v, md):
            return FieldList([Field(v, md)])

        @staticmethod
        def from_fields(fields):
            return FieldList(fields)
    m.Field, m.FieldList, m.Metadata = Field, FieldList, Metadata
    return m


# ------------------------------------------------------------------------------------ runs

class Threads(dict):
    """A set with an order of its own: that of ThreadPoolExecutor depends on addresses."""

    def add(self, t):
        self[t] = True


PICKLES = {}


def dask_names(dask):
    """Names of tasks are digests of pickled functions, which depend on object identities: number them in the
    order of their appearance in the run instead. Equal ones stay equal."""
    PICKLES.clear()
    if hasattr(dask, "sim_names"):
        return
    import re
    from dask.array import blockwise, core, gufunc
    from dask.utils import funcname
    import dask.tokenize
    tok = sys.modules["dask.tokenize"]
    real = tok._normalize_pickle

    def normalize_pickle(o):
        r = real(o)
        return PICKLES.setdefault(repr(r), len(PICKLES)), []

    def name(f):
        return re.sub("0x[0-9a-f]*", "", funcname(f))
    dask.sim_names = True
    tok._normalize_pickle = normalize_pickle
    for m in (blockwise, core, gufunc, dask.blockwise, dask.utils):
        if hasattr(m, "funcname"):
            m.funcname = name


def dtype(a, name):
    """Of a variable."""
    return DTYPES[(DTYPES.index(a["dtype"]) + int(name[1:])) % len(DTYPES)] if a["mixed"] else a["dtype"]


def of(a, name):
    return dict(a, dtype=dtype(a, name))


def make(plan, a):
    """(object, per-variable array of field seeds)"""
    import numpy as np
    import xarray as xr
    i = a["i"]
    n = inv.GRIDS_IN[i][2]
    geo = GEO_IN.get(i, (n,))
    gnames = ["latitude", "longitude"] if len(geo) == 2 else ["values"]
    shape = [k for _, k in a["dims"]]
    names = [k for k, _ in a["dims"]]
    tot = int(np.prod(shape)) if shape else 1
    data = {}
    for v in range(max(1, a["vars"])):
        dt = dtype(a, "v%d" % v)
        ids = np.arange(tot).reshape(shape) + a["seed"] * 100 + v * 10000
        x = np.empty((tot, n))
        for j, s in enumerate(ids.ravel()):
            x[j] = inv.values(n, int(s))
            if a["nan"] and dt.startswith("float"):
                x[j, int(s) % n] = np.nan
        x = x.reshape(tuple(shape) + geo).astype(dt)
        dims = names + gnames
        coords = {k: np.arange(len_) * 6 for k, len_ in a["dims"]}
        if names:
            coords["label"] = (names[0], ["L%d" % j for j in range(a["dims"][0][1])])
        if gnames == ["latitude", "longitude"]:
            coords["latitude"] = np.linspace(90, -90, geo[0])
            coords["longitude"] = np.arange(geo[1]) * 360.0 / geo[1]
        da = xr.DataArray(x, dims=dims, coords=coords, attrs={"gridspec": dict(inv.GRIDS_IN[i][1])})
        if a["first"]:
            da = da.transpose(*(gnames + names))
        data["v%d" % v] = (da, ids)
    if a["vars"]:
        obj = xr.Dataset({k: d for k, (d, _) in data.items()}, attrs={"gridspec": dict(inv.GRIDS_IN[i][1])})
    else:
        obj = data["v0"][0]
    if a["chunks"] is not None:
        ch = dict(a["chunks"])
        if a["geochunk"]:
            ch[gnames[0]] = max(1, geo[0] // 2)
        obj = obj.chunk(ch)
    return obj, {k: i for k, (_, i) in data.items()}, gnames, names


def drive(w, plan):
    import numpy as np
    import xarray as xr
    import dask
    import dask.array  # noqa
    import dask.threaded
    from concurrent.futures import ThreadPoolExecutor
    dask_names(dask)
    # Names of tasks which are too long are cut and end with digits of their hash, which depends on a random seed:
    # any two may be equal
    sys.modules["dask.optimization"].hash = (lambda x: 0x1234567) if plan.get("collide") else hash
    if plan.get("collide"):
        w.count_fault("hash-collision")
    plan_inv = inv.Inventory("inv0", plan["specs"])
    path = plan_inv.write(w)
    objs = [make(plan, a) for a in plan["arrays"]]
    before = [o[0].copy(deep=True) for o in objs]
    c = plan["conf"]
    MEM = ("weights-memory-cache-policy", "maximum-weights-memory-cache-size")

    def expect(e, a, seed, dtype):
        v = inv.values(e.n_in, int(seed)).copy()
        if a["nan"] and dtype.startswith("float"):
            v[int(seed) % e.n_in] = np.nan
        return (e.csr @ v.astype(dtype)).reshape(e.shape)

    def setup(s):
        cfg = s.mod().config
        cfg.autosave = False
        cfg.set({MEM[0]: c["policy"], MEM[1]: c["max"]})

    def check(s, op, r, a, ids, names, e, sel):
        """r: computed result of one variable."""
        grid = Grid(**e.qout)
        sizes = dict(a["dims"])
        if sel is not None:
            sizes.pop(sel[0])
            ids = ids.take(sel[1], axis=names.index(sel[0]))
            names = [n for n in names if n != sel[0]]
        want = tuple(names) + ("latitude", "longitude")
        if tuple(r.dims) != want or r.shape != tuple(sizes[n] for n in names) + tuple(e.shape):
            return w.violation("C20", "wrong-shape", f"{op} gave {r.dims} {r.shape}")
        for n in names:
            if n not in r.coords or not np.array_equal(r.coords[n].values, np.arange(sizes[n]) * 6):
                return w.violation("C20", "wrong-coordinates", f"{op}: {n} is {r.coords.get(n)}")
        lat, lon = (np.array(x).reshape(grid.shape) for x in grid.to_latlons())
        if not np.array_equal(r.coords["latitude"].values, lat[:, 0]) or not np.array_equal(r.coords["longitude"].values, lon[0]):
            return w.violation("C20", "wrong-coordinates", f"{op}: {r.coords}")
        v = r.values.reshape((-1,) + tuple(e.shape))
        for j, seed in enumerate(ids.ravel()):
            x = expect(e, a, seed, a["dtype"])
            if not np.allclose(v[j], x, rtol=1e-5 if a["dtype"] == "float32" else 0, atol=1e-9, equal_nan=True):
                other = [(n2, k, e2.spec) for q, (_, i2, _, _) in zip(plan["arrays"], objs) for n2 in i2 for k, s2 in enumerate(i2[n2].ravel())
                         for e2 in plan_inv.entries.values() if e2.i == q["i"] and e2.shape == e.shape and
                         np.allclose(expect(e2, q, s2, a["dtype"]), v[j], 1e-5, equal_nan=True)]
                oe = [k for k in plan_inv.entries.values() if k.i == e.i and k.shape == e.shape and
                      np.allclose(expect(k, a, seed, a["dtype"]), v[j], rtol=1e-5, equal_nan=True)]
                return w.violation("C20", "wrong-field", f"{op}: field {j} of {len(v)} differs ({a['dtype']}: {v[j].ravel()[:4]} for "
                                   f"{x.ravel()[:4]}); equals fields {other}, or the same field with {[k.spec for k in oe]}")
        w.probe("fields-checked", len(v))

    def excusable(op):
        return w.faulted(op)

    def role(t):
        def f(s):
            slots = {}
            for o in t["ops"]:
                x = o["op"]
                if x == "regrid":
                    obj, ids, gnames, names = objs[o["a"]]
                    a = plan["arrays"][o["a"]]
                    e = plan_inv.entries[(a["i"], o["o"], o["m"])]
                    kw = {"in_dims": gnames} if a["first"] else {}
                    op = w.do(("regrid", o["a"], o["o"], o["m"]), lambda: s.mod("regrid").regrid(
                        obj, grid=dict(e.qout), interpolation=o["m"], backend="precomputed", inventory=path, **kw))
                    if not op.ok:
                        if not excusable(op):
                            return w.violation("C20", "unexpected-error", f"{op} {disklib.tb(op.error)}")
                        continue
                    r, op.result = op.result, None
                    if isinstance(r, xr.Dataset) != bool(a["vars"]) or a["vars"] and set(r.data_vars) != set(ids):
                        return w.violation("C20", "wrong-variables", f"{op}: {r}")
                    vs = {k: r[k] for k in ids} if a["vars"] else {"v0": r}
                    if a["chunks"] is None:
                        for k in sorted(vs):
                            check(s, op, vs[k], of(a, k), ids[k], names, e, None)
                    else:
                        for k in sorted(vs):
                            if vs[k].chunks is None:
                                return w.violation("C20", "not-lazy", f"{op}: computed at once")
                        slots[o["slot"]] = (vs, a, ids, names, e)
                elif x == "compute":
                    todo = []
                    for k in o["slots"]:
                        if k not in slots:
                            continue
                        vs, a, ids, names, e = slots[k]
                        sel = None
                        if o["sel"] and names:
                            n = names[o["i"] % len(names)]
                            sel = (n, o["i"] % dict(a["dims"])[n])
                        for v in sorted(vs):
                            todo.append((vs[v] if sel is None else vs[v].isel({sel[0]: sel[1]}), of(a, v), ids[v], names, e, sel))
                    if not todo:
                        continue

                    def compute():
                        pool = ThreadPoolExecutor(o["workers"])
                        pool._threads = Threads()
                        try:
                            return dask.compute(*[q[0] for q in todo], scheduler="threads", pool=pool, optimize_graph=bool(o["i"] % 5))
                        finally:
                            pool.shutdown(wait=True)
                    op = w.do(("compute", o["slots"], o["workers"], o["sel"]), compute)
                    if not op.ok:
                        if not excusable(op):
                            return w.violation("C20", "unexpected-error", f"{op} {disklib.tb(op.error)}")
                        continue
                    rs, op.result = op.result, None
                    for r, q in zip(rs, todo):
                        check(s, op, r, *q[1:])
                elif x == "fields":
                    m = sys.modules["earthkit.data"]
                    src = [m.Field(inv.values(inv.GRIDS_IN[i][2], sd).reshape(GEO_IN.get(i, (-1,))), m.Metadata(
                        {"gridspec": dict(inv.GRIDS_IN[i][1]), "n": j})) for j, (i, sd) in enumerate(o["a"])]
                    if o["single"]:
                        src = src[:1]
                    arg = src[0] if o["single"] else m.FieldList(src)
                    op = w.do(("fields", o["a"], o["o"], o["m"]), lambda: s.mod("regrid").regrid(
                        arg, grid=dict(inv.GRIDS_OUT[o["o"]][1]), interpolation=o["m"], backend="precomputed", inventory=path))
                    if not op.ok:
                        if not excusable(op):
                            return w.violation("C20", "unexpected-error", f"{op} {disklib.tb(op.error)}")
                        continue
                    res = [op.result] if o["single"] else list(op.result)
                    op.result = None
                    if len(res) != len(src):
                        return w.violation("C20", "fields-lost", f"{op}: {len(res)} fields of {len(src)}")
                    for j, fld in enumerate(res):
                        e = plan_inv.entries[(o["a"][j][0], o["o"], o["m"])]
                        if not np.array_equal(fld.v, e.expect(o["a"][j][1])) or fld.md.d["n"] != j:
                            return w.violation("C20", "wrong-field", f"{op}: field {j}")
                    w.probe("fields-checked", len(res))
                elif x == "clear":
                    w.do(("clear",), s.mod("utils.memcache").clear_memory_cache)
                elif x == "info":
                    w.do(("info",), s.mod("utils.memcache").memory_cache_info)
                elif x == "set":
                    d = {MEM[0]: o["policy"], MEM[1]: o["max"]}
                    cfg = s.mod().config

                    def scope():
                        with cfg.temporary(d):
                            w.sleep(0.01)
                    op = w.do(("set", o["policy"], o["max"], o["temp"]), scope if o["temp"] else (lambda: cfg.set(d)))
                    if not op.ok:
                        return w.violation("C20", "unexpected-error", f"{op} {disklib.tb(op.error)}")
        return f

    def teardown(s):
        w.faults.on = False
        for (obj, _, _, _), b in zip(objs, before):
            if not obj.identical(b):
                w.violation("C20", "input-changed", "an input object was changed")
        # every array once more, eager
        for a, (obj, ids, gnames, names) in zip(plan["arrays"], objs):
            e = next(x for k, x in sorted(plan_inv.entries.items()) if k[0] == a["i"] and k[2] == inv.METHODS[0])
            with dask.config.set(scheduler="sync"):
                o = obj.compute()
            op = w.do(("again",), lambda: s.mod("regrid").regrid(
                o, grid=dict(e.qout), interpolation=e.method, backend="precomputed", inventory=path,
                **({"in_dims": gnames} if a["first"] else {})))
            if not op.ok:
                return w.violation("C20", "unexpected-error", f"{op} {disklib.tb(op.error)}")
            r, op.result = op.result, None
            for k in ids:
                check(s, op, r[k] if a["vars"] else r, of(a, k), ids[k], names, e, None)

    def driver():
        s = w.launch("s1", [(f"t{i}", role(t)) for i, t in enumerate(plan["threads"])], setup=setup, teardown=teardown)
        w.wait(s)
        if s.uncaught:
            w.violation("C20", "thread-died", s.uncaught[0][3])
    w.sample = {"plan": {k: plan[k] for k in ("kind", "arrays", "threads")}, "seed": plan.get("seed")}
    keep = {k: sys.modules.get(k) for k in ("mir", "earthkit.data")}
    sys.modules["mir"] = stub_mir()
    if plan["kind"] == "fields":
        sys.modules["earthkit.data"] = stub_data()
    import earthkit as ek
    old = ek.__dict__.get("data")
    if plan["kind"] == "fields":
        ek.__dict__["data"] = sys.modules["earthkit.data"]
    try:
        w.play(driver)
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if plan["kind"] == "fields":
            if old is None:
                ek.__dict__.pop("data", None)
            else:
                ek.__dict__["data"] = old
    w.nontrivial = len([o for o in w.ops if o.ok and o.desc[0] in ("regrid", "compute", "fields")]) >= 2

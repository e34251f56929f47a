"""Synthetic matrix inventories: small real CSR matrices with integer weights (exact products)."""
import functools
import hashlib
import io
import json
import random
import zipfile

GRIDS_IN = [
    ({"grid": [30, 30], "shape": [7, 12], "area": [90, 0, -90, 330], "global": 1}, {"grid": [30, 30]}, 84),
    ({"grid": "H2", "ordering": "ring"}, {"grid": "H2"}, 48),
    ({"grid": "H2", "ordering": "nested"}, {"grid": "H2", "order": "nested"}, 48),
    ({"grid": "O2", "shape": [60], "area": [59.4, 0, -59.4, 345], "global": 1}, {"grid": "O2"}, 60),
    ({"grid": [45, 45], "shape": [5, 8], "area": [90, 0, -90, 315], "global": 1}, {"grid": [45, 45]}, 40),
    # as the first one, from another meridian on
    ({"grid": [30, 30], "shape": [7, 12], "area": [90, -180, -90, 150], "global": 1},
     {"grid": [30, 30], "area": [90, -180, -90, 150]}, 84),
]
GRIDS_OUT = [
    ({"grid": [60, 60], "shape": [4, 6], "area": [90, 0, -90, 300], "global": 1}, {"grid": [60, 60]}, [4, 6]),
    ({"grid": [90, 90], "shape": [3, 4], "area": [90, 0, -90, 270], "global": 1}, {"grid": [90, 90]}, [3, 4]),
    # as many points as the first one in another shape
    ({"grid": [45, 90], "shape": [3, 8], "area": [90, 0, -90, 315], "global": 1}, {"grid": [45, 90]}, [3, 8]),
    # as the first one, from another meridian on, and half of it
    ({"grid": [60, 60], "shape": [4, 6], "area": [90, -180, -90, 120], "global": 1},
     {"grid": [60, 60], "area": [90, -180, -90, 120]}, [4, 6]),
    ({"grid": [60, 60], "shape": [4, 4], "area": [90, 0, -90, 180], "global": 0}, {"grid": [60, 60], "area": [90, 0, -90, 180]}, [4, 4]),
]
METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
ALIASES = {"nearest-neighbour": ["nearest-neighbour", "nn", "nearest-neighbor"]}
# other spellings of the same grid
SPELL_IN = [
    [{"grid": [30, 30]}, {"grid": (30, 30)}, {"grid": [30.0, 30.0]}, {"grid": [30, 30], "shape": [7, 12]}],
    [{"grid": "H2"}, {"grid": "h2"}, {"grid": "H2", "ordering": "ring"}, {"grid": "H2", "order": "ring"}],
    [{"grid": "H2", "order": "nested"}, {"grid": "H2", "ordering": "nested"}],
    [{"grid": "O2"}, {"grid": "o2"}, {"grid": "O2", "shape": [60]}],
    [{"grid": [45, 45]}, {"grid": (45.0, 45)}],
    [{"grid": [30, 30], "area": [90, -180, -90, 150]}, {"grid": (30, 30), "area": (90, 180, -90, 510)},
     {"grid": [30, 30], "area": [90.0, -180, -90, 150.0], "shape": [7, 12]}],
]
SPELL_OUT = [
    [{"grid": [60, 60]}, {"grid": (60, 60)}, {"grid": [60, 60], "shape": [4, 6]}],
    [{"grid": [90, 90]}, {"grid": [90.0, 90.0]}],
    [{"grid": [45, 90]}, {"grid": (45.0, 90)}],
    [{"grid": [60, 60], "area": [90, -180, -90, 120]}, {"grid": [60, 60], "area": (90, 180, -90, 120)}],
    [{"grid": [60, 60], "area": [90, 0, -90, 180]}, {"grid": (60, 60.0), "area": [90, 0, -90, 180.0]}],
]


def nbytes(nnz, nout):
    return 12 * nnz + 4 * (nout + 1)


@functools.lru_cache(maxsize=4000)
def matrix(seed, n_in, n_out, nnz):
    """(csr matrix, npz bytes)"""
    import numpy as np
    import scipy.sparse as sp
    rng = random.Random(f"m{seed}:{n_in}:{n_out}:{nnz}")
    nnz = min(nnz, n_in * n_out)
    cells = sorted(rng.sample(range(n_in * n_out), nnz))
    data = np.array([float(rng.randrange(1, 50)) for _ in cells])
    rows = [c // n_in for c in cells]
    cols = np.array([c % n_in for c in cells], dtype=np.int32)
    indptr = np.zeros(n_out + 1, dtype=np.int32)
    for r in rows:
        indptr[r + 1] += 1
    indptr = np.cumsum(indptr).astype(np.int32)
    m = sp.csr_matrix((data, cols, indptr), shape=(n_out, n_in))
    return m, npz(m)


def npz(m):
    import numpy as np
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, "w", zipfile.ZIP_DEFLATED) as z:
        for name, a in (("indices", m.indices), ("indptr", m.indptr), ("format", np.array(b"csr")),
                        ("shape", np.array(m.shape)), ("data", m.data)):
            b = io.BytesIO()
            np.lib.format.write_array(b, np.asanyarray(a), allow_pickle=False)
            zi = zipfile.ZipInfo(name + ".npy", (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, b.getvalue())
    return bio.getvalue()


class Entry:
    """spec: [in index, out index, method, nnz, seed]"""

    def __init__(self, spec, memory=True):
        self.spec = tuple(spec)
        i, o, method, nnz, seed = spec
        self.i, self.o, self.method, self.nnz, self.seed = i, o, method, nnz, seed
        self.ein, self.qin, self.n_in = GRIDS_IN[i]
        self.eout, self.qout, self.shape = GRIDS_OUT[o]
        self.n_out = self.shape[0] * self.shape[1]
        self.nnz = min(nnz, self.n_in * self.n_out)
        self.size = nbytes(self.nnz, self.n_out)
        # the name is a digest of the description, as in the real inventories: the same for the
        # same grids and method in every inventory
        self.name = hashlib.sha256(json.dumps([self.ein, self.eout, method], sort_keys=True).encode()).hexdigest()
        self.memory = memory

    @property
    def key(self):
        return (self.i, self.o, self.method)

    @property
    def path(self):
        return f"mir_16_{self.method}/{self.name}.npz"

    @property
    def csr(self):
        return matrix(self.seed, self.n_in, self.n_out, self.nnz)[0]

    @property
    def data(self):
        return matrix(self.seed, self.n_in, self.n_out, self.nnz)[1]

    def raw(self):
        e = {"input": dict(self.ein), "output": dict(self.eout),
             "interpolation": {"engine": "mir", "version": 16, "method": self.method}}
        if self.memory:
            e["memory"] = self.size if self.memory is True else self.memory
        return e

    def values(self, vseed):
        return values(self.n_in, vseed)

    def expect(self, vseed):
        return expected(self.spec, vseed)


@functools.lru_cache(maxsize=4000)
def values(n, vseed):
    import numpy as np
    r = random.Random(f"v{n}:{vseed}")
    # sums of products with the weights are exact with double precision but not with single
    return np.array([r.randrange(-1000 << 10, 1000 << 10) / 1024.0 for _ in range(n)])


@functools.lru_cache(maxsize=8000)
def expected(spec, vseed):
    e = Entry(spec)
    return (e.csr @ e.values(vseed)).reshape(e.shape)


class Inventory:
    def __init__(self, name, specs, memory=True):
        self.name = name
        self.entries = {}
        for s in specs:
            e = Entry(s, memory)
            self.entries[e.key] = e

    def index(self, keys=None):
        ks = self.entries if keys is None else keys
        return json.dumps({"version": 1, "matrix": {self.entries[k].name: self.entries[k].raw() for k in ks}},
                          indent=1)

    def write(self, world):
        """Store as a local directory; returns its path."""
        import os
        d = world.path(self.name)
        os.makedirs(d)
        with open(os.path.join(d, "index.json"), "w") as f:
            f.write(self.index())
        for e in self.entries.values():
            p = os.path.join(d, e.path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(e.data)
        return d


def query(i, o, spell=0):
    return (SPELL_IN[i][spell % len(SPELL_IN[i])], SPELL_OUT[o][(spell // 7) % len(SPELL_OUT[o])])


def unique_sums(sizes):
    seen = {0: frozenset()}
    for k, s in enumerate(sizes):
        new = {}
        for t, ks in seen.items():
            if t + s in seen or t + s in new:
                return None
            new[t + s] = ks | {k}
        seen.update(new)
    return seen

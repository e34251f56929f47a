import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import make
R = "src/earthkit/regrid/"
U = R + "utils/"
MC, CA, CF, DB, XR, BU, MI, ST = U + "memcache.py", U + "caching.py", U + "config.py", R + "backends/db.py", R + "data/xarray.py", \
    U + "builder.py", U + "mir.py", U + "stream.py"

make("key-depends-on-argument-order", "C06",
     "the same arguments given as dictionaries in another order",
     "the cache key depends on the order in which the arguments are given, so that a file is created again under another path",
     [(CA, """        m.update(json.dumps(args, sort_keys=True, default=default_serialiser).encode("utf-8"))
""", """        m.update(json.dumps(args, default=default_serialiser).encode("utf-8"))
""")], '''
import os
from earthkit.regrid import config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
config.set({"cache-policy": "user", "user-cache-directory": os.environ["WORK"] + "/cache"})
calls = []


def create(target, args):
    calls.append(1)
    open(target, "w").write("x")


a = cache_file("demo", create, {"url": "u", "parts": None})
b = cache_file("demo", create, {"parts": None, "url": "u"})
assert a == b and len(calls) == 1, (a, b, calls)
''')

make("falsy-values-not-saved", "C17",
     "a setting whose default is a value is set to None (or a list to empty), and a later session reads the file",
     "settings with a false value are not written to the configuration file, later sessions get the default again",
     [(CF, """        if value != self.default:
""", """        if value and value != self.default:
""")], '''
import os, subprocess, sys

env = dict(os.environ, EARTHKIT_REGRID_CONFIG_FILE=os.environ["WORK"] + "/c/config.yaml")
r = subprocess.run([sys.executable, "-c", "from earthkit.regrid import config; config.set('maximum-cache-size', None)"], env=env)
assert r.returncode == 0
r = subprocess.run([sys.executable, "-c", "from earthkit.regrid import config; print(config.get('maximum-cache-size'))"], env=env,
                   capture_output=True, text=True)
assert r.stdout.strip() == "None", r.stdout
''')

make("temporary-root-change-ignored", "C11",
     "the policy is 'temporary' and only temporary-cache-directory-root changes",
     "a change of the root of the temporary cache directory is ignored until the policy changes too",
     [(CA, """    OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-cache-directory-root"]
""", """    OUTDATED_CHECK_KEYS = ["cache-policy"]
""")], '''
import os
from earthkit.regrid import cache, config

config.autosave = False
w = os.environ["WORK"]
config.set({"cache-policy": "temporary", "temporary-cache-directory-root": w + "/a"})
assert os.path.dirname(cache.directory()) == w + "/a"
config.set({"temporary-cache-directory-root": w + "/b"})
assert os.path.dirname(cache.directory()) == w + "/b", cache.directory()
''')

make("eviction-spares-from-last-start", "C09",
     "two files being created at the same time, another one created in between, and the limit exceeded while both are running",
     "eviction spares what was created since the start of the last running creation, not of the first one",
     [(CA, """            latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
""", """            latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
""")], '''
import os, threading
from earthkit.regrid import cache, config
from earthkit.regrid.utils.caching import cache_file

config.autosave = False
config.set({"cache-policy": "user", "user-cache-directory": os.environ["WORK"] + "/cache", "maximum-cache-size": 1000})


def put(name, size, started=None, go=None):
    def create(target, args):
        if started:
            started.set()
            go.wait(60)
        with open(target, "wb") as f:
            f.write(b"x" * size)
    return cache_file("demo", create, [name])


def slow(name):
    ev = threading.Event(), threading.Event()
    t = threading.Thread(target=put, args=(name, 10) + ev)
    t.start()
    ev[0].wait(60)
    return t, ev[1]


t1, go1 = slow("first")
b = put("between", 700)
t2, go2 = slow("second")
put("more", 700)
cache.size()
ok = os.path.exists(b)
go1.set(); go2.set(); t1.join(); t2.join()
assert ok, "evicted although an older creation was still running"
''')

make("settings-followed-one-at-a-time", "C19",
     "one configuration change that touches the limit and the policy of the memory cache together",
     "the memory cache takes over only the first of several settings changed together",
     [(MC, """                if any(
                    [
                        _update("max_mem", self.MAX_SIZE_KEY),
                        _update("strict", self.STRICT_KEY),
                        _update_policy(),
                    ]
                ):
""", """                if (
                    _update("max_mem", self.MAX_SIZE_KEY)
                    or _update("strict", self.STRICT_KEY)
                    or _update_policy()
                ):
""")], '''
from earthkit.regrid import config, memory_cache_info

config.autosave = False
config.set({"maximum-weights-memory-cache-size": "7MB", "weights-memory-cache-policy": "lru"})
i = memory_cache_info()
assert i.policy == "lru" and i.maxsize == 7 * 1024 * 1024, i
config.set({"maximum-weights-memory-cache-size": "9MB", "weights-memory-cache-policy": "off"})
i = memory_cache_info()
assert i.policy == "off", i
''')

make("backends-shared-between-inventories", "C01",
     "two inventories used in one session",
     "the backend objects are kept by argument names only, so that the first inventory used answers for all",
     [(R + "backends/__init__.py", """            key = [name, *args, *list(kwargs.items())]
""", """            key = [name, *args, *kwargs]
""")], '''
import json, os
import numpy as np
import scipy.sparse as sp
from earthkit.regrid import config
from earthkit.regrid.array import regrid

config.autosave = False
w = os.environ["WORK"]


def inventory(name, factor):
    d = os.path.join(w, name)
    os.makedirs(d + "/mir_16_linear")
    sp.save_npz(d + "/mir_16_linear/m.npz", sp.csr_array(np.full((12, 84), factor)))
    json.dump({"version": 1, "matrix": {"m": {
        "input": {"grid": [30, 30], "shape": [7, 12], "area": [90, 0, -90, 330], "global": 1},
        "output": {"grid": [90, 90], "shape": [3, 4], "area": [90, 0, -90, 270], "global": 1},
        "interpolation": {"engine": "mir", "version": 16, "method": "linear"}, "nnz": 1008, "memory": 12000}}},
        open(d + "/index.json", "w"))
    return d


a, b = inventory("a", 1.0), inventory("b", 2.0)
for d, f in ((a, 1.0), (b, 2.0), (a, 1.0)):
    r, _ = regrid(np.ones(84), {"grid": [30, 30]}, {"grid": [90, 90]}, interpolation="linear", backend="precomputed", inventory=d)
    assert (r == 84 * f).all(), (d, r[0])
''')

make("short-transfers-retried-less", "C15",
     "a server that answers only at the fifth attempt",
     "matrix downloads give up after two failures",
     [(DB, """                maximum_retries=5,
""", """                maximum_retries=3,
""")], '''
import http.server, io, json, os, threading, time
import numpy as np
import scipy.sparse as sp
from earthkit.regrid import config
from earthkit.regrid.backends.db import UrlAccessor

config.autosave = False
config.set({"cache-policy": "user", "user-cache-directory": os.environ["WORK"] + "/cache"})
b = io.BytesIO()
sp.save_npz(b, sp.csr_array(np.ones((3, 4))))
b = b.getvalue()
n = [0]


class H(http.server.BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.answer(False)

    def do_GET(self):
        n[0] += 1
        self.answer(True)

    def answer(self, body):
        if body and n[0] <= 4:
            self.send_error(503)
            return
        self.send_response(200)
        self.send_header("content-length", str(len(b)))
        self.end_headers()
        if body:
            self.wfile.write(b)

    def log_message(self, *a):
        pass


s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
time.sleep = lambda x: None
for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    os.environ.pop(k, None)
p = UrlAccessor(f"http://127.0.0.1:{s.server_address[1]}/db/").matrix_path("x/m.npz")
assert open(p, "rb").read() == b and n[0] == 5, n
''')

make("interrupted-index-reused", "C13",
     "a process killed, or the disk filling up, while the downloaded index is being written",
     "what an earlier attempt left of the index is taken for the index",
     [(DB, """            with gzip.open(path_gz, "rb") as f:
                data = f.read()
                with open(target, "wb") as f_out:
                    f_out.write(data)
""", """            if not os.path.exists(target):
                with gzip.open(path_gz, "rb") as f:
                    with open(target, "wb") as f_out:
                        f_out.write(f.read())
""")], '''
import gzip, http.server, json, os, subprocess, sys, threading, hashlib

data = json.dumps({"version": 1, "matrix": {}, "filler": ["x" * 100] * 2000}).encode()
docs = {"/db/index.json.gz": gzip.compress(data), "/db/index.json.sha256": hashlib.sha256(data).hexdigest().encode()}


class H(http.server.BaseHTTPRequestHandler):
    def do_HEAD(self):
        self.answer(False)

    def do_GET(self):
        self.answer(True)

    def answer(self, body):
        b = docs.get(self.path)
        if b is None:
            self.send_error(404)
            return
        self.send_response(200)
        self.send_header("content-length", str(len(b)))
        self.end_headers()
        if body:
            self.wfile.write(b)

    def log_message(self, *a):
        pass


s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
COMMON = """
import os
for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    os.environ.pop(k, None)
from earthkit.regrid import config
config.autosave = False
config.set({"cache-policy": "user", "user-cache-directory": os.environ["WORK"] + "/cache"})
from earthkit.regrid.backends.db import UrlAccessor
a = UrlAccessor(os.environ["URL"])
"""
env = dict(os.environ, URL=f"http://127.0.0.1:{s.server_address[1]}/db/")
CRASH = COMMON + """
import builtins
real = builtins.open
class Torn:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, b):
        self.f.write(b[:len(b) // 2]); self.f.flush(); os._exit(3)
def op(path, mode="r", *args, **kw):
    f = real(path, mode, *args, **kw)
    return Torn(f) if "w" in mode and str(path).endswith(".cache.tmp") else f
builtins.open = op
a.index_path()
"""
r = subprocess.run([sys.executable, "-c", CRASH], env=env)
assert r.returncode == 3, r.returncode
r = subprocess.run([sys.executable, "-c", COMMON + "print(a.index_path())"], env=env, capture_output=True, text=True)
p = r.stdout.strip()
assert open(p, "rb").read() == data, "the index is not the one that was published"
''')

make("padding-tolerated", "C21",
     "a MIR matrix file truncated inside its last block at a multiple of the item size",
     "a truncated MIR matrix file is converted, the missing weights dropped",
     [(MI, """        return csr_array((data, inner, outer), shape=(rows, cols))
""", """        # the blocks can be padded
        nnz = min(len(inner), len(data))
        return csr_array((data[:nnz], inner[:nnz], np.minimum(outer, nnz)), shape=(rows, cols))
""")], '''
import os, struct
import numpy as np
import scipy.sparse as sp
from earthkit.regrid.utils.mir import mir_cached_matrix_to_array

rng = np.random.RandomState(1)
m = sp.csr_array(np.where(rng.rand(6, 9) < 0.4, rng.randint(1, 9, (6, 9)), 0).astype(float))
b = b""
ul = lambda n: struct.pack("!bL", 10, n)
blob = lambda x: struct.pack("!bQ", 21, len(x)) + x
b += ul(6) + ul(9) + ul(m.nnz) + struct.pack("!bL", 5, 1) + ul(4) + ul(8) + ul(8)
b += blob(m.indptr.astype("<u4").tobytes()) + blob(m.indices.astype("<u4").tobytes()) + blob(m.data.astype("<f8").tobytes())
p = os.path.join(os.environ["WORK"], "m.mat")
open(p, "wb").write(b)
assert (mir_cached_matrix_to_array(p).toarray() == m.toarray()).all()
for cut in range(1, 40):
    open(p, "wb").write(b[:-cut])
    try:
        mir_cached_matrix_to_array(p)
    except Exception:
        continue
    raise AssertionError(f"a file without its last {cut} bytes was converted")
''')

make("coordinates-rounded", "C25",
     "coordinates that differ by less than a millionth of a degree",
     "coordinates are rounded to six decimals when they are passed to MIR",
     [(MI, """            s.write_double(lat)
            s.write_double(lon)
""", """            s.write_double(round(lat, 6))
            s.write_double(round(lon, 6))
""")], '''
import os, struct
from earthkit.regrid.utils.mir import mir_write_latlon_to_griddef

p = os.path.join(os.environ["WORK"], "x.griddef")
lat, lon = [10.0, 10.00000012345], [1 / 3, 359.1]
mir_write_latlon_to_griddef(p, lat, lon)
b = open(p, "rb").read()


def double(b):
    y, x = struct.unpack("!LL", b)
    return struct.unpack("!d", struct.pack("!II", x, y))[0]


pos, out = 10, []
while pos < len(b):
    out.append(double(b[pos + 1:pos + 9]))
    pos += 9
assert out == [v for ll in zip(lat, lon) for v in ll], out
''')

make("result-kept-on-shared-method", "C20",
     "a lazy result computed by several threads at once, one switching in the middle of the function",
     "the result of a block is kept on the object shared by all the tasks before it is returned",
     [(XR, """                vals, self.out_grid = self.method(vals)
                return vals
""", """                self.values, self.out_grid = self.method(vals)
                return self.values
""")], '''
import sys, threading, types
import numpy as np

mir = types.ModuleType("mir")


class Grid:
    def __init__(self, **kw):
        self.n = kw["grid"][0]
        self.spec = kw
        self.shape = (3, 4) if self.n == 90 else (2, 2)

    def to_latlons(self):
        la, lo = np.meshgrid(np.linspace(90, -90, self.shape[0]), np.linspace(0, 270, self.shape[1]), indexing="ij")
        return la.ravel(), lo.ravel()


mir.Grid = Grid
sys.modules["mir"] = mir
import dask
import dask.array as da
import xarray as xr
from earthkit.regrid import regrid
from earthkit.regrid.data import numpy as ekn


def fake(self, values, **kw):
    return np.full((3, 4), values.flat[0]), kw["out_grid"]


ekn.NumpyDataHandler.regrid = fake
# switch to another thread at every line of xarray.py's functions, sooner or later
turn = threading.Lock()
import time


def tracer(frame, event, arg):
    if frame.f_code.co_filename.endswith("data/xarray.py"):
        if event == "line" and frame.f_code.co_name == "__call__":
            time.sleep(0.002 * (1 + hash(threading.get_ident()) % 3))
        return tracer
    return None


threading.settrace(tracer)
vals = np.arange(24.0).reshape(24, 1, 1) * np.ones((24, 2, 2))
x = xr.DataArray(da.from_array(vals, chunks=(1, 2, 2)), dims=("time", "latitude", "longitude"), attrs={"gridspec": {"grid": [180, 180]}})
y = regrid(x, {"grid": [90, 90]}, backend="precomputed", interpolation="linear")
from concurrent.futures import ThreadPoolExecutor
for _ in range(3):
    with ThreadPoolExecutor(8) as pool, dask.config.set(pool=pool):
        r = y.compute().values
    assert (r[:, 0, 0] == np.arange(24.0)).all(), r[:, 0, 0]
''')

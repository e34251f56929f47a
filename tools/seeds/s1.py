import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import make
U = "src/earthkit/regrid/utils/"
MC = U + "memcache.py"
CA = U + "caching.py"

make("mem-order-only-for-lru", "C03",
     "weights used under the 'largest' policy, then a switch to 'lru' and an eviction",
     "the order of use is only kept while the policy is 'lru', so that after a switch the wrong weights are evicted",
     [(MC, """                # TODO: move_to_end is only required for the "lru" policy
                self.items.move_to_end(key)
""", """                if isinstance(self.policy, LRUPolicy):
                    self.items.move_to_end(key)
""")], '''
from earthkit.regrid.utils.config import CONFIG
from earthkit.regrid.utils.memcache import MemoryCache

CONFIG.autosave = False
cache = MemoryCache(size_fn=lambda m: 100, policy="largest")
created = []


def get(name):
    def create(*args):
        created.append(name)
        return name, None
    return cache.get(name, create=create, find_entry=lambda *a: None, create_from_entry=lambda e: create())[0]


with CONFIG.temporary({"weights-memory-cache-policy": "largest", "maximum-weights-memory-cache-size": "1000"}):
    for n in "abc":
        get(n)
    get("a")
    CONFIG.set({"weights-memory-cache-policy": "lru", "maximum-weights-memory-cache-size": "201"})
    del created[:]
    get("a")
    assert created == [], "the most recently used weights were evicted"
    get("b")
    assert created == ["b"], "the least recently used weights were kept"
''')

make("mem-load-outside-lock", "C04",
     "two threads asking for the same weights at the same time, the second while the first is loading",
     "weights are loaded outside of the lock, so that concurrent requests for the same weights each load them",
     [(MC, """            if self.policy.has_limit():
                data = self._create_with_pre_check(find_entry, create_from_entry, *args)
            else:
                data = self._create(create, *args)

            self.misses += 1

            if""", """        # loading takes long: do not make the requests for other weights wait for it
        if self.policy.has_limit():
            data = self._create_with_pre_check(find_entry, create_from_entry, *args)
        else:
            data = self._create(create, *args)

        with self.lock:
            self.misses += 1

            if""")], '''
import threading
import time
from earthkit.regrid.utils.config import CONFIG
from earthkit.regrid.utils.memcache import MemoryCache

CONFIG.autosave = False
CONFIG.set("weights-memory-cache-policy", "unlimited")
cache = MemoryCache(size_fn=lambda m: 100, policy="unlimited")
created = []
go = threading.Event()


def create(*args):
    created.append(1)
    go.wait(1)
    return "m", None


def get():
    assert cache.get("x", create=create, find_entry=lambda *a: {}, create_from_entry=create)[0] == "m"


ts = [threading.Thread(target=get) for _ in range(4)]
for t in ts:
    t.start()
for _ in range(100):
    if created:
        break
    time.sleep(0.01)
time.sleep(0.5)
go.set()
for t in ts:
    t.join(60)
    assert not t.is_alive()
assert len(created) == 1, created
''')

make("off-dir-root-not-followed", "C11",
     "changing temporary-directory-root while the cache policy is 'off' and its directory is in use",
     "new files keep going to a directory under the old root",
     [(CA, """    OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-directory-root"]
""", """    OUTDATED_CHECK_KEYS = ["cache-policy"]
""")], '''
import os
from earthkit.regrid.utils.config import CONFIG
from earthkit.regrid.utils.caching import CACHE, cache_file

CONFIG.autosave = False
work = os.environ["WORK"]
a, b = os.path.join(work, "a"), os.path.join(work, "b")
os.mkdir(a)
os.mkdir(b)


def create(target, args):
    with open(target, "w") as f:
        f.write("x")


CONFIG.set({"cache-policy": "off", "temporary-directory-root": a})
assert cache_file("o", create, [1]).startswith(a + os.sep)
CONFIG.set("temporary-directory-root", b)
p = cache_file("o", create, [1])
assert p.startswith(b + os.sep), p
assert CACHE.directory().startswith(b + os.sep)
''')

make("access-left-uncommitted", "C08",
     "two sessions sharing the cache directory; one of them requests a file that is there already",
     "the access record is not committed until the session's next catalogue operation: other sessions do not see it, "
     "cannot write to the catalogue meanwhile, and it is lost if the session is killed",
     [(CA, """        self._ensure_in_cache(path)

        with self.connection as db:
            now = datetime.datetime.now()

            args = json.dumps(args, default=default_serialiser)

            db.execute(
                \"\"\"
                UPDATE cache
                SET accesses    = accesses + 1,
                    last_access = ?
                WHERE path=?\"\"\",
                (now, path),
            )

            changes = db.execute("SELECT changes()").fetchone()[0]

            if not changes:
                db.execute(
""", """        self._ensure_in_cache(path)

        db = self.connection
        now = datetime.datetime.now()

        args = json.dumps(args, default=default_serialiser)

        db.execute(
            \"\"\"
            UPDATE cache
            SET accesses    = accesses + 1,
                last_access = ?
            WHERE path=?\"\"\",
            (now, path),
        )

        changes = db.execute("SELECT changes()").fetchone()[0]

        if not changes:
            with db:
                db.execute(
"""), (CA, """                    (path, owner, args, now, now, 1, parent),
                )

            return dict(""", """                    (path, owner, args, now, now, 1, parent),
                )

        return dict(""")], '''
import os
import sqlite3
from earthkit.regrid.utils.config import CONFIG
from earthkit.regrid.utils.caching import CACHE, CACHE_DB, cache_file

CONFIG.autosave = False
d = os.path.join(os.environ["WORK"], "c")
CONFIG.set({"cache-policy": "user", "user-cache-directory": d})


def create(target, args):
    with open(target, "w") as f:
        f.write("x")


p = cache_file("o", create, [1])
CACHE.size()
assert cache_file("o", create, [1]) == p
assert cache_file("o", create, [1]) == p
other = sqlite3.connect(os.path.join(d, CACHE_DB), timeout=1)
n = other.execute("SELECT accesses FROM cache WHERE path=?", (p,)).fetchone()[0]
assert n == 3, n
with other:
    other.execute("UPDATE cache SET accesses = accesses + 1")
''')

make("access-date-not-updated", "C09",
     "a file requested again later than others, then an eviction",
     "requesting a cached file counts the access but leaves its date, so eviction removes recently used files first",
     [(CA, """                SET accesses    = accesses + 1,
                    last_access = ?
                WHERE path=?\"\"\",
                (now, path),
""", """                SET accesses    = accesses + 1,
                    last_access = MIN(last_access, ?)
                WHERE path=?\"\"\",
                (now, path),
""")], '''
import os
import time
from earthkit.regrid.utils.config import CONFIG
from earthkit.regrid.utils.caching import CACHE, cache_file

CONFIG.autosave = False
d = os.path.join(os.environ["WORK"], "c")
CONFIG.set({"cache-policy": "user", "user-cache-directory": d, "maximum-cache-size": None})


def create(target, args):
    with open(target, "w") as f:
        f.write("x" * 1000)


ps = []
for i in range(4):
    ps.append(cache_file("o", create, [i]))
    time.sleep(0.02)
cache_file("o", create, [0])
time.sleep(0.02)
CONFIG.set("maximum-cache-size", "3500")
CACHE.size()
left = [os.path.exists(p) for p in ps]
assert left == [True, False, True, True], left
''')


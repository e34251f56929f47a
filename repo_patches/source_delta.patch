From ed8461510de6661e68b4754529f75ad8977c5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 01/33] fix: keep weights of different inventories apart in the
 memory cache

---
 src/earthkit/regrid/backends/db.py    | 1 +
 src/earthkit/regrid/utils/memcache.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 79d4c29..5bd30a9 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -473,6 +473,7 @@ class MatrixDb:
             create=self._create_matrix,
             find_entry=self.find_entry,
             create_from_entry=self._create_matrix_from_entry,
+            source=str(self.matrix_source()),
             **kwargs,
         )
 
diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index d65dd4b..3c868ff 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -220,7 +220,7 @@ class MemoryCache:
         self.lock = threading.Lock()
         self.update()
 
-    def get(self, *args, create=None, find_entry=None, create_from_entry=None):
+    def get(self, *args, create=None, find_entry=None, create_from_entry=None, source=None):
         if not self.policy.has_cache():
             return create(*args)
 
@@ -228,7 +228,8 @@ class MemoryCache:
             if not self.policy.has_cache():
                 return create(*args)
 
-            key = make_sha(args)
+            # the same request to different matrix sources gives different matrices
+            key = make_sha([source, *args])
             if key in self.items:
                 item = self.items[key]
                 # TODO: move_to_end is only required for the "lru" policy
-- 
2.43.0


From 4643ff480fa9d55aac7d2ec50361fecced9e9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 02/33] fix: never use a partially loaded matrix index

---
 src/earthkit/regrid/backends/db.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 5bd30a9..ca21caf 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -439,9 +439,12 @@ class MatrixDb:
         return self._index
 
     def _load_index(self):
-        self._index = MatrixIndex()
+        # publish the index only when it is complete: loading may fail, and other threads
+        # may use the index meanwhile
+        index = MatrixIndex()
         path = self._accessor.index_path()
-        self._index.load(path)
+        index.load(path)
+        self._index = index
 
     def _method_alias(self, method):
         for k, v in _METHOD_ALIAS.items():
-- 
2.43.0


From f5729a503dc9652a2a42f8466f1cf05c5f1daf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 03/33] fix: an exit raised by a matcher must not stop the
 cache manager

---
 src/earthkit/regrid/utils/caching.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 582b31e..dc12fb0 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -96,13 +96,14 @@ class Future:
         self._condition = threading.Condition()
         self._ready = False
         self._result = None
+        self._error = None
 
     def execute(self):
         try:
             self._result = self.func(*self.args, **self.kwargs)
-        except Exception as e:
+        except BaseException as e:  # The caller decides what to do with it
             LOG.error(e)
-            self._result = e
+            self._error = e
         with self._condition:
             self._ready = True
             self._condition.notify_all()
@@ -111,8 +112,8 @@ class Future:
         with self._condition:
             while not self._ready:
                 self._condition.wait()
-        if isinstance(self._result, Exception):
-            raise self._result
+        if self._error is not None:
+            raise self._error
         return self._result
 
 
-- 
2.43.0


From 3725d61a79d33205fbec786ff5410d46b7b3a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 04/33] fix: the off cache policy must honour
 temporary-directory-root

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index dc12fb0..b4ef878 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -565,6 +565,7 @@ class CachePolicy(metaclass=ABCMeta):
         "cache-policy",
         "user-cache-directory",
         "temporary-cache-directory-root",
+        "temporary-directory-root",
         "maximum-cache-disk-usage",
         "maximum-cache-size",
     ]
-- 
2.43.0


From da19ffb8079d29a00560511d3d73a3e9794cd203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 05/33] fix: threads must share the temporary directory of the
 off cache policy

---
 src/earthkit/regrid/utils/caching.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b4ef878..624c29b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -665,14 +665,19 @@ class NoCachePolicy(CachePolicy):
     _name = "off"
     _dir = None
 
+    def __init__(self):
+        super().__init__()
+        self._lock = threading.Lock()
+
     def managed(self):
         return False
 
     def directory(self):
         if self._dir is None:
-            if self._dir is None:
-                root_dir = self._expand_path(self._config.get("temporary-directory-root"))
-                self._dir = temp_directory(dir=root_dir)
+            with self._lock:
+                if self._dir is None:
+                    root_dir = self._expand_path(self._config.get("temporary-directory-root"))
+                    self._dir = temp_directory(dir=root_dir)
         return self._dir.path
 
     def use_message_position_index_cache(self):
-- 
2.43.0


From e2723226547f4e393a02ce6f18eb1000254cb741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 06/33] fix: a sibling with the same prefix is not in the cache
 directory

---
 src/earthkit/regrid/utils/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 624c29b..a77ccc5 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -626,7 +626,7 @@ class CachePolicy(metaclass=ABCMeta):
         pass
 
     def file_in_cache_directory(self, path):
-        return path.startswith(self.directory())
+        return path.startswith(os.path.join(self.directory(), ""))
 
     @staticmethod
     def _expand_path(path):
-- 
2.43.0


From c746f1b8766a0b11102376ce336ccbb97d22e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 07/33] fix: a configuration change must not return before the
 cache manager follows it

---
 src/earthkit/regrid/utils/caching.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index a77ccc5..7b2b26b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -793,15 +793,15 @@ class Cache:
 
     def _config_changed(self):
         LOG.debug("Cache: config_changed, cache-policy=" + CONFIG.get("cache-policy"))
-        if self.policy.outdated():
-            with self._policy_lock:
-                # Check again, another thread/process may have modified the policy
-                if self._policy.outdated():
-                    self._policy = None
-                    self._make_policy()
-        elif self.policy.update() and self.policy.managed():
-            with self._manager_lock:
-                self._call_manager_config_changed()
+        with self._policy_lock:
+            if self._policy is None:
+                self._make_policy()
+            if self._policy.outdated():
+                self._policy = None
+                self._make_policy()
+            elif self._policy.update() and self._policy.managed():
+                with self._manager_lock:
+                    self._call_manager_config_changed()
 
     def _call_manager(self, forget, name, *args, **kwargs):
         if self.policy.managed() and self._manager is not None:
-- 
2.43.0


From a5b4777e4d0180e2b224fd8d5717f755258ecc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 08/33] fix: never remove a lock file that another creator may
 hold

---
 src/earthkit/regrid/utils/caching.py | 57 +++++++++++++++++++---------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 7b2b26b..126e8ed 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -20,6 +20,7 @@ import threading
 import time
 from abc import ABCMeta
 from abc import abstractmethod
+from contextlib import contextmanager
 from copy import deepcopy
 from random import randrange
 
@@ -88,6 +89,43 @@ def default_serialiser(o):
     return json.JSONEncoder.default(o)
 
 
+@contextmanager
+def creation_lock(path, wait=True):
+    """Hold the lock under which the cache file ``path`` is created.
+
+    Yields False when ``wait`` is False and the lock is held by somebody else, i.e. the
+    file is being created right now by this or another process.
+    """
+    from filelock import FileLock
+    from filelock import Timeout
+
+    lock = path + ".lock"
+    file_lock = FileLock(lock, timeout=-1 if wait else 0)
+    try:
+        file_lock.acquire()
+    except Timeout:
+        yield False
+        return
+
+    try:
+        yield True
+    finally:
+        # Unlink before releasing, otherwise another creator could already hold this very file
+        try:
+            os.unlink(lock)
+        except OSError:
+            pass
+        file_lock.release()
+
+
+def created_path(path):
+    """Return the cache file on whose behalf ``path`` exists."""
+    for extension in (".lock", ".tmp.download", ".tmp"):
+        if path.endswith(extension):
+            return path[: -len(extension)]
+    return path
+
+
 class Future:
     def __init__(self, func, args, kwargs):
         self.func = func
@@ -1021,10 +1059,7 @@ def cache_file(
                 record = CACHE._register_cache_file(path, owner, args)
 
         if not os.path.exists(path):
-            from filelock import FileLock
-
-            lock = path + ".lock"
-            with FileLock(lock):
+            with creation_lock(path):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
                     owner_data = create(path + ".tmp", args)
                     os.rename(path + ".tmp", path)
@@ -1032,11 +1067,6 @@ def cache_file(
                     CACHE._update_entry(path, owner_data)
                     CACHE.check_size()
 
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
-
     else:
         # path can be a file or a directory. We have to make the name unique.
         m = hashlib.sha256()
@@ -1053,17 +1083,10 @@ def cache_file(
         )
 
         if not os.path.exists(path):
-            from filelock import FileLock
-
-            lock = path + ".lock"
-            with FileLock(lock):
+            with creation_lock(path):
                 if not os.path.exists(path):  # Check again, another thread/process may have created the file
                     owner_data = create(path + ".tmp", args)
                     os.rename(path + ".tmp", path)
-            try:
-                os.unlink(lock)
-            except OSError:
-                pass
 
     return path
 
-- 
2.43.0


From 48f0b01a9a725f415e48d43ba408c79df70b5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 09/33] fix: never delete the files of a creation in progress

---
 src/earthkit/regrid/utils/caching.py | 42 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 126e8ed..141c156 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -347,6 +347,14 @@ class CacheManager(threading.Thread):
                 except OSError:
                     pass
 
+                # A creation can take longer than that
+                with creation_lock(created_path(full), wait=False) as locked:
+                    if not locked:
+                        continue
+
+                if not os.path.exists(full):
+                    continue
+
                 if parent is None:
                     LOG.warning(f"earthkit-regrid cache: orphan found: {full}")
                 else:
@@ -365,7 +373,12 @@ class CacheManager(threading.Thread):
 
         try:
             if os.path.isdir(path) and not os.path.islink(path):
-                shutil.rmtree(path)
+                # A partially deleted directory must never be found under its cache name
+                trash = path + ".tmp"
+                if os.path.exists(trash):
+                    shutil.rmtree(trash)
+                os.rename(path, trash)
+                shutil.rmtree(trash)
             else:
                 os.unlink(path)
         except Exception as e:
@@ -421,18 +434,25 @@ class CacheManager(threading.Thread):
             for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)):
                 total += self._delete_entry(child)
 
-        if not os.path.exists(path):
-            LOG.warning(f"cache file lost: {path}")
-            with self.connection as db:
-                db.execute("DELETE FROM cache WHERE path=?", (path,))
-            return total
+        with creation_lock(created_path(path), wait=False) as locked:
+            if not locked:
+                LOG.debug(f"cache file in use by its creator: {path}")
+                return total
 
-        # LOG.warning(f"earthkit-regrid cache: deleting {path} ({humanize.bytes(size)})")
-        # LOG.warning(f"earthkit-regrid cache: {owner} {args}")
-        self._delete_file(path)
+            if not os.path.exists(path):
+                LOG.warning(f"cache file lost: {path}")
+                with self.connection as db:
+                    db.execute("DELETE FROM cache WHERE path=?", (path,))
+                return total
 
-        with self.connection as db:
-            db.execute("DELETE FROM cache WHERE path=?", (path,))
+            # LOG.warning(f"earthkit-regrid cache: deleting {path} ({humanize.bytes(size)})")
+            # LOG.warning(f"earthkit-regrid cache: {owner} {args}")
+            self._delete_file(path)
+            if os.path.exists(path):
+                return total
+
+            with self.connection as db:
+                db.execute("DELETE FROM cache WHERE path=?", (path,))
 
         return total + size
 
-- 
2.43.0


From efe75aba7cf786c9c4482ad920d5f38e33b0d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 10/33] fix: purge must remove every entry, eviction must spare
 the newest one

---
 src/earthkit/regrid/utils/caching.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 141c156..be765d0 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -232,9 +232,9 @@ class CacheManager(threading.Thread):
         with self.connection as db:
             latest = db.execute("SELECT MIN(creation_date) FROM cache WHERE size IS NULL").fetchone()[0]
             if latest is None:
-                latest = db.execute("SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL").fetchone()[
-                    0
-                ]
+                latest = db.execute(
+                    "SELECT MAX(creation_date) FROM cache WHERE size IS NOT NULL AND owner<>'orphans'"
+                ).fetchone()[0]
             if latest is None:
                 latest = datetime.datetime.now()
             return latest
@@ -242,11 +242,10 @@ class CacheManager(threading.Thread):
     def _purge_cache(self, matcher=None):
         if matcher is None:
             self._housekeeping(clean=True)
-            # _update_cache(clean=True)
-            self._decache(self._cache_size(), purge=True)
-            return
+            dump = self._dump_cache_database()
+        else:
+            dump = self._dump_cache_database(matcher)
 
-        dump = self._dump_cache_database(matcher)
         for entry in dump:
             self._delete_entry(entry)
 
@@ -456,7 +455,7 @@ class CacheManager(threading.Thread):
 
         return total + size
 
-    def _decache(self, bytes, purge=False):
+    def _decache(self, bytes):
         # _find_orphans()
         # _update_cache(clean=True)
 
@@ -468,13 +467,16 @@ class CacheManager(threading.Thread):
         total = 0
 
         with self.connection as db:
-            latest = datetime.datetime.now() if purge else self._latest_date()
+            latest = self._latest_date()
 
-            for stmt in (
-                "SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans' AND creation_date < ?",
-                "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
+            for stmt, args in (
+                ("SELECT * FROM cache WHERE size IS NOT NULL AND owner='orphans'", ()),
+                (
+                    "SELECT * FROM cache WHERE size IS NOT NULL AND creation_date < ? ORDER BY last_access ASC",
+                    (latest,),
+                ),
             ):
-                for entry in db.execute(stmt, (latest,)):
+                for entry in db.execute(stmt, args).fetchall():
                     total += self._delete_entry(entry)
                     if total >= bytes:
                         LOG.warning(
-- 
2.43.0


From 0d026d75e83d21f855d95753b999db6c4b906818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 11/33] fix: leftovers of failed creations must not disable the
 cache limits and reports

---
 src/earthkit/regrid/utils/caching.py | 123 ++++++++++++++++++---------
 1 file changed, 81 insertions(+), 42 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index be765d0..e756369 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -250,6 +250,7 @@ class CacheManager(threading.Thread):
             self._delete_entry(entry)
 
     def _cache_entries(self):
+        self._update_cache(clean=True)
         result = []
         with self.connection as db:
             for n in db.execute("SELECT * FROM cache").fetchall():
@@ -263,58 +264,86 @@ class CacheManager(threading.Thread):
                     result.append(n)
         return result
 
-    def _update_entry(self, path, owner_data=None):
-        self._ensure_in_cache(path)
-
+    @staticmethod
+    def _measure(path):
         if os.path.isdir(path):
-            kind = "directory"
             size = 0
             for root, _, files in os.walk(path):
                 for f in files:
                     size += os.path.getsize(os.path.join(root, f))
-        else:
-            kind = "file"
-            size = os.path.getsize(path)
+            return size, "directory"
+        return os.path.getsize(path), "file"
 
+    def _invalidate_entry(self, path):
+        """Forget what is recorded about the content of a file that is about to be replaced.
+
+        Should the process die before :py:meth:`_update_entry` the size is determined again
+        by :py:meth:`_update_cache`.
+        """
         with self.connection as db:
+            db.execute("UPDATE cache SET size=NULL, owner_data=NULL WHERE path=?", (path,))
+
+    def _update_entry(self, path, owner, args, owner_data=None):
+        self._ensure_in_cache(path)
+
+        size, kind = self._measure(path)
+
+        with self.connection as db:
+            now = datetime.datetime.now()
+            # The record may have been removed since the file was registered
             db.execute(
-                "UPDATE cache SET size=?, type=?, owner_data=? WHERE path=?",
+                """
+                INSERT INTO cache(
+                                path,
+                                owner,
+                                args,
+                                creation_date,
+                                last_access,
+                                accesses,
+                                size,
+                                type,
+                                owner_data)
+                VALUES(?,?,?,?,?,?,?,?,?)
+                ON CONFLICT(path) DO UPDATE
+                SET creation_date = excluded.creation_date,
+                    owner         = excluded.owner,
+                    args          = excluded.args,
+                    size          = excluded.size,
+                    type          = excluded.type,
+                    owner_data    = excluded.owner_data""",
                 (
+                    path,
+                    owner,
+                    json.dumps(args, default=default_serialiser),
+                    now,
+                    now,
+                    1,
                     size,
                     kind,
                     json.dumps(owner_data, default=default_serialiser),
-                    path,
                 ),
             )
 
     def _update_cache(self, clean=False):
-        """Update cache size and size of each file in the database ."""
+        """Update the size of each file in the database, and forget the files which are gone."""
         with self.connection as db:
-            update = []
-            commit = False
-            for n in db.execute("SELECT path FROM cache WHERE size IS NULL"):
-                try:
-                    path = n[0]
-                    if os.path.isdir(path):
-                        kind = "directory"
-                        size = 0
-                        for root, _, files in os.walk(path):
-                            for f in files:
-                                size += os.path.getsize(os.path.join(root, f))
-                    else:
-                        kind = "file"
-                        size = os.path.getsize(path)
-                    update.append((size, kind, path))
-                except Exception:
-                    if clean:
-                        db.execute("DELETE from cache WHERE path=?", (path,))
-                        commit = True
-
-            if update:
-                db.executemany("UPDATE cache SET size=?, type=? WHERE path=?", update)
+            for path, size in db.execute("SELECT path, size FROM cache").fetchall():
+                if size is not None and os.path.exists(path):
+                    continue
 
-            if update or commit:
-                db.commit()
+                with creation_lock(path, wait=False) as locked:
+                    if not locked:  # Being created
+                        continue
+                    try:
+                        size, kind = self._measure(path)
+                    except FileNotFoundError:
+                        if clean:
+                            db.execute("DELETE from cache WHERE path=?", (path,))
+                    except OSError:
+                        LOG.exception("Cannot determine the size of %s", path)
+                    else:
+                        db.execute("UPDATE cache SET size=?, type=? WHERE path=?", (size, kind, path))
+                    db.commit()
 
     def _housekeeping(self, clean=False):
         top = self._policy.directory()
@@ -541,6 +570,7 @@ class CacheManager(threading.Thread):
 
     def _cache_size(self):
         LOG.debug("cache_size")
+        self._update_cache(clean=True)
         with self.connection as db:
             size = db.execute("SELECT SUM(size) FROM cache").fetchone()[0]
             if size is None:
@@ -552,6 +582,8 @@ class CacheManager(threading.Thread):
 
     def _check_cache_size(self):
         if self._policy.managed():
+            self._update_cache(clean=True)
+
             # Check absolute limit
             maximum = self._policy.maximum_cache_size()
             if maximum is not None:
@@ -600,9 +632,10 @@ class CacheManager(threading.Thread):
         return "".join(html)
 
     def _dump_cache_database(self, matcher=lambda x: True):
+        self._update_cache(clean=True)
         result = []
         with self.connection as db:
-            for d in db.execute("SELECT * FROM cache"):
+            for d in db.execute("SELECT * FROM cache WHERE size IS NOT NULL"):
                 n = dict(d)
                 for k in ("args", "owner_data"):
                     if n[k] is not None:
@@ -905,6 +938,9 @@ class Cache:
     def _register_cache_file(self, *args, **kwargs):
         return self._call_manager(False, "register_cache_file", *args, **kwargs)
 
+    def _invalidate_entry(self, *args, **kwargs):
+        return self._call_manager(False, "invalidate_entry", *args, **kwargs)
+
     def _update_entry(self, *args, **kwargs):
         return self._call_manager(False, "update_entry", *args, **kwargs)
 
@@ -1081,13 +1117,16 @@ def cache_file(
                 record = CACHE._register_cache_file(path, owner, args)
 
         if not os.path.exists(path):
-            with creation_lock(path):
-                if not os.path.exists(path):  # Check again, another thread/process may have created the file
-                    owner_data = create(path + ".tmp", args)
-                    os.rename(path + ".tmp", path)
-                    LOG.info(f"cache file created: {path=}")
-                    CACHE._update_entry(path, owner_data)
-                    CACHE.check_size()
+            try:
+                with creation_lock(path):
+                    if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                        owner_data = create(path + ".tmp", args)
+                        CACHE._invalidate_entry(path)
+                        os.rename(path + ".tmp", path)
+                        LOG.info(f"cache file created: {path=}")
+                        CACHE._update_entry(path, owner, args, owner_data)
+            finally:
+                CACHE.check_size()
 
     else:
         # path can be a file or a directory. We have to make the name unique.
-- 
2.43.0


From 4f0ad126ee5799a8f7a11e94d6556c520749eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 12/33] fix: a forced refresh must keep the cached file until
 its replacement is complete

---
 src/earthkit/regrid/utils/caching.py | 46 ++++++++++++++++++----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index e756369..0a2e414 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -120,12 +120,32 @@ def creation_lock(path, wait=True):
 
 def created_path(path):
     """Return the cache file on whose behalf ``path`` exists."""
-    for extension in (".lock", ".tmp.download", ".tmp"):
+    for extension in (".lock", ".tmp.download", ".tmp", ".deleted"):
         if path.endswith(extension):
             return path[: -len(extension)]
     return path
 
 
+def remove_path(path):
+    """Remove a file or a directory, which is never seen partially deleted."""
+    if os.path.isdir(path) and not os.path.islink(path):
+        trash = path + ".deleted"
+        if os.path.exists(trash):
+            shutil.rmtree(trash)
+        os.rename(path, trash)
+        shutil.rmtree(trash)
+    else:
+        os.unlink(path)
+
+
+def replace_file(source, target):
+    """Rename a file or a directory, replacing the target if it exists."""
+    if os.path.isdir(source) or os.path.isdir(target):
+        if os.path.exists(target):
+            remove_path(target)
+    os.replace(source, target)
+
+
 class Future:
     def __init__(self, func, args, kwargs):
         self.func = func
@@ -400,15 +420,7 @@ class CacheManager(threading.Thread):
         self._ensure_in_cache(path)
 
         try:
-            if os.path.isdir(path) and not os.path.islink(path):
-                # A partially deleted directory must never be found under its cache name
-                trash = path + ".tmp"
-                if os.path.exists(trash):
-                    shutil.rmtree(trash)
-                os.rename(path, trash)
-                shutil.rmtree(trash)
-            else:
-                os.unlink(path)
+            remove_path(path)
         except Exception as e:
             print(e)
             LOG.exception("Deleting %s", path)
@@ -1112,17 +1124,19 @@ def cache_file(
                 force = force(args, path, owner_data)
 
             if force:
-                LOG.info(f"decache file by force: {path=}")
-                CACHE._decache_file(path)
-                record = CACHE._register_cache_file(path, owner, args)
+                LOG.info(f"replace file by force: {path=}")
+        else:
+            force = False
 
-        if not os.path.exists(path):
+        if force or not os.path.exists(path):
             try:
                 with creation_lock(path):
-                    if not os.path.exists(path):  # Check again, another thread/process may have created the file
+                    # Check again, another thread/process may have created the file
+                    if force or not os.path.exists(path):
+                        # When forced, the file stays available until its replacement is complete
                         owner_data = create(path + ".tmp", args)
                         CACHE._invalidate_entry(path)
-                        os.rename(path + ".tmp", path)
+                        replace_file(path + ".tmp", path)
                         LOG.info(f"cache file created: {path=}")
                         CACHE._update_entry(path, owner, args, owner_data)
             finally:
-- 
2.43.0


From a74e2b6759fe24a7d81f45d69db415857134bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 13/33] fix: a replaced cache policy must not be used any more,
 nor its directory created again

---
 src/earthkit/regrid/utils/caching.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 0a2e414..cc6c0a7 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -229,6 +229,9 @@ class CacheManager(threading.Thread):
         )
         return connection
 
+    def managed(self):
+        return self._policy.managed()
+
     def enqueue(self, func, *args, **kwargs):
         with self._condition:
             s = Future(func, args, kwargs)
@@ -889,7 +892,7 @@ class Cache:
         if self._policy is None:
             self._policy = CachePolicy.from_config()
             LOG.debug(f"Cache: created cache policy={self._policy}")
-            if self._policy.managed():
+            if self._policy.managed() or self._manager is not None:
                 with self._manager_lock:
                     if self._manager is None:
                         self._manager = CacheManager()
@@ -902,8 +905,10 @@ class Cache:
             if self._policy is None:
                 self._make_policy()
             if self._policy.outdated():
+                outdated = self._policy  # Its directory must exist until the manager has left it
                 self._policy = None
                 self._make_policy()
+                del outdated
             elif self._policy.update() and self._policy.managed():
                 with self._manager_lock:
                     self._call_manager_config_changed()
@@ -911,6 +916,8 @@ class Cache:
     def _call_manager(self, forget, name, *args, **kwargs):
         if self.policy.managed() and self._manager is not None:
             with self._manager_lock:
+                if not self._manager.managed():  # The policy has just been changed
+                    return None
                 name = "_" + name
                 func = getattr(self._manager, name)
                 if forget:
@@ -921,7 +928,8 @@ class Cache:
                     return s.result()
 
     def _call_manager_config_changed(self):
-        s = self._manager.enqueue(self._manager._config_changed, deepcopy(self._policy))
+        policy = deepcopy(self._policy) if self._policy.managed() else EmptyCachePolicy()
+        s = self._manager.enqueue(self._manager._config_changed, policy)
         return s.result()
 
     def _dump_database(self, *args, **kwargs):
@@ -1091,7 +1099,8 @@ def cache_file(
     serving as a temporary space.
 
     """
-    managed = CACHE.policy.managed() and CACHE.directory() is not None
+    policy = CACHE.policy  # A temporary directory lives at least as long as this reference
+    managed = policy.managed() and policy.directory() is not None
 
     if managed:
         m = hashlib.sha256()
@@ -1103,11 +1112,11 @@ def cache_file(
 
         if replace is not None:
             # Don't replace files that are not in the cache
-            if not CACHE.policy.file_in_cache_directory(replace):
+            if not policy.file_in_cache_directory(replace):
                 replace = None
 
         path = os.path.join(
-            CACHE.directory(),
+            policy.directory(),
             "{}-{}{}".format(
                 owner.lower(),
                 m.hexdigest(),
@@ -1149,7 +1158,7 @@ def cache_file(
         m.update(str(randrange(10000000)).encode("utf-8"))
 
         path = os.path.join(
-            CACHE.directory(),
+            policy.directory(),
             "{}-{}{}".format(
                 owner.lower(),
                 m.hexdigest(),
-- 
2.43.0


From efaec395d5a053db1f234b3e741b80bcc7c5772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 14/33] fix: orphans must count when making room in the cache

---
 src/earthkit/regrid/utils/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index cc6c0a7..8ace49b 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -605,6 +605,7 @@ class CacheManager(threading.Thread):
                 size = self._cache_size()
                 if size > maximum:
                     self._housekeeping()
+                    size = self._cache_size()  # Including the orphans
                     self._decache(size - maximum)
 
             # Check relative limit
-- 
2.43.0


From 4023afee4d275968e6b08a9336a44a1d1edeeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 15/33] fix: a matcher that raises must not keep the cache
 database locked

---
 src/earthkit/regrid/utils/caching.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 8ace49b..f5cdf57 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -474,7 +474,7 @@ class CacheManager(threading.Thread):
 
         # First, delete child files, e.g. unzipped data
         with self.connection as db:
-            for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)):
+            for child in db.execute("SELECT * FROM cache WHERE parent = ?", (path,)).fetchall():
                 total += self._delete_entry(child)
 
         with creation_lock(created_path(path), wait=False) as locked:
@@ -651,7 +651,8 @@ class CacheManager(threading.Thread):
         self._update_cache(clean=True)
         result = []
         with self.connection as db:
-            for d in db.execute("SELECT * FROM cache WHERE size IS NOT NULL"):
+            # The matcher may raise, which must not leave the query (and its lock) open
+            for d in db.execute("SELECT * FROM cache WHERE size IS NOT NULL").fetchall():
                 n = dict(d)
                 for k in ("args", "owner_data"):
                     if n[k] is not None:
-- 
2.43.0


From 97807c20b4c00c05acd7e7b55ea1ebcc1ccb1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 16/33] fix: a complete partial download must not make all
 later downloads fail

---
 src/earthkit/regrid/utils/download.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 9049f47..04e0726 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -9,6 +9,7 @@
 
 
 import logging
+import os
 
 from multiurl import Downloader
 
@@ -92,6 +93,12 @@ def download_and_cache(
         force = out_of_date
 
     def download(target, _):
+        # A partial file left by an interrupted download is resumed, but not when it is already complete
+        partial = target + ".download"
+        size = downloader.headers().get("content-length") if os.path.exists(partial) else None
+        if size is not None and os.path.getsize(partial) >= int(size):
+            os.unlink(partial)
+
         downloader.download(target)
         return downloader.cache_data()
 
-- 
2.43.0


From 09497bb3e342a24cc8d6a9797b974675f3d28407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 17/33] fix: a file is catalogued before it appears in the
 cache

---
 src/earthkit/regrid/utils/caching.py | 36 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index f5cdf57..11959fc 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -297,22 +297,9 @@ class CacheManager(threading.Thread):
             return size, "directory"
         return os.path.getsize(path), "file"
 
-    def _invalidate_entry(self, path):
-        """Forget what is recorded about the content of a file that is about to be replaced.
-
-        Should the process die before :py:meth:`_update_entry` the size is determined again
-        by :py:meth:`_update_cache`.
-        """
-        with self.connection as db:
-            db.execute("UPDATE cache SET size=NULL, owner_data=NULL WHERE path=?", (path,))
-
-    def _update_entry(self, path, owner, args, owner_data=None):
-        self._ensure_in_cache(path)
-
-        size, kind = self._measure(path)
-
+    def _put_entry(self, path, owner, args, size, kind, owner_data):
+        now = datetime.datetime.now()
         with self.connection as db:
-            now = datetime.datetime.now()
             # The record may have been removed since the file was registered
             db.execute(
                 """
@@ -343,10 +330,25 @@ class CacheManager(threading.Thread):
                     1,
                     size,
                     kind,
-                    json.dumps(owner_data, default=default_serialiser),
+                    owner_data,
                 ),
             )
 
+    def _invalidate_entry(self, path, owner, args):
+        """Forget what is recorded about the content of a file that is about to be replaced.
+
+        Should the process die before :py:meth:`_update_entry` the size is determined again
+        by :py:meth:`_update_cache`.
+        """
+        self._ensure_in_cache(path)
+        self._put_entry(path, owner, args, None, None, None)
+
+    def _update_entry(self, path, owner, args, owner_data=None):
+        self._ensure_in_cache(path)
+        size, kind = self._measure(path)
+        owner_data = json.dumps(owner_data, default=default_serialiser)
+        self._put_entry(path, owner, args, size, kind, owner_data)
+
     def _update_cache(self, clean=False):
         """Update the size of each file in the database, and forget the files which are gone."""
         with self.connection as db:
@@ -1146,7 +1148,7 @@ def cache_file(
                     if force or not os.path.exists(path):
                         # When forced, the file stays available until its replacement is complete
                         owner_data = create(path + ".tmp", args)
-                        CACHE._invalidate_entry(path)
+                        CACHE._invalidate_entry(path, owner, args)
                         replace_file(path + ".tmp", path)
                         LOG.info(f"cache file created: {path=}")
                         CACHE._update_entry(path, owner, args, owner_data)
-- 
2.43.0


From 8b7a045bff637b352ac84018762440d1a72c957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 18/33] fix: the cache manager must not create its temporary
 directory again at exit

---
 src/earthkit/regrid/utils/caching.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 11959fc..08586bd 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -7,6 +7,7 @@
 # nor does it submit to any jurisdiction.
 #
 
+import atexit
 import ctypes
 import datetime
 import hashlib
@@ -182,11 +183,26 @@ class CacheManager(threading.Thread):
         self._queue = []
         self._condition = threading.Condition()
         self._policy = EmptyCachePolicy()
+        self._stopping = False
+
+    def start(self):
+        super().start()
+        # A temporary cache directory is removed at exit, nothing must use it after that
+        atexit.register(self.stop)
+
+    def stop(self):
+        """Complete the pending requests and finish"""
+        with self._condition:
+            self._stopping = True
+            self._condition.notify_all()
+        self.join()
 
     def run(self):
         while True:
             with self._condition:
                 while len(self._queue) == 0:
+                    if self._stopping:
+                        return
                     self._condition.wait()
                 s = self._queue.pop(0)
                 self._condition.notify_all()
-- 
2.43.0


From cf4f586296635e62a4750fc6f78256823c2caa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 19/33] fix: accessors must say whether they are local

The return was missing: a request for weights missing from a local inventory read its index again every time.
---
 src/earthkit/regrid/backends/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index ca21caf..117d5b4 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -105,7 +105,7 @@ class UrlAccessor(MatrixAccessor):
         return self._url
 
     def is_local(self):
-        False
+        return False
 
     def checked_remote(self):
         return self._checked_remote
@@ -279,7 +279,7 @@ class LocalAccessor(MatrixAccessor):
         return self._path
 
     def is_local(self):
-        True
+        return True
 
     def index_path(self):
         return os.path.join(self._path, _INDEX_FILENAME)
-- 
2.43.0


From 04228146cd8edfb59481c4cc99b262863f849cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 20/33] fix: threads asking for a backend for the first time
 must get the same one

Otherwise each checks the remote index on its own, with one of them forgotten.
---
 src/earthkit/regrid/backends/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/backends/__init__.py b/src/earthkit/regrid/backends/__init__.py
index 8675141..db82f48 100644
--- a/src/earthkit/regrid/backends/__init__.py
+++ b/src/earthkit/regrid/backends/__init__.py
@@ -76,10 +76,8 @@ class BackendMaker:
             # TODO: implement a plugin loader
             raise ValueError(f"Unknown backend: {name}")
 
-        backend = klass(*args, **kwargs)
-        self.BACKEND_OBJECTS[key] = backend
-
-        return backend
+        # when several threads get here at the same time they must all use the same object
+        return self.BACKEND_OBJECTS.setdefault(key, klass(*args, **kwargs))
 
     def _builtins(self):
         """Scan for built-in backend classes."""
-- 
2.43.0


From c2653ffb2c0f078a97c34d200deacd5fa1556b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 21/33] fix: a failed check of the remote index does not count

A check was marked as done before its index was downloaded and loaded, never with cache policy off,
and was taken as done by other threads while their index was still the old one.
---
 src/earthkit/regrid/backends/db.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index 117d5b4..a8381db 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -10,6 +10,7 @@
 import json
 import logging
 import os
+import threading
 from abc import ABCMeta
 from abc import abstractmethod
 
@@ -116,6 +117,7 @@ class UrlAccessor(MatrixAccessor):
 
     def reload(self, force=False):
         self._index_path = self._get_index(check_remote=True, force=force)
+        self._checked_remote = True  # A check that fails does not count
 
     def index_path(self):
         if self._index_path is None or not os.path.exists(self._index_path):
@@ -139,7 +141,6 @@ class UrlAccessor(MatrixAccessor):
                 return True
 
             remote_sha = self._remote_sha()
-            self._checked_remote = True
 
             if local_sha != remote_sha:
                 LOG.info(
@@ -162,7 +163,6 @@ class UrlAccessor(MatrixAccessor):
             """Decide if the index file should be downloaded and cached again."""
             LOG.info("UrlAccessor: forcefully download remote checksum and new index file")
             self._remote_sha()
-            self._checked_remote = True
             return True
 
         def _create(target, args):
@@ -431,12 +431,17 @@ class MatrixDb:
     def __init__(self, accessor):
         self._index = None
         self._accessor = accessor
+        self._lock = threading.RLock()
 
     @property
     def index(self):
-        if self._index is None:
-            self._load_index()
-        return self._index
+        index = self._index
+        if index is None:
+            with self._lock:
+                if self._index is None:
+                    self._load_index()
+                index = self._index
+        return index
 
     def _load_index(self):
         # publish the index only when it is complete: loading may fail, and other threads
@@ -492,11 +497,14 @@ class MatrixDb:
     def find_entry(self, gridspec_in, gridspec_out, method):
         method = self._method_alias(method)
         entry = self.index.find(gridspec_in, gridspec_out, method)
-        if entry is None and not self._accessor.is_local() and not self._accessor.checked_remote():
-            LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
-            LOG.info("Try to fetch remote index file to check for updates")
-            self._accessor.reload()
-            self._load_index()
+        if entry is None and not self._accessor.is_local():
+            with self._lock:
+                if not self._accessor.checked_remote():
+                    LOG.info(f"Matrix not found in DB for {gridspec_in=} {gridspec_out=} {method=}")
+                    LOG.info("Try to fetch remote index file to check for updates")
+                    self._accessor.reload()
+                    self._index = None  # When loading it fails the next request loads it again
+            # Another thread may have done the check since the index was searched
             entry = self.index.find(gridspec_in, gridspec_out, method)
 
         return entry
-- 
2.43.0


From b1f4eb84f02d4dc920c6b279659f99369494a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 22/33] fix: leftovers of downloads must not get into other
 versions, nor bad downloads into the cache

Documents that can change are not resumed, resuming that gives a wrong file starts again from the
beginning, and what was downloaded is validated: a connection closed early is not always noticed.
---
 src/earthkit/regrid/backends/db.py    | 29 ++++++++++++++++++++++++
 src/earthkit/regrid/utils/download.py | 32 +++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/earthkit/regrid/backends/db.py b/src/earthkit/regrid/backends/db.py
index a8381db..6035328 100644
--- a/src/earthkit/regrid/backends/db.py
+++ b/src/earthkit/regrid/backends/db.py
@@ -67,6 +67,30 @@ def make_sha(data):
     return m.hexdigest()
 
 
+def validate_sha(path):
+    """Raise an exception if a downloaded checksum is incomplete."""
+    with open(path, "r") as f:
+        if len(f.read().strip()) < 64:
+            raise ValueError(f"Invalid checksum file={path}")
+
+
+def validate_gzip_json(path):
+    """Raise an exception if a downloaded gzipped index is incomplete."""
+    import gzip
+
+    with gzip.open(path, "rb") as f:
+        json.loads(f.read())
+
+
+def validate_npz(path):
+    """Raise an exception if a downloaded matrix is incomplete."""
+    import zipfile
+
+    with zipfile.ZipFile(path) as f:
+        if f.testzip() is not None:
+            raise ValueError(f"Invalid matrix file={path}")
+
+
 class MatrixAccessor(metaclass=ABCMeta):
     @abstractmethod
     def path(self):
@@ -219,6 +243,8 @@ class UrlAccessor(MatrixAccessor):
                 progress_bar=no_progress_bar,
                 maximum_retries=0,
                 retry_after=10,
+                resume=False,
+                validate=validate_sha,
             )
         except Exception:
             LOG.error(f"UrlAccessor: could not download index checksum file={url}")
@@ -243,6 +269,8 @@ class UrlAccessor(MatrixAccessor):
                 progress_bar=no_progress_bar,
                 maximum_retries=0,
                 retry_after=10,
+                resume=False,
+                validate=validate_gzip_json,
             )
         except Exception:
             LOG.error(f"Could not download index file={url}")
@@ -263,6 +291,7 @@ class UrlAccessor(MatrixAccessor):
                 update_if_out_of_date=False,
                 maximum_retries=5,
                 retry_after=10,
+                validate=validate_npz,
             )
         except Exception:
             LOG.error(f"Could not download matrix file={url}")
diff --git a/src/earthkit/regrid/utils/download.py b/src/earthkit/regrid/utils/download.py
index 04e0726..bff1011 100644
--- a/src/earthkit/regrid/utils/download.py
+++ b/src/earthkit/regrid/utils/download.py
@@ -35,6 +35,8 @@ def download_and_cache(
     progress_bar=progress_bar,
     maximum_retries=0,
     retry_after=10,
+    resume=True,  # False when the contents of the URL may change
+    validate=None,  # Callable raising an exception when the downloaded file is not what is expected
     **kwargs,
 ):
     # TODO: re-enable this feature
@@ -92,14 +94,36 @@ def download_and_cache(
     if force is None:
         force = out_of_date
 
+    def remove(path):
+        if os.path.exists(path):
+            os.unlink(path)
+
+    def fetch(target):
+        remove(target)  # Left by an attempt that was interrupted or failed
+        downloader.download(target)
+        if validate is not None:
+            validate(target)
+
     def download(target, _):
         # A partial file left by an interrupted download is resumed, but not when it is already complete
+        # or when the length of the result could not be checked
         partial = target + ".download"
-        size = downloader.headers().get("content-length") if os.path.exists(partial) else None
-        if size is not None and os.path.getsize(partial) >= int(size):
-            os.unlink(partial)
+        if os.path.exists(partial):
+            size = downloader.headers().get("content-length") if resume else None
+            if size is None or os.path.getsize(partial) >= int(size):
+                os.unlink(partial)
+
+        resumed = os.path.exists(partial)
+        try:
+            fetch(target)
+        except Exception as e:
+            status = getattr(getattr(e, "response", None), "status_code", None)
+            if not resumed or (isinstance(e, OSError) and status != 416):
+                raise
+            LOG.warning(f"Could not resume the download of {url}, starting from the beginning")
+            remove(partial)
+            fetch(target)
 
-        downloader.download(target)
         return downloader.cache_data()
 
     path = cache_file(
-- 
2.43.0


From 70cb714ab44a36c45aa73fae38701eee512c8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 23/33] fix: an interrupted or concurrent save must not leave a
 partial configuration

---
 src/earthkit/regrid/utils/config.py | 77 +++++++++++++++++++----------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 71823f0..3658c2b 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -10,6 +10,7 @@
 import functools
 import logging
 import os
+import shutil
 import warnings
 from abc import ABCMeta
 from abc import abstractmethod
@@ -250,33 +251,54 @@ def forward(func):
     return wrapped
 
 
-def save_config(path, config):
+def save_config(path, config, overwrite=True):
+    """Save the config into a file.
+
+    Readers of the file find either its previous content or all of the new one.
+    """
     LOG.debug("Saving config")
     from filelock import FileLock
 
-    lock = path + ".lock"
-    with FileLock(lock):
-        with open(path, "w") as f:
-            print("# This file is automatically generated", file=f)
-            print(file=f)
+    path = os.path.realpath(path)
 
-            for k, v in sorted(config.items()):
-                h = CONFIG_AND_HELP.get(k)
-                if h:
-                    print(file=f)
-                    print("#", "-" * 76, file=f)
-                    h.save(k, v, f)
+    # the lock file must stay: others may be waiting for it
+    with FileLock(path + ".lock"):
+        exists = os.path.exists(path)
+        if exists and not overwrite:
+            return
 
+        tmp = path + ".tmp"
+        try:
+            with open(tmp, "w") as f:
+                _write_config(f, config)
+            if exists:
+                shutil.copymode(path, tmp)
+            os.replace(tmp, path)
+        except BaseException:
+            try:
+                os.unlink(tmp)
+            except OSError:
+                pass
+            raise
+
+
+def _write_config(f, config):
+    print("# This file is automatically generated", file=f)
+    print(file=f)
+
+    for k, v in sorted(config.items()):
+        h = CONFIG_AND_HELP.get(k)
+        if h:
             print(file=f)
             print("#", "-" * 76, file=f)
-            print("# Version of earthkit-regrid", file=f)
-            print(file=f)
-            yaml.dump({"version": VERSION}, f, default_flow_style=False)
-            print(file=f)
-    try:
-        os.unlink(lock)
-    except OSError:
-        pass
+            h.save(k, v, f)
+
+    print(file=f)
+    print("#", "-" * 76, file=f)
+    print("# Version of earthkit-regrid", file=f)
+    print(file=f)
+    yaml.dump({"version": VERSION}, f, default_flow_style=False)
+    print(file=f)
 
 
 def env_var_name(name):
@@ -438,7 +460,10 @@ class Config:
                 reset to their default values. Defaults to None.
         """
         if name is None:
-            self._config = dict(**DEFAULTS)
+            # in place, the config may be just being saved
+            self._config.update(DEFAULTS)
+            for k in set(self._config) - set(DEFAULTS):
+                self._config.pop(k, None)
         else:
             if name not in DEFAULTS:
                 raise KeyError("No config option name '%s'" % (name,))
@@ -613,7 +638,7 @@ def _migrate_old_config(config_file):
                     return False
 
                 config.update(s)
-                save_config(config_file, config)
+                save_config(config_file, config, overwrite=False)
                 return True
         except Exception:
             LOG.error(
@@ -640,8 +665,10 @@ def _init_config_file():
         config_dir = os.path.dirname(config_file)
         if not os.path.exists(config_dir):
             ori_mask = os.umask(0o077)
-            os.makedirs(config_dir, 0o700)
-            os.umask(ori_mask)
+            try:
+                os.makedirs(config_dir, 0o700, exist_ok=True)
+            finally:
+                os.umask(ori_mask)
     except Exception:
         LOG.error(
             f"Cannot create earthkit-regrid config directory={config_dir}",
@@ -652,7 +679,7 @@ def _init_config_file():
         try:
             if not os.path.exists(config_file):
                 if not _migrate_old_config(config_file):
-                    save_config(config_file, DEFAULTS)
+                    save_config(config_file, DEFAULTS, overwrite=False)
         except Exception:
             LOG.error(
                 f"Cannot save settings to earthkit-regrid config file={config_file}",
-- 
2.43.0


From adb2b247854da024973d61d472721e85f7a89516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 24/33] fix: temporary configurations must be undone and
 rejected values change nothing

---
 src/earthkit/regrid/utils/config.py | 65 +++++++++++++++++------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/earthkit/regrid/utils/config.py b/src/earthkit/regrid/utils/config.py
index 3658c2b..e4fa34c 100644
--- a/src/earthkit/regrid/utils/config.py
+++ b/src/earthkit/regrid/utils/config.py
@@ -233,20 +233,23 @@ for k, v in CONFIG_AND_HELP.items():
 def new_config(s):
     """Context manager to create new config"""
     CONFIG._stack.append(s)
-    CONFIG._notify()
     try:
+        CONFIG._notify()
         yield None
     finally:
-        CONFIG._stack.pop()
+        # not necessarily the last one: scopes can overlap
+        CONFIG._stack.remove(s)
         CONFIG._notify()
 
 
 def forward(func):
     @functools.wraps(func)
     def wrapped(self, *args, **kwargs):
-        if self._stack:
-            return func(self._stack[-1], *args, **kwargs)
-        return func(self, *args, **kwargs)
+        try:
+            current = self._stack[-1]
+        except IndexError:
+            current = self
+        return func(current, *args, **kwargs)
 
     return wrapped
 
@@ -366,21 +369,26 @@ class Config:
             value: [type]
                 [description]
         """
+        # nothing is set unless all the values are valid
+        values = {}
         if len(args) == 0:
             assert len(kwargs) > 0
             for k, v in kwargs.items():
-                self._set(k.replace("_", "-"), v)
-            self._changed()
+                k = k.replace("_", "-")
+                values[k] = self._check(k, v)
         else:
             if len(args) == 1 and isinstance(args[0], dict):
                 for k, v in args[0].items():
-                    self._set(k, v)
+                    values[k] = self._check(k, v)
             else:
-                self._set(*args, **kwargs)
+                values[args[0]] = self._check(*args, **kwargs)
+
+        self._config.update(values)
+        LOG.debug(f"set {values} stack_size={len(self._stack)}")
         self._changed()
 
-    def _set(self, name: str, *args, **kwargs):
-        """[summary]
+    def _check(self, name: str, *args, **kwargs):
+        """Return the value to be stored for a config option
 
         Parameters
         ----------
@@ -444,9 +452,7 @@ class Config:
                 raise TypeError("Config option '%s' must be of type '%s'" % (name, klass))
 
         config_item.validate(name, value)
-        self._config[name] = value
-
-        LOG.debug(f"_set {name}={value} stack_size={len(self._stack)}")
+        return value
 
     @forward
     def reset(self, name: str = None):
@@ -468,17 +474,15 @@ class Config:
             if name not in DEFAULTS:
                 raise KeyError("No config option name '%s'" % (name,))
 
-            self._config.pop(name, None)
-            if name in DEFAULTS:
-                if self._has_env(name):
-                    msg = (
-                        f"Config option '{name}' is also set by environment variable '{env_var_name(name)}'."
-                        "The environment variable takes precedence and its value is returned when calling get()."
-                    )
-                    if self._auto_save_config:
-                        msg += " Still, the value reset here will be saved to the config file."
-                    warnings.warn(msg)
-                self._config[name] = DEFAULTS[name]
+            if self._has_env(name):
+                msg = (
+                    f"Config option '{name}' is also set by environment variable '{env_var_name(name)}'."
+                    "The environment variable takes precedence and its value is returned when calling get()."
+                )
+                if self._auto_save_config:
+                    msg += " Still, the value reset here will be saved to the config file."
+                warnings.warn(msg)
+            self._config[name] = DEFAULTS[name]
         self._changed()
 
     @forward
@@ -529,8 +533,15 @@ class Config:
 
     def _notify(self):
         if self._notify_enabled:
-            for cb in self._callbacks:
-                cb()
+            # a failing observer must not stop the others from following the config
+            error = None
+            for cb in list(self._callbacks):
+                try:
+                    cb()
+                except Exception as e:
+                    error = error or e
+            if error is not None:
+                raise error
 
     def on_change(self, callback: Callable[[], None]):
         self._callbacks.append(callback)
-- 
2.43.0


From e412313033be2ce546fde5eb73387f3f18942112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 25/33] fix: no limit of the memory cache, as documented

---
 src/earthkit/regrid/utils/memcache.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/earthkit/regrid/utils/memcache.py b/src/earthkit/regrid/utils/memcache.py
index 3c868ff..a437ed9 100644
--- a/src/earthkit/regrid/utils/memcache.py
+++ b/src/earthkit/regrid/utils/memcache.py
@@ -114,14 +114,13 @@ class LRUPolicy(MemoryCachePolicy):
     name = "lru"
 
     def check(self):
-        if self.cache.max_mem <= 0:
+        # None means no limit
+        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
             raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
-        if self.cache.max_mem is None:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
 
     def reduce(self, target_size):
         # must be called within a lock
-        if not self.cache.items:
+        if not self.cache.items or target_size is None:
             return
 
         while self.cache.curr_mem >= target_size:
@@ -135,21 +134,20 @@ class LRUPolicy(MemoryCachePolicy):
         return True
 
     def has_limit(self):
-        return True
+        return self.cache.max_mem is not None
 
 
 class LargestPolicy(MemoryCachePolicy):
     name = "largest"
 
     def check(self):
-        if self.cache.max_mem <= 0:
+        # None means no limit
+        if self.cache.max_mem is not None and self.cache.max_mem <= 0:
             raise ValueError(f"Cannot use {self.name} policy with max_mem<=0")
-        if self.cache.max_mem is None:
-            raise ValueError(f"Cannot use {self.name} policy with max_mem=None")
 
     def reduce(self, target_size):
         # must be called within a lock
-        if not self.cache.items:
+        if not self.cache.items or target_size is None:
             return
 
         while self.cache.curr_mem >= target_size:
@@ -166,7 +164,7 @@ class LargestPolicy(MemoryCachePolicy):
         return True
 
     def has_limit(self):
-        return True
+        return self.cache.max_mem is not None
 
 
 CACHE_POLICIES = {p.name: p for p in [NoPolicy, UnlimitedPolicy, LRUPolicy, LargestPolicy]}
-- 
2.43.0


From 7b05a679767fb4b1c469f49a4b676e17cb6a8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 26/33] fix: the cache policy must be made from one state of
 the configuration

---
 src/earthkit/regrid/utils/caching.py | 32 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index 08586bd..f4f0f83 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -701,8 +701,12 @@ class CachePolicy(metaclass=ABCMeta):
     OUTDATED_CHECK_KEYS = None
     _name = None
 
-    def __init__(self):
-        self._config = {k: CONFIG.get(k) for k in self.CACHE_KEYS}
+    def __init__(self, config=None):
+        self._config = config if config is not None else self._read_config()
+
+    @classmethod
+    def _read_config(cls):
+        return {k: CONFIG.get(k) for k in cls.CACHE_KEYS}
 
     @property
     def name(self):
@@ -710,10 +714,12 @@ class CachePolicy(metaclass=ABCMeta):
 
     @staticmethod
     def from_config():
-        name = CONFIG.get("cache-policy")
+        # read only once, another thread may be changing it
+        config = CachePolicy._read_config()
+        name = config["cache-policy"]
         p = _cache_policies.get(name, None)
         if p is not None:
-            return p()
+            return p(config)
         else:
             raise NotImplementedError(f"Unknown cache policy={name}")
 
@@ -722,11 +728,11 @@ class CachePolicy(metaclass=ABCMeta):
 
     def update(self):
         changed = False
-        for k in self.CACHE_KEYS:
-            if self._config.get(k) != CONFIG.get(k):
+        for k, v in self._read_config().items():
+            if self._config.get(k) != v:
                 changed = True
             if k not in self.OUTDATED_CHECK_KEYS:
-                self._config[k] = CONFIG.get(k)
+                self._config[k] = v
         return changed
 
     @abstractmethod
@@ -793,8 +799,8 @@ class NoCachePolicy(CachePolicy):
     _name = "off"
     _dir = None
 
-    def __init__(self):
-        super().__init__()
+    def __init__(self, config=None):
+        super().__init__(config)
         self._lock = threading.Lock()
 
     def managed(self):
@@ -828,8 +834,8 @@ class UserCachePolicy(CachePolicy):
     OUTDATED_CHECK_KEYS = ["cache-policy", "user-cache-directory"]
     _name = "user"
 
-    def __init__(self):
-        super().__init__()
+    def __init__(self, config=None):
+        super().__init__(config)
         self._path = self._expand_path(self._config.get("user-cache-directory"))
         if not os.path.exists(self._path):
             os.makedirs(self._path, exist_ok=True)
@@ -867,8 +873,8 @@ class TmpCachePolicy(UserCachePolicy):
     OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-cache-directory-root"]
     _name = "temporary"
 
-    def __init__(self):
-        super().__init__()
+    def __init__(self, config=None):
+        super().__init__(config)
         root_dir = self._expand_path(self._config.get("temporary-cache-directory-root"))
         self._dir = temp_directory(dir=root_dir)
 
-- 
2.43.0


From 9b39e7242c58813292e6f13b9be151dbba92cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 27/33] fix: regridded integer fields of xarray objects were
 truncated

---
 src/earthkit/regrid/data/xarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 08fde0c..03a9f7d 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -287,6 +287,7 @@ class XarrayDataHandler(DataHandler):
         in_dims = ensure_list(in_dims)
         out_dims = ensure_list(out_dims)
 
+        import numpy as np
         import xarray as xr
 
         exclude_dims = set()
@@ -313,6 +314,9 @@ class XarrayDataHandler(DataHandler):
         method = _RegridMethod(in_grid.grid_spec, out_geo.grid_spec, **kwargs)
 
         def _regrid(da):
+            # interpolated values of integer fields are not integers
+            dtype = da.dtype if np.issubdtype(da.dtype, np.inexact) else np.dtype(float)
+
             return xr.apply_ufunc(
                 method,
                 da,
@@ -325,7 +329,7 @@ class XarrayDataHandler(DataHandler):
                     "output_sizes": {dim: out_geo.shape[i] for i, dim in enumerate(out_dims)},
                     "allow_rechunk": True,
                 },
-                output_dtypes=[da.dtype],
+                output_dtypes=[dtype],
             )
 
         if isinstance(values, xr.Dataset):
-- 
2.43.0


From d77f77bfbc2f9bb6a5b8d92532c28362d05520c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 28/33] fix: dask could mix up the variables of a dataset

---
 src/earthkit/regrid/data/xarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/earthkit/regrid/data/xarray.py b/src/earthkit/regrid/data/xarray.py
index 03a9f7d..b49488c 100644
--- a/src/earthkit/regrid/data/xarray.py
+++ b/src/earthkit/regrid/data/xarray.py
@@ -297,6 +297,10 @@ class XarrayDataHandler(DataHandler):
         # regrid can change the specified output gridspec.
         # This is a workaround to get the returned output gridscpec from regrid.
         class _RegridMethod:
+            # Part of the dask task names. With the long default one (the repr of the object) these could exceed
+            # the length where dask cuts them, and tasks of different variables could get the same name.
+            __name__ = "regrid"
+
             def __init__(self, in_grid, out_grid, **kwargs):
                 self.out_grid = out_grid
                 self.method = functools.partial(
-- 
2.43.0


From e76bef79e9dd28ef80f50f0170d0b8666dc32e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 29/33] fix: matrices are added to an inventory as a whole or
 not at all

---
 src/earthkit/regrid/utils/builder.py | 57 +++++++++++++++-------------
 src/earthkit/regrid/utils/mir.py     | 22 ++++++++++-
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/earthkit/regrid/utils/builder.py b/src/earthkit/regrid/utils/builder.py
index 241ce71..d8802b4 100644
--- a/src/earthkit/regrid/utils/builder.py
+++ b/src/earthkit/regrid/utils/builder.py
@@ -11,6 +11,7 @@ import hashlib
 import json
 import os
 
+from filelock import FileLock
 from scipy.sparse import load_npz
 
 from earthkit.regrid.backends.db import VERSION
@@ -18,6 +19,7 @@ from earthkit.regrid.backends.db import MatrixIndex
 
 from .matrix import matrix_memory_size
 from .mir import mir_cached_matrix_to_file
+from .mir import replace_file
 
 
 def regular_ll(entry):
@@ -107,21 +109,10 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
 
     print(f"entry={entry}")
     npz_file = os.path.join(matrix_output_path, f"{name}.npz")
-    mir_cached_matrix_to_file(cache_file, npz_file)
 
     if index_file is None:
         index_file = os.path.join(output_path, "index.json")
 
-    if os.path.exists(index_file):
-        with open(index_file) as f:
-            index = json.load(f)
-            if index.get("version", None) != VERSION:
-                raise ValueError(f"{index_file=} version must be {VERSION}")
-    else:
-        index = {}
-        index["version"] = VERSION
-        index["matrix"] = {}
-
     def convert(x):
         proc = globals()[x["type"]]
         return proc(x)
@@ -132,21 +123,35 @@ def make_matrix(input_path, output_path, index_file=None, global_input=None, glo
     if global_output is not None and "global" not in entry["output"]:
         entry["output"]["global"] = 1 if global_output else 0
 
-    # get matrix size
-    z = load_npz(npz_file)
-    mem_size = matrix_memory_size(z)
-    z = None
-
-    index["matrix"][key] = dict(
-        input=convert(entry["input"]),
-        output=convert(entry["output"]),
-        interpolation=entry["interpolation"],
-        nnz=entry["matrix"]["nnz"],
-        memory=mem_size,
-    )
-
-    with open(index_file, "w") as f:
-        json.dump(index, f, indent=4)
+    # other matrices may be added at the same time
+    with FileLock(index_file + ".lock"):
+        if os.path.exists(index_file):
+            with open(index_file) as f:
+                index = json.load(f)
+                if index.get("version", None) != VERSION:
+                    raise ValueError(f"{index_file=} version must be {VERSION}")
+        else:
+            index = {}
+            index["version"] = VERSION
+            index["matrix"] = {}
+
+        mir_cached_matrix_to_file(cache_file, npz_file)
+
+        # get matrix size
+        z = load_npz(npz_file)
+        mem_size = matrix_memory_size(z)
+        z = None
+
+        index["matrix"][key] = dict(
+            input=convert(entry["input"]),
+            output=convert(entry["output"]),
+            interpolation=entry["interpolation"],
+            nnz=entry["matrix"]["nnz"],
+            memory=mem_size,
+        )
+
+        with replace_file(index_file, "w") as f:
+            json.dump(index, f, indent=4)
 
     print("Written", npz_file)
     print("Written", index_file)
diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index 1b70467..bbdca4a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -9,6 +9,9 @@
 # nor does it submit to any jurisdiction.
 #
 
+import os
+import uuid
+from contextlib import contextmanager
 from pathlib import Path
 from typing import Dict
 from typing import List
@@ -65,12 +68,27 @@ def mir_cached_matrix_to_array(path):
         return csr_array((data, inner, outer), shape=(rows, cols))
 
 
+@contextmanager
+def replace_file(path, mode="wb"):
+    """Write a file which gets its name, and replaces another one, only when it is complete."""
+    tmp = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp, mode) as f:
+            yield f
+        os.replace(tmp, path)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
+        raise
+
+
 def mir_cached_matrix_to_file(path, target):
-    if not target.suffix == ".npz":
+    if Path(target).suffix != ".npz":
         raise ValueError("target must end with .npz")
 
     z = mir_cached_matrix_to_array(path)
-    save_npz(target, z)
+    with replace_file(target) as f:
+        save_npz(f, z)
 
 
 def mir_write_latlon_to_griddef(path, lats, lons):
-- 
2.43.0


From c77eb9e5dd59955ff66943d74048ec8121c38449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 30/33] fix: mir_make_matrix must make the matrix of the
 coordinates given

---
 src/earthkit/regrid/utils/mir.py | 58 ++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/earthkit/regrid/utils/mir.py b/src/earthkit/regrid/utils/mir.py
index bbdca4a..3b69e2a 100644
--- a/src/earthkit/regrid/utils/mir.py
+++ b/src/earthkit/regrid/utils/mir.py
@@ -10,6 +10,7 @@
 #
 
 import os
+import tempfile
 import uuid
 from contextlib import contextmanager
 from pathlib import Path
@@ -115,16 +116,26 @@ def _yaml_from_dict(d):
 def _griddef_from_latlon(lat, lon, dir=None):
     import hashlib
 
-    version = 1
-    coord = str(version) + str(lat) + str(lon)
-    hash = hashlib.md5(coord.encode()).hexdigest()
+    # the exact values: printed ones may be rounded or abbreviated
+    version = 2
+    m = hashlib.md5(str((version, len(lat), len(lon))).encode())
+    for coord in (lat, lon):
+        m.update(np.asarray(coord, dtype=np.float64).tobytes())
 
-    name = Path(hash + ".griddef")
+    name = Path(m.hexdigest() + ".griddef")
     if dir:
         name = dir / name
 
     if not name.exists():
-        mir_write_latlon_to_griddef(name, lat, lon)
+        # others may look for the file at the same time
+        tmp = f"{name}.{uuid.uuid4().hex}.tmp"
+        try:
+            mir_write_latlon_to_griddef(tmp, lat, lon)
+            os.replace(tmp, name)
+        except BaseException:
+            if os.path.exists(tmp):
+                os.unlink(tmp)
+            raise
 
     return str(name)
 
@@ -161,30 +172,33 @@ def mir_make_matrix(
     else:
         raise ValueError("mir_make_matrix: output grid or lats/lons must be provided.")
 
-    mat = Path(output)
-    if ext == ".mat":
-        job.set("interpolation-matrix", str(mat))
-    elif ext == ".npz":
-        mat = mat.with_name(mat.name + ".mat")  # later unlinked
+    def execute(mat):
         job.set("interpolation-matrix", str(mat))
 
-    for key, val in kwargs.items():
-        job.set(key, val)
+        for key, val in kwargs.items():
+            job.set(key, val)
 
-    try:
-        job.execute(input, mir.EmptyOutput())
-    except Exception as e:
-        raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
+        try:
+            job.execute(input, mir.EmptyOutput())
+        except Exception as e:
+            raise RuntimeError(f"mir_make_matrix: error: {e}.") from e
+
+        if not mat.exists():
+            raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
+
+    if ext == ".mat":
+        execute(Path(output))
+        return
+
+    with tempfile.TemporaryDirectory(dir=Path(output).parent if ext else None) as tmp:
+        mat = Path(tmp) / "matrix.mat"
+        execute(mat)
 
-    if ext and not mat.exists():
-        raise FileNotFoundError(f"mir_make_matrix: matrix file '{mat}' not found.")
+        if not ext:
+            return mir_cached_matrix_to_array(mat)
 
-    if ext == ".npz":
         mir_cached_matrix_to_file(str(mat), output)
-        mat.unlink()
         assert Path(output).exists()
-    elif not ext:
-        return mir_cached_matrix_to_array(mat)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 4e3a515c7434f983d155e0500470faa1d0b80edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 31/33] fix: keep the record of a creation that waited for its
 lock

---
 src/earthkit/regrid/utils/caching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index f4f0f83..b705d3c 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -1168,6 +1168,9 @@ def cache_file(
                 with creation_lock(path):
                     # Check again, another thread/process may have created the file
                     if force or not os.path.exists(path):
+                        if not os.path.exists(path):
+                            # The record may have been removed before the lock was acquired
+                            CACHE._invalidate_entry(path, owner, args)
                         # When forced, the file stays available until its replacement is complete
                         owner_data = create(path + ".tmp", args)
                         CACHE._invalidate_entry(path, owner, args)
-- 
2.43.0


From 01367f0b81618e5982ed1a233834a185803d434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 32/33] fix: repeat a request for a cached file when the cache
 policy changes meanwhile

It failed with an AssertionError ("File not in cache") when another thread
switched the policy or the directory of the cache between the look-up of the
file and its registration.
---
 src/earthkit/regrid/utils/caching.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/earthkit/regrid/utils/caching.py b/src/earthkit/regrid/utils/caching.py
index b705d3c..c2f610f 100644
--- a/src/earthkit/regrid/utils/caching.py
+++ b/src/earthkit/regrid/utils/caching.py
@@ -356,11 +356,15 @@ class CacheManager(threading.Thread):
         Should the process die before :py:meth:`_update_entry` the size is determined again
         by :py:meth:`_update_cache`.
         """
-        self._ensure_in_cache(path)
+        if not self._policy.file_in_cache_directory(path):  # The directory has been changed
+            return
+
         self._put_entry(path, owner, args, None, None, None)
 
     def _update_entry(self, path, owner, args, owner_data=None):
-        self._ensure_in_cache(path)
+        if not self._policy.file_in_cache_directory(path):  # The directory has been changed
+            return
+
         size, kind = self._measure(path)
         owner_data = json.dumps(owner_data, default=default_serialiser)
         self._put_entry(path, owner, args, size, kind, owner_data)
@@ -566,7 +570,8 @@ class CacheManager(threading.Thread):
         changes :
             None or False if database does not need to be updated. TODO: clarify.
         """
-        self._ensure_in_cache(path)
+        if not self._policy.file_in_cache_directory(path):  # The directory has been changed
+            return None
 
         with self.connection as db:
             now = datetime.datetime.now()
@@ -1151,6 +1156,10 @@ def cache_file(
         )
 
         record = CACHE._register_cache_file(path, owner, args)
+        if record is None:  # The policy has just been changed
+            assert CACHE.policy is not policy, f"File not in cache {path}"
+            return cache_file(owner, create, args, hash_extra, extension, force, replace)
+
         if os.path.exists(path):
             if callable(force):
                 owner_data = record["owner_data"]
-- 
2.43.0


From 5deadb22e3db08f3215e9ab87336ff672173baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 33/33] fix: let two sessions create the same temporary
 directory root at once

Making the root failed with FileExistsError when the other one was faster.
---
 src/earthkit/regrid/utils/temporary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/earthkit/regrid/utils/temporary.py b/src/earthkit/regrid/utils/temporary.py
index 70db7c2..e57b801 100644
--- a/src/earthkit/regrid/utils/temporary.py
+++ b/src/earthkit/regrid/utils/temporary.py
@@ -62,8 +62,8 @@ class TmpDirectory(tempfile.TemporaryDirectory):
         d = kwargs.get("dir", None)
         if d == "":
             raise ValueError("TmpDirectory: dir option cannot be an empty str!")
-        if d is not None and not os.path.exists(d):
-            os.makedirs(d)
+        if d is not None:
+            os.makedirs(d, exist_ok=True)
         super().__init__(*args, **kwargs)
 
     @property
-- 
2.43.0


#!/usr/bin/env python3
"""Mutation campaign: many small breakages of the repository, each run against the quick checks.

    tools/mutants.py [-j SLOTS] [-w WORKERS] [-n RUNS] [NAME-PREFIX ...]

Works on scratch copies of /repo under /tmp/mw* which it removes. Prints one line per mutant: the
properties whose checks report it, and those that do not.  Not one of the registered checks.
"""
import argparse
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time

U = "utils/"
M = []


def m(name, props, file, *edits):
    M.append((name, props.split(), file, edits))


C = U + "caching.py"
# --- keys
m("k-owner", "C06", C, ('        m.update(owner.encode("utf-8"))\n\n', "\n"))
m("k-args", "C06", C, ('json.dumps(args, sort_keys=True, default=default_serialiser).encode("utf-8"))\n        m.update(json.dumps(hash', 'json.dumps(list(args)[:1], sort_keys=True, default=default_serialiser).encode("utf-8"))\n        m.update(json.dumps(hash'))
m("k-ext", "C06", C, ('        m.update(json.dumps(extension, sort_keys=True).encode("utf-8"))\n', ""))
m("k-sort", "C06", C, ('m.update(json.dumps(args, sort_keys=True, default', 'm.update(json.dumps(args, default'))
m("k-extra", "C06", C, ('        m.update(json.dumps(hash_extra, sort_keys=True).encode("utf-8"))\n', ""))
# --- creation
m("c-nolock", "C06 C05", C, ("                with creation_lock(path):\n                    # Check", "                if True:\n                    # Check"))
m("c-norecheck", "C06", C, ("                    if force or not os.path.exists(path):\n                        if not os", "                    if True:\n                        if not os"))
m("c-direct", "C05", C, ('owner_data = create(path + ".tmp", args)\n                        CACHE._invalidate_entry(path, owner, args)\n                        replace_file(path + ".tmp", path)', 'owner_data = create(path, args)\n                        CACHE._invalidate_entry(path, owner, args)'))
m("c-direct-off", "C05", C, ('owner_data = create(path + ".tmp", args)\n                    os.rename(path + ".tmp", path)', 'owner_data = create(path, args)'))
m("c-forcedel", "C05 C07 C16", C, ('                        # When forced, the file stays', '                        if os.path.exists(path):\n                            remove_path(path)\n                        # When forced, the file stays'))
m("c-noinval", "C08 C07", C, ("                        owner_data = create(path + \".tmp\", args)\n                        CACHE._invalidate_entry(path, owner, args)\n", "                        owner_data = create(path + \".tmp\", args)\n"))
m("c-noinval2", "C08", C, ("                            CACHE._invalidate_entry(path, owner, args)\n", "                            pass\n"))
m("c-noupdate", "C08 C06", C, ("                        CACHE._update_entry(path, owner, args, owner_data)\n", ""))
m("c-nodata", "C06", C, ("CACHE._update_entry(path, owner, args, owner_data)", "CACHE._update_entry(path, owner, args)"))
m("c-swallow", "C05 C07", C, ("            finally:\n                CACHE.check_size()", "            except OSError as e:\n                LOG.error(e)\n            finally:\n                CACHE.check_size()"))
m("c-nocheck", "C09", C, ("            finally:\n                CACHE.check_size()", "            finally:\n                pass"))
m("c-nocheckfail", "C09", C, ("            finally:\n                CACHE.check_size()", "            except BaseException:\n                raise\n            else:\n                CACHE.check_size()"))
m("c-forcealways", "C06 C16", C, ("                force = force(args, path, owner_data)", "                force = force(args, path, owner_data) or owner_data is None"))
m("c-forcefirst", "C06", C, ("                if owner_data is not None:\n                    owner_data = json.loads(owner_data)\n", ""))
m("c-callableforce", "C06 C14", C, ("        else:\n            force = False\n", ""))
m("c-lockunlink", "C06", C, ("        # Unlink before releasing, otherwise another creator could already hold this very file\n        try:\n            os.unlink(lock)\n        except OSError:\n            pass\n        file_lock.release()", "        file_lock.release()\n        try:\n            os.unlink(lock)\n        except OSError:\n            pass"))
m("c-lockleak", "C07", C, ("    try:\n        yield True\n    finally:\n        # Unlink", "    if True:\n        yield True\n        # Unlink"))
m("c-unmeasured", "C08", C, ("            return size, \"directory\"", "            return os.path.getsize(path), \"directory\""))
m("c-tmpname", "C05 C06", C, ('owner_data = create(path + ".tmp", args)\n                        CACHE', 'owner_data = create(os.path.join(policy.directory(), owner + ".tmp"), args)\n                        os.rename(os.path.join(policy.directory(), owner + ".tmp"), path + ".tmp")\n                        CACHE'))
m("c-offuniq", "C11 C05", C, ("        m.update(str(randrange(10000000)).encode(\"utf-8\"))\n", ""))
m("c-managedcheck", "C11", C, ("    policy = CACHE.policy  # A temporary directory lives at least as long as this reference\n    managed = policy.managed() and policy.directory() is not None", "    managed = CACHE.policy.managed() and CACHE.policy.directory() is not None\n    policy = CACHE.policy"))
# --- manager
m("m-futerr", "C12 C07", C, ("        if self._error is not None:\n            raise self._error\n        return self._result", "        return self._result"))
m("m-futdie", "C12", C, ("        except BaseException as e:  # The caller decides what to do with it", "        except OSError as e:  # The caller decides what to do with it"))
m("m-lifo", "C12 C11", C, ("s = self._queue.pop(0)", "s = self._queue.pop()"))
m("m-notify1", "C12", C, ("        with self._condition:\n            self._ready = True\n            self._condition.notify_all()", "        self._ready = True\n        if self._condition._waiters:\n            with self._condition:\n                self._condition.notify_all()"))
m("m-futif", "C12", C, ("            while not self._ready:\n                self._condition.wait()", "            if not self._ready:\n                self._condition.wait(timeout=5)"))
m("m-conn", "C11 C08", C, ("        self._connection = None  # The user may have changed the cache directory\n        self._check", "        self._check"))
m("m-nocheckchg", "C09", C, ("        self._connection = None  # The user may have changed the cache directory\n        self._check_cache_size()", "        self._connection = None  # The user may have changed the cache directory"))
m("m-stop", "C11", C, ("        atexit.register(self.stop)\n", "        pass\n"))
m("m-managed", "C12 C11", C, ("                if not self._manager.managed():  # The policy has just been changed\n                    return None\n", ""))
m("m-deepcopy", "C12 C11 C09", C, ("policy = deepcopy(self._policy) if", "policy = self._policy if"))
m("m-empty", "C11", C, ("deepcopy(self._policy) if self._policy.managed() else EmptyCachePolicy()", "deepcopy(self._policy)"))
m("m-nowait", "C11 C19", C, ("        s = self._manager.enqueue(self._manager._config_changed, policy)\n        return s.result()", "        self._manager.enqueue(self._manager._config_changed, policy)"))
m("m-offpolicy", "C11 C19", C, ("if self._policy.managed() or self._manager is not None:", "if self._policy.managed():"))
m("m-policytwice", "C11", C, ("        with self._policy_lock:\n            if self._policy is None:\n                self._make_policy()\n            return self._policy\n", "        if self._policy is None:\n            self._make_policy()\n        return self._policy\n"))
m("m-chglock", "C11 C19", C, ("        with self._policy_lock:\n            if self._policy is None:\n                self._make_policy()\n            if self._policy.outdated", "        if True:\n            if self._policy is None:\n                self._make_policy()\n            if self._policy.outdated"))
m("m-nomgrlock", "C12", C, ("        if self.policy.managed() and self._manager is not None:\n            with self._manager_lock:", "        if self.policy.managed() and self._manager is not None:\n            if True:"))
m("m-limits", "C19 C09", C, ("            elif self._policy.update() and self._policy.managed():\n                with self._manager_lock:\n                    self._call_manager_config_changed()", "            else:\n                self._policy.update()"))
m("m-update", "C19 C09", C, ("            if k not in self.OUTDATED_CHECK_KEYS:\n                self._config[k] = v\n        return changed", "            if changed and k not in self.OUTDATED_CHECK_KEYS:\n                self._config[k] = v\n                break\n        return changed"))
m("m-outdated1", "C11 C19", C, ("        return any(self._config.get(k) != CONFIG.get(k) for k in self.OUTDATED_CHECK_KEYS)", "        return any(self._config.get(k) != CONFIG.get(k) for k in self.OUTDATED_CHECK_KEYS[:1])"))
m("m-outkeys-off", "C11 C19", C, ('OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-directory-root"]', 'OUTDATED_CHECK_KEYS = ["cache-policy"]'))
m("m-outkeys-tmp", "C11 C19", C, ('OUTDATED_CHECK_KEYS = ["cache-policy", "temporary-cache-directory-root"]', 'OUTDATED_CHECK_KEYS = ["cache-policy"]'))
m("m-outkeys-user", "C11 C19", C, ('OUTDATED_CHECK_KEYS = ["cache-policy", "user-cache-directory"]', 'OUTDATED_CHECK_KEYS = ["cache-policy"]'))
m("m-tmproot", "C11", C, ('self._expand_path(self._config.get("temporary-cache-directory-root"))', 'self._expand_path(self._config.get("temporary-directory-root"))'))
m("m-outdateddel", "C11 C12", C, ("                outdated = self._policy  # Its directory must exist until the manager has left it\n", "                outdated = None\n"))
# --- catalogue
m("d-access", "C08 C09", C, ("                SET accesses    = accesses + 1,\n                    last_access = ?\n                WHERE path=?\"\"\",\n                (now, path)", "                SET accesses    = accesses + 1,\n                    creation_date = ?\n                WHERE path=?\"\"\",\n                (now, path)"))
m("d-accesscnt", "C08", C, ("accesses    = accesses + 1,", "accesses    = accesses,"))
m("d-putaccess", "C08 C09", C, ("                SET creation_date = excluded.creation_date,\n", "                SET creation_date = excluded.creation_date, last_access = excluded.last_access, accesses = 1,\n"))
m("d-putsize", "C08", C, ("                    size          = excluded.size,\n", ""))
m("d-putdata", "C08 C06", C, ("                    type          = excluded.type,\n                    owner_data    = excluded.owner_data", "                    type          = excluded.type"))
m("d-replace", "C08", C, ("INSERT INTO cache(\n                                path,\n                                owner,\n                                args,\n                                creation_date,\n                                last_access,\n                                accesses,\n                                size,", "INSERT OR REPLACE INTO cache(\n                                path,\n                                owner,\n                                args,\n                                creation_date,\n                                last_access,\n                                accesses,\n                                size,"), ("                ON CONFLICT(path) DO UPDATE\n                SET creation_date = excluded.creation_date,\n                    owner         = excluded.owner,\n                    args          = excluded.args,\n                    size          = excluded.size,\n                    type          = excluded.type,\n                    owner_data    = excluded.owner_data", ""))
m("d-clean", "C08", C, ("                        if clean:\n                            db", "                        if not clean:\n                            db"))
m("d-updlock", "C08 C10", C, ("                    if not locked:  # Being created\n                        continue\n", ""))
m("d-updexists", "C08", C, ("                if size is not None and os.path.exists(path):", "                if size is not None:"))
m("d-updcommit", "C12 C07", C, ("                    db.commit()\n", ""))
m("d-entries", "C08", C, ("                if os.path.exists(n[\"path\"]):\n                    result.append(n)", "                result.append(n)"))
m("d-sizeclean", "C08", C, ("        LOG.debug(\"cache_size\")\n        self._update_cache(clean=True)", "        LOG.debug(\"cache_size\")\n        self._update_cache()"))
m("d-dumpupd", "C08 C10", C, ("        self._update_cache(clean=True)\n        result = []\n        with self.connection as db:\n            # The", "        result = []\n        with self.connection as db:\n            # The"))
m("d-dumpfetch", "C12", C, ('"SELECT * FROM cache WHERE size IS NOT NULL").fetchall():', '"SELECT * FROM cache WHERE size IS NOT NULL"):'))
m("d-housenewer", "C10", C, ("                    if time.time() - s.st_mtime < 120:  # Two minutes\n                        continue\n", "                    pass\n"))
m("d-houselock", "C10 C05", C, ("                    if not locked:\n                        continue\n\n                if not os.path.exists(full):", "                    pass\n\n                if not os.path.exists(full):"))
m("d-housedb", "C10 C08", C, ("                if name == CACHE_DB:\n                    continue\n", "                if name.endswith(\".db\") and name != CACHE_DB:\n                    continue\n"))
m("d-houseempty", "C10", C, ("        if matcher is None:\n            self._housekeeping(clean=True)\n            dump", "        if matcher is None:\n            dump"))
# --- deletion
m("x-order", "C09", C, ("ORDER BY last_access ASC", "ORDER BY last_access DESC"))
m("x-ordercreate", "C09", C, ("ORDER BY last_access ASC", "ORDER BY creation_date ASC"))
m("x-nolatest", "C09", C, (" AND creation_date < ? ORDER BY last_access", " AND creation_date <= ? ORDER BY last_access"))
m("x-latestmin", "C09", C, ("SELECT MIN(creation_date) FROM cache WHERE size IS NULL", "SELECT MAX(creation_date) FROM cache WHERE size IS NULL"))
m("x-latestorph", "C09", C, (" AND owner<>'orphans'\"\n", "\"\n"))
m("x-stop", "C09", C, ("                    if total >= bytes:", "                    if total > 2 * bytes:"))
m("x-stopgt", "C09", C, ("                    if total >= bytes:", "                    if total > bytes:"))
m("x-le", "C09", C, ("        if bytes <= 0:\n            return 0\n", "        if bytes < 0:\n            return 0\n"))
m("x-limit", "C09", C, ("                if size > maximum:\n", "                if size >= maximum:\n"))
m("x-nohouse", "C09", C, ("                if size > maximum:\n                    self._housekeeping()\n", "                if size > maximum:\n"))
m("x-maxzero", "C09", C, ("            if maximum is not None:\n                size", "            if maximum:\n                size"))
m("x-usage", "C09", C, ("                if df.percent > usage:", "                if df.percent >= usage + 1:"))
m("x-usagedelta", "C09", C, ("delta = (df.percent - usage) * df.total * 0.01", "delta = (df.percent - usage) * size * 0.01"))
m("x-usagefree", "C09", C, ("                    delta = (df.percent - usage) * df.total * 0.01\n                    self._decache(delta)", "                    self._decache(df.percent - usage)"))
m("x-orphanfirst", "C09", C, ("owner='orphans'\", ()),", "owner='orphan'\", ()),"))
m("x-nosize", "C09", C, ('("SELECT * FROM cache WHERE size IS NOT NULL AND owner=', '("SELECT * FROM cache WHERE owner='))
m("x-children", "C10 C09", C, ("                total += self._delete_entry(child)", "                pass"))
m("x-dellock", "C10 C09", C, ("            if not locked:\n                LOG.debug(f\"cache file in use by its creator: {path}\")\n                return total\n", ""))
m("x-delrec", "C10 C08", C, ("            if os.path.exists(path):\n                return total\n\n            with", "            with"))
m("x-delrec2", "C10 C08", C, ("            with self.connection as db:\n                db.execute(\"DELETE FROM cache WHERE path=?\", (path,))\n\n        return total + size", "        return total + size"))
m("x-dellike", "C10 C08", C, ("                db.execute(\"DELETE FROM cache WHERE path=?\", (path,))\n\n        return", "                db.execute(\"DELETE FROM cache WHERE path LIKE ?\", (path.split('-')[0] + '%',))\n\n        return"))
m("x-lost", "C08 C10", C, ("                with self.connection as db:\n                    db.execute(\"DELETE FROM cache WHERE path=?\", (path,))\n                return total\n", "                return total\n"))
m("x-ensure", "C10", C, ("        self._ensure_in_cache(path)\n\n        try:", "        try:"))
m("x-incache", "C10", C, ('return path.startswith(os.path.join(self.directory(), ""))', 'return path.startswith(self.directory())'))
m("x-trash", "C05 C07", C, ('        os.rename(path, trash)\n        shutil.rmtree(trash)', '        shutil.rmtree(path)'))
m("x-trashleft", "C07", C, ('        if os.path.exists(trash):\n            shutil.rmtree(trash)\n', ''))
m("x-created", "C10 C05", C, ('    for extension in (".lock", ".tmp.download", ".tmp", ".deleted"):', '    for extension in (".lock", ".tmp", ".deleted"):'))
m("x-purgematch", "C10", C, ("                if matcher(n):\n                    result.append(n)", "                if matcher(n):\n                    result.append(n)\n                elif matcher is not None and result and n['owner'] == result[-1]['owner'] and n['args'] == result[-1]['args']:\n                    result.append(n)"))

E = U + "memcache.py"
m("w-source", "C01", E, ("make_sha([source, *args])", "make_sha([*args])"))
m("w-keymethod", "C01", E, ("make_sha([source, *args])", "make_sha([source, *args[:2]])"))
m("w-mte", "C03", E, ("                self.items.move_to_end(key)\n", ""))
m("w-mtelru", "C03", E, ("                self.items.move_to_end(key)\n", "                self.items.move_to_end(key, last=False)\n"))
m("w-popmru", "C03", E, ("popitem(0)", "popitem()"))
m("w-gt", "C03 C02", E, ("        while self.cache.curr_mem >= target_size:\n            _, item", "        while self.cache.curr_mem > target_size:\n            _, item"))
m("w-gt2", "C03 C02", E, ("        while self.cache.curr_mem >= target_size:\n            _, largest", "        while self.cache.curr_mem > target_size:\n            _, largest"))
m("w-smallest", "C03", E, ("_, largest = max(", "_, largest = min("))
m("w-acct", "C02", E, ("                self.curr_mem += self.items[key].size\n                self._reduce()", "                self.curr_mem += self.items[key].size"))
m("w-acct2", "C02 C03", E, ("            self.curr_mem = self._curr_mem()\n            self.policy", "            self.policy"), ("            self.cache.curr_mem -= item.size\n", ""))
m("w-hits", "C03", E, ("                self.hits += 1\n", "                self.hits += 1\n                self.misses += 0\n"), ("            self.misses += 1\n\n            if data[0] is not None:\n", "            if data[0] is not None:\n                self.misses += 1\n"))
m("w-clearhits", "C03", E, ("        self.items.clear()\n        self.hits = 0\n", "        self.items.clear()\n"))
m("w-clearmem", "C02", E, ("        self.misses = 0\n        self.curr_mem = 0\n", "        self.misses = 0\n"), ("            self.curr_mem = self._curr_mem()\n            self.policy.reduce", "            self.policy.reduce"))
m("w-dblcheck", "C02", E, ("        with self.lock:\n            if not self.policy.has_cache():\n                return create(*args)\n", "        with self.lock:\n"))
m("w-strict", "C03", E, ("            if self.strict and self._capacity() < estimated_memory:", "            if self.strict and self.max_mem < estimated_memory:"))
m("w-strictalways", "C03", E, ("            if self.strict and self._capacity()", "            if self._capacity()"))
m("w-strict2", "C03", E, ("            if self.strict and self._capacity() < estimated_memory:", "            if self.strict and self._capacity() <= estimated_memory:"))
m("w-pre", "C03 C02", E, ("if estimated_memory > capacity and estimated_memory <= self.max_mem:", "if estimated_memory <= self.max_mem:"))
m("w-pre2", "C03", E, ("if estimated_memory > capacity and estimated_memory <= self.max_mem:", "if estimated_memory > capacity:"), ("                assert target_size >= 0\n", ""))
m("w-updlock", "C02 C03", E, ("            with self.lock:\n                if any(", "            if True:\n                if any("))
m("w-infolock", "C02 C03", E, ("        with self.lock:\n            return _CacheInfo(", "        if True:\n            return _CacheInfo("))
m("w-clearlock", "C02 C03", E, ("        with self.lock:\n            self._clear()", "        self._clear()"))
m("w-getlock", "C04", E, ("        with self.lock:\n            if not self.policy.has_cache():\n                return create(*args)\n\n            # the", "        if True:\n            if not self.policy.has_cache():\n                return create(*args)\n\n            # the"))
m("w-anyshort", "C02 C19", E, ("                if any(\n                    [\n                        _update(\"max_mem\", self.MAX_SIZE_KEY),\n                        _update(\"strict\", self.STRICT_KEY),\n                        _update_policy(),\n                    ]\n                ):", "                if (\n                    _update(\"max_mem\", self.MAX_SIZE_KEY)\n                    or _update(\"strict\", self.STRICT_KEY)\n                    or _update_policy()\n                ):"))
m("w-noreduce", "C02", E, ("                ):\n                    self._reduce()", "                ):\n                    self.policy.check()"))
m("w-missnone", "C04 C01", E, ("            if data[0] is not None:\n                self.items", "            if True:\n                self.items"))
m("w-offclear", "C02", E, ("        if not self.policy.has_cache():\n            self._clear()\n        else", "        if not self.policy.has_cache():\n            pass\n        else"))
m("w-unlmax", "C02 C03 C19", E, ("    def check(self):\n        self.cache.max_mem = None\n        self.cache.strict = False\n", "    def check(self):\n        self.cache.strict = False\n"))
m("w-createfail", "C04", E, ("            else:\n                data = self._create(create, *args)\n", "            else:\n                self.items[key] = None\n                data = self._create(create, *args)\n"))

G = U + "config.py"
m("g-tmpcopy", "C18", G, ("        self._config = dict(**defaults)\n", "        self._config = defaults\n"))
m("g-env", "C18 C17", G, ("        st, value, _ = self._env(name)\n        if not st:", "        st, value, _ = self._env(name)\n        if not st or self is not CONFIG:"))
m("g-envsave", "C17", G, ("        self._config.update(values)\n        LOG", "        values.update({k: self._env(k)[1] for k in values if self._has_env(k)})\n        self._config.update(values)\n        LOG"))
m("g-partial", "C18", G, ("                values[k] = self._check(k, v)\n        else:\n            if len", "                self._config[k] = values[k] = self._check(k, v)\n        else:\n            if len"))
m("g-partial2", "C18", G, ("                for k, v in args[0].items():\n                    values[k] = self._check(k, v)", "                for k, v in args[0].items():\n                    self._config[k] = values[k] = self._check(k, v)"))
m("g-pop", "C18", G, ("        CONFIG._stack.remove(s)\n", "        CONFIG._stack.pop()\n"))
m("g-nofinally", "C18", G, ("    try:\n        CONFIG._notify()\n        yield None\n    finally:", "    CONFIG._notify()\n    try:\n        yield None\n    finally:"))
m("g-nonotifyexit", "C19 C18", G, ("        CONFIG._stack.remove(s)\n        CONFIG._notify()", "        CONFIG._stack.remove(s)"))
m("g-nonotifyenter", "C19", G, ("    try:\n        CONFIG._notify()\n        yield None", "    try:\n        yield None"))
m("g-exitorder", "C19", G, ("        CONFIG._stack.remove(s)\n        CONFIG._notify()", "        CONFIG._notify()\n        CONFIG._stack.remove(s)"))
m("g-resetnotify", "C19", G, ("            self._config[name] = DEFAULTS[name]\n        self._changed()", "            self._config[name] = DEFAULTS[name]\n            self._notify()\n        if name is None:\n            self._changed()"))
m("g-resetsave", "C17", G, ("            self._config[name] = DEFAULTS[name]\n        self._changed()", "            self._config[name] = DEFAULTS[name]\n        if name is None:\n            self._changed()\n        else:\n            self._notify()"))
m("g-resetdef", "C18", G, ("            self._config[name] = DEFAULTS[name]", "            self._config[name] = self._defaults[name]"))
m("g-notifyfirst", "C19", G, ("        self._config.update(values)\n        LOG.debug(f\"set {values} stack_size={len(self._stack)}\")\n        self._changed()", "        if self._callbacks:\n            self._notify()\n        self._config.update(values)\n        if self._auto_save_config:\n            self._save()"))
m("g-cbstop", "C19 C18", G, ("                except Exception as e:\n                    error = error or e\n            if", "                except Exception as e:\n                    error = error or e\n                    break\n            if"))
m("g-cberr", "C18 C19", G, ("            if error is not None:\n                raise error\n", ""))
m("g-savetmp", "C17", G, ("        tmp._callbacks = self._callbacks\n        return new_config(tmp)", "        tmp._callbacks = self._callbacks\n        tmp._config_yaml = tmp._config_yaml or self._config_yaml\n        return new_config(tmp)"))
m("g-autosave", "C17", G, ("        if self._auto_save_config:\n            self._save()\n        self._notify()", "        self._save()\n        self._notify()"))
m("g-saveorder", "C17", G, ("        if self._auto_save_config:\n            self._save()\n        self._notify()", "        self._notify()\n        if self._auto_save_config:\n            self._save()"))
m("g-savelock", "C17", G, ("    with FileLock(path + \".lock\"):", "    if True:"))
m("g-saveplace", "C17", G, ("            os.replace(tmp, path)\n        except BaseException:", "            shutil.copyfile(tmp, path)\n            os.unlink(tmp)\n        except BaseException:"))
m("g-savedirect", "C17", G, ("    tmp = path + \".tmp\"\n        try:", "    tmp = path\n        try:") if False else ("        tmp = path + \".tmp\"\n", "        tmp = path\n"))
m("g-overwrite", "C17", G, ("        if exists and not overwrite:\n            return\n", ""))
m("g-savediff", "C17", G, ("        if value != self.default:", "        if value and value != self.default:"))
m("g-migrate", "C17", G, ("                config.update(s)\n                save_config(config_file, config, overwrite=False)", "                config = s\n                save_config(config_file, config)"))
m("g-forward", "C18", G, ("            current = self._stack[-1]\n", "            current = self._stack[0]\n"))
m("g-forwardset", "C18 C17", G, ("    @forward\n    def set(", "    def set("))
m("g-forwardreset", "C18 C17", G, ("    @forward\n    def reset(", "    def reset("))
m("g-temporary", "C18", G, ("    @forward\n    def temporary(", "    def temporary("))
m("g-initdefault", "C17", G, ("            config.update(s)\n\n        # if s", "            config = s\n\n        # if s"))
m("g-validate", "C18", G, ("        config_item.validate(name, value)\n        return value", "        return value"))
m("g-getdefault", "C18", G, ("            if default is NONE:\n                value = self._config[name]\n            else:\n                value = self._config.get(name, default)", "            value = self._config[name] if default is NONE or self._config[name] is not None else default"))

D = "backends/db.py"
m("n-alias", "C01", D, ("            if method in v:\n                return k", "            if method in v[:1]:\n                return k"))
m("n-shacmp", "C14", D, ("            if local_sha != remote_sha:", "            if len(local_sha) != len(remote_sha):"))
m("n-shanone", "C14", D, ("            if local_sha is None:\n                return True\n", "            if local_sha is None:\n                return False\n"))
m("n-datanone", "C14", D, ("            if owner_data is None:\n                return True\n            local_sha", "            if owner_data is None:\n                return False\n            local_sha"))
m("n-checked", "C14", D, ("        self._index_path = self._get_index(check_remote=True, force=force)\n        self._checked_remote = True  # A check that fails does not count", "        self._checked_remote = True\n        self._index_path = self._get_index(check_remote=True, force=force)"))
m("n-nochecked", "C14", D, ("                if not self._accessor.checked_remote():", "                if True:"))
m("n-noreset", "C14", D, ("                    self._index = None  # When loading it fails the next request loads it again\n", ""))
m("n-secondfind", "C14", D, ("            # Another thread may have done the check since the index was searched\n            entry = self.index.find(gridspec_in, gridspec_out, method)", "                    entry = self.index.find(gridspec_in, gridspec_out, method)"))
m("n-checklock", "C14 C16", D, ("            with self._lock:\n                if not self._accessor", "            if True:\n                if not self._accessor"))
m("n-early", "C01 C13", D, ("        index.load(path)\n        self._index = index", "        self._index = index\n        index.load(path)"))
m("n-idxlock", "C16 C01", D, ("            with self._lock:\n                if self._index is None:\n                    self._load_index()", "            if True:\n                if self._index is None:\n                    self._load_index()"))
m("n-valnpz", "C13", D, ("                validate=validate_npz,\n", ""))
m("n-valgz", "C13", D, ("                validate=validate_gzip_json,\n", ""))
m("n-valsha", "C13 C14", D, ("                validate=validate_sha,\n", ""))
m("n-testzip", "C13", D, ("        if f.testzip() is not None:\n            raise", "        if not f.namelist():\n            raise"))
m("n-retries", "C15", D, ("                maximum_retries=5,", "                maximum_retries=3,"))
m("n-matforce", "C16", D, ("                force=None,\n                chunk_size=1024 * 1024,\n                http_headers=None,\n                update_if_out_of_date=False,", "                force=True,\n                chunk_size=1024 * 1024,\n                http_headers=None,\n                update_if_out_of_date=False,"))
m("n-gznoforce", "C13 C14", D, ("            LOG.info(f\"Download gzipped index file={url}\")\n            path = download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=True,", "            LOG.info(f\"Download gzipped index file={url}\")\n            path = download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=None,"))
m("n-shanoforce", "C14", D, ("            url = os.path.join(self._url, _INDEX_SHA_FILENAME)\n            path = download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=True,", "            url = os.path.join(self._url, _INDEX_SHA_FILENAME)\n            path = download_and_cache(\n                url,\n                owner=\"url\",\n                verify=True,\n                force=None,"))
m("n-resume", "C13", D, ("                resume=False,\n                validate=validate_gzip_json", "                validate=validate_gzip_json"))
m("n-reset", "C16", D, ("        if self._index_path is None or not os.path.exists(self._index_path):", "        if self._index_path is None:"))
m("n-url", "C13 C16", D, ("            (url,),\n            force=force,\n            extension=\".cache\"", "            (_INDEX_FILENAME,),\n            force=force,\n            extension=\".cache\""))
m("n-matname", "C13", D, ('os.path.join(MatrixIndex.matrix_dir_name(item), item["_name"] + ".npz")', 'os.path.join("mir_16_linear", item["_name"] + ".npz")'))
m("n-aliasmiss", "C01", D, ("        method = self._method_alias(method)\n        entry = self.index.find(gridspec_in, gridspec_out, method)\n        if", "        entry = self.index.find(gridspec_in, gridspec_out, method)\n        if"))
m("n-interp", "C01", D, ("            MatrixIndex.interpolation_method_name(item) == method\n            and item", "            MatrixIndex.interpolation_method_name(item).startswith(method[:4])\n            and item"))

W = U + "download.py"
m("o-timeout", "C15", W, ('        timeout=CONFIG.get("url-download-timeout"),\n', ""))
m("o-override", "C13", W, ("        override_target_file=False,", "        override_target_file=True,"))
m("o-removepart", "C13 C15", W, ("            if size is None or os.path.getsize(partial) >= int(size):\n                os.unlink(partial)\n", "            pass\n"))
m("o-sizegt", "C13 C15", W, ("os.path.getsize(partial) >= int(size)", "os.path.getsize(partial) > int(size)"))
m("o-removetgt", "C13 C07", W, ("        remove(target)  # Left by an attempt that was interrupted or failed\n", ""))
m("o-validate", "C13", W, ("        if validate is not None:\n            validate(target)\n", ""))
m("o-noretry", "C15", W, ("            if not resumed or (isinstance(e, OSError) and status != 416):\n                raise", "            raise"))
m("o-key", "C16 C13", W, ("        dict(url=url, parts=parts),", "        dict(url=os.path.basename(url), parts=parts),"))
m("o-swallow", "C13 C15", W, ("            remove(partial)\n            fetch(target)\n", "            remove(partial)\n            downloader.download(target)\n"))

B = "backends/__init__.py"
m("b-nokey", "C01", B, ("key = [name, *args, *list(kwargs.items())]", "key = [name, *args, *list(kwargs.keys())]"))
m("b-fresh", "C16", B, ("        return self.BACKEND_OBJECTS.setdefault(key, klass(*args, **kwargs))", "        self.BACKEND_OBJECTS[key] = klass(*args, **kwargs)\n        return self.BACKEND_OBJECTS[key]"))
P = "backends/precomputed.py"
m("p-shape", "C01", P, ("        values = values.reshape(shape)\n\n        return values, out_grid", "        values = values.reshape(out_grid.get('shape', shape) if isinstance(out_grid, dict) else shape)\n\n        return values, out_grid"))
m("p-inplace", "C01", P, ("        values = z @ values\n        values = values.reshape(shape)", "        z.data *= 1.0 + 1e-9\n        values = z @ values\n        values = values.reshape(shape)"))
m("p-f32", "C01", P, ("        values = z @ values\n        values = values.reshape(shape)", "        values = (z @ values.astype('f4')).astype(values.dtype)\n        values = values.reshape(shape)"))

X = "data/xarray.py"
m("r-dtype", "C20", X, ("            dtype = da.dtype if np.issubdtype(da.dtype, np.inexact) else np.dtype(float)", "            dtype = da.dtype"))
m("r-name", "C20", X, ('            __name__ = "regrid"\n', "            pass\n"))
m("r-rechunk", "C20", X, ('"allow_rechunk": True', '"allow_rechunk": False'))
m("r-exclude", "C20", X, ("            exclude_dims = set(in_dims)\n", "            exclude_dims = set(in_dims[:1])\n"))
m("r-sizes", "C20", X, ("dim: out_geo.shape[i] for i, dim", "dim: out_geo.shape[-1 - i] for i, dim"))
m("r-coords", "C20", X, ("                        coords_dim[\"latitude\"] = (\"latitude\",)\n                        coords_dim[\"longitude\"] = (\"longitude\",)\n                        dims[\"lat", "                        coords_dim[\"latitude\"] = (\"latitude\",)\n                        coords_dim[\"longitude\"] = (\"longitude\",)\n                        lat[:] = lat[::-1].copy()\n                        dims[\"lat"))
m("r-cachebuf", "C20", X, ("                # TODO: ensure it is thread safe\n                vals, self.out_grid = self.method(vals)\n                return vals", "                self.vals, self.out_grid = self.method(vals)\n                return self.vals"))
m("r-ds", "C20", X, ("                ds_out[var_name] = _regrid(var)", "                ds_out[var_name] = _regrid(var.astype(next(iter(values.data_vars.values())).dtype))"))

BU = U + "builder.py"
m("u-atomic", "C21", BU, ('with replace_file(index_file, "w") as f:', 'with open(index_file, "w") as f:'))
m("u-lock", "C21", BU, ('with FileLock(index_file + ".lock"):', 'if True:'))
m("u-order", "C21", BU, ("        mir_cached_matrix_to_file(cache_file, npz_file)\n\n        # get", "        if not os.path.exists(npz_file):\n            mir_cached_matrix_to_file(cache_file, npz_file)\n\n        # get"))
m("u-fresh", "C21", BU, ("        index[\"matrix\"][key] = dict(", "        index[\"matrix\"] = {k: v for k, v in index[\"matrix\"].items() if v[\"nnz\"]}\n        index[\"matrix\"][key] = dict("))
m("u-key", "C21", BU, ('    m["output"] = entry["output"]\n', '    m["output"] = {k: v for k, v in entry["output"].items() if k != "bbox"}\n'))
m("u-global", "C21", BU, ('entry["output"]["global"] = 1 if global_output else 0', 'entry["input"]["global"] = 1 if global_output else 0'))
MI = U + "mir.py"
m("u-endian", "C21", MI, ("        data = np.frombuffer(\n            data,\n            dtype=dtype_float(little_endian, scalar_item_size),", "        data = np.frombuffer(\n            data,\n            dtype=dtype_float(True, scalar_item_size),"))
m("u-npz", "C21 C25", MI, ("    with replace_file(target) as f:\n        save_npz", "    with open(target, \"wb\") as f:\n        save_npz"))
m("u-griddef", "C25", MI, ("m.update(np.asarray(coord, dtype=np.float64).tobytes())", "m.update(str(coord).encode())"))
m("u-gridlen", "C25", MI, ("    for coord in (lat, lon):\n", "    for coord in (lat,):\n"))
m("u-griddir", "C25", MI, ("            mir_write_latlon_to_griddef(tmp, lat, lon)\n            os.replace(tmp, name)", "            mir_write_latlon_to_griddef(name, lat, lon)"))
m("u-double", "C25", U + "stream.py", ("        self.stream.write(pack(\"!L\", y))\n        self.stream.write(pack(\"!L\", x))", "        self.stream.write(pack(\"!L\", x))\n        self.stream.write(pack(\"!L\", y))"))
m("u-blob", "C21", U + "stream.py", ("        len = unpack(\"!Q\", self._read(8))[0]\n        return self._read(len)", "        len = unpack(\"!Q\", self._read(8))[0]\n        return self._read(len).ljust(len, b\"\\0\")"))

SRC = "src/earthkit/regrid/"
PY = "/opt/venv/bin/python"


def run(slot, mut, args, lock, results):
    name, props, file, edits = mut
    repo = f"/tmp/mw{os.getpid()}_{slot}"
    path = os.path.join(repo, SRC, file)
    shutil.copyfile(os.path.join("/repo", SRC, file), path)
    s = open(path).read()
    for old, new in edits:
        if s.count(old) != 1:
            return f"{name}: BAD EDIT ({s.count(old)} matches): {old[:60]!r}"
        s = s.replace(old, new)
    try:
        compile(s, path, "exec")
    except SyntaxError as e:
        return f"{name}: SYNTAX {e}"
    with open(path, "w") as f:
        f.write(s)
    out = []
    try:
        for p in props:
            t = time.time()
            cmd = [PY, "-B", "-m", "dst", "check", p]
            if args.n:
                cmd += ["-n", str(args.n)]
            env = dict(os.environ, DST_REPO=repo, DST_REPLAYS=f"/tmp/mw{os.getpid()}_{slot}/.rp", DST_EVIDENCE=f"/tmp/mw{os.getpid()}_{slot}/.ev",
                       DST_WORKERS=str(args.w))
            try:
                r = subprocess.run(cmd, cwd="/verif", env=env, capture_output=True, text=True, timeout=1500)
                rc, txt = r.returncode, r.stdout + r.stderr
            except subprocess.TimeoutExpired:
                rc, txt = "timeout", ""
            what = ""
            if rc == 1:
                l = [x for x in txt.splitlines() if x.startswith("# run ")]
                what = (l[0] if l else "")[:150]
            elif rc != 0:
                what = txt[-300:].replace("\n", " | ")
            out.append(f"{p}={'CAUGHT' if rc == 1 else 'missed' if rc == 0 else f'rc{rc}'} {time.time() - t:.0f}s {what}")
            if rc == 1 and not args.all:
                break
    finally:
        shutil.copyfile(os.path.join("/repo", SRC, file), path)
    ok = any("CAUGHT" in o for o in out)
    return f"{'ok  ' if ok else 'MISS'} {name}: " + " ;; ".join(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-n", type=int, default=0)
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--dry", action="store_true")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    todo = [x for x in M if not a.names or any(x[0].startswith(n) for n in a.names)]
    if a.dry:
        for name, props, file, edits in todo:
            s = open(os.path.join("/repo", SRC, file)).read()
            for old, new in edits:
                if s.count(old) != 1:
                    print("BAD", name, s.count(old), repr(old[:70]))
                s = s.replace(old, new)
            try:
                compile(s, name, "exec")
            except SyntaxError as e:
                print("SYNTAX", name, e)
        print(len(todo), "mutants")
        return
    q = queue.Queue()
    for x in todo:
        q.put(x)
    lock = threading.Lock()

    def worker(slot):
        repo = f"/tmp/mw{os.getpid()}_{slot}"
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        try:
            while True:
                try:
                    x = q.get_nowait()
                except queue.Empty:
                    return
                r = run(slot, x, a, lock, None)
                with lock:
                    print(r, flush=True)
        finally:
            shutil.rmtree(repo, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()

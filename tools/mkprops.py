#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the property texts)."""
import json, os
S = "src/earthkit/regrid/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Precomputed regridding always applies the right weights",
  "Every precomputed-weights regrid call that returns gives exactly the product of the input with the matrix that the selected inventory holds for that input grid, output grid and method, in the inventory's output shape, whatever calls (on any inventory), memory-cache configuration changes, cache clears or failed loads came before or run concurrently in other threads. It raises the 'no precomputed weights' error exactly when that inventory has no such entry. Every such call returns: none hangs.",
  ["schedules", "histories", "configurations"],
  "all interleavings of regrid calls, config changes and clears from several threads; all histories over several inventories, grids, methods and memory-cache policies",
  "Tests call regrid sequentially on one inventory with at most one policy change per test; cross-inventory histories and concurrent callers are never run.",
  ["utils/memcache.py", "backends/db.py", "backends/precomputed.py", "backends/__init__.py", "array/regrid.py"],
  [("MemoryCache.get", "utils/memcache.py"), ("MatrixDb.find/_load_index", "backends/db.py"), ("BackendMaker object cache", "backends/__init__.py")],
  [("MEMORY_CACHE.items", "weights kept in memory", "utils/memcache.py"), ("MatrixDb index", "loaded inventory index", "backends/db.py")],
  ["earthkit.regrid.array.regrid.regrid return value"])

p("C02", "Memory cache accounting is exact and its bound is never exceeded",
  "At every moment the statistics are reported, the reported memory use is the sum of the sizes of the matrices held and the reported count is their number; with the 'lru' and 'largest' policies the reported memory use is at most the configured maximum, with 'off' nothing is held, and with 'unlimited' every matrix loaded since the last clear or policy change is held. After a configuration change has returned, the new policy and maximum are in force and reported. This holds for every history and every interleaving of loads, failing loads, clears and configuration changes.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings of lookups, clears and policy/size/strict changes; loads that fail at any point",
  "Tests check the numbers after fixed sequential scripts with one or two matrices; no concurrent loads, no failing loads.",
  ["utils/memcache.py", "utils/matrix.py"],
  [("MemoryCache._reduce/update", "utils/memcache.py"), ("matrix_memory_size", "utils/matrix.py")],
  [("curr_mem", "bytes held", "utils/memcache.py")],
  ["memory_cache_info()"])

p("C03", "Memory cache evicts, counts and refuses as its policies document",
  "The memory cache behaves, for every history and as if concurrent calls happened one at a time, like a simple model: a lookup of held weights is one hit and a lookup that loads is one miss; room is made before or after a load only when needed, dropping the least recently used ('lru') or the biggest ('largest') matrix first and no more than needed to get below the limit; strict mode raises instead of loading weights that cannot fit and otherwise never raises. Clearing empties the cache and resets the counters.",
  ["schedules", "histories", "configurations"],
  "all histories of lookups, clears and configuration changes over matrices of different sizes; concurrent histories must be linearizable to the model",
  "Tests cover a handful of fixed sequences per policy and never check eviction order after re-use, nor concurrent histories.",
  ["utils/memcache.py"],
  [("LRUPolicy.reduce/LargestPolicy.reduce", "utils/memcache.py"), ("_create_with_pre_check", "utils/memcache.py")],
  [("items", "ordered map of held matrices", "utils/memcache.py")],
  ["memory_cache_info()", "loads of the matrix files"])

p("C04", "Concurrent requests for the same weights load them once and share them",
  "While the memory cache is enabled and large enough, any number of threads asking for the same weights cause exactly one load from the inventory, all get the right result, and later requests cause none until the weights are evicted or cleared. A load that fails is not remembered: the next request loads again and succeeds. No caller waits forever because another caller's load failed.",
  ["schedules", "fault_sequences"],
  "all interleavings of concurrent first requests, including loads failing at any point",
  "The tests have no concurrent callers and no failing loads.",
  ["utils/memcache.py", "backends/db.py"],
  [("MemoryCache.get under lock", "utils/memcache.py"), ("MatrixDb.load_matrix", "backends/db.py")],
  [],
  ["opens of matrix files", "memory_cache_info()"])

p("C05", "A cached file is never visible incomplete",
  "A path returned by the disk cache (cache policies 'user', 'temporary' and 'off') always holds the complete content its creator produced for that request, and no file is ever visible under a final cache name with partial content, at any instant and after any crash: creators that raise, processes killed at any point, full disks, short writes and truncated transfers never leave a partial file that a later request in this or another process returns. An error while creating is reported to the caller that asked.",
  ["crash_points", "fault_sequences", "schedules"],
  "all kill points, write errors, creator exceptions and interleavings of threads and processes sharing a cache directory",
  "Tests create files successfully in one process; no kill, disk error or second process is ever injected.",
  ["utils/caching.py", "utils/download.py"],
  [("cache_file: create to .tmp then rename under FileLock", "utils/caching.py"), ("download_and_cache", "utils/download.py")],
  [("cache directory", "files named owner-sha.ext", "utils/caching.py")],
  ["cache_file()/download_and_cache() return values", "the cache directory"])

p("C06", "Concurrent requests create each cached file exactly once",
  "For threads and processes sharing one cache directory, creators for the same cache key (owner, arguments, extra hash arguments, extension) never run at the same time, and once one has succeeded no other runs until the file is removed or a refresh is forced; all requests for the key return the same path with that content, and requests with different keys get different paths. The creator's returned metadata is what later requests and refresh decisions see.",
  ["schedules", "histories"],
  "all interleavings of threads and simulated processes requesting the same and different keys",
  "Tests never call the disk cache from two threads or processes at once.",
  ["utils/caching.py"],
  [("FileLock + re-check of existence", "utils/caching.py"), ("sha256 cache key", "utils/caching.py")],
  [("owner_data", "creator metadata per entry", "utils/caching.py")],
  ["creator invocations", "cache_file() return values"])

p("C07", "A failed or killed creation never poisons the cache",
  "After a creation or download has failed or its process was killed at any point, once faults stop the next request for the same or any other file, in the same or a new process, returns correct content within bounded time: no lock, partial file or catalogue record left behind makes later requests fail, hang or return wrong data. Leftovers do not disable the size limit or the reporting functions.",
  ["crash_points", "fault_sequences", "histories"],
  "all kill and failure points in creation, download and catalogue update, followed by retries in the same or a new session",
  "Tests never fail or kill a creation and then retry.",
  ["utils/caching.py", "utils/download.py", "backends/db.py"],
  [("FileLock released by kernel on death", "utils/caching.py"), ("_latest_date/_decache", "utils/caching.py"), ("resume_transfers", "utils/download.py")],
  [("size IS NULL rows", "creations in flight", "utils/caching.py")],
  ["next cache_file()/regrid() call", "cache.size()/entries()/summary_dump_database()"])

p("C08", "The cache catalogue agrees with the files it manages",
  "Whenever no request is in progress, every file created through the 'user' or 'temporary' cache and not removed since is listed once by the reporting functions with its owner, arguments, creator metadata and true size, the reported total is the sum of those sizes, and nothing listed is missing from disk; this survives restarting sessions and holds for several sessions sharing the directory. Re-requesting a file updates its access record but never its content, creation date or metadata.",
  ["histories", "schedules", "crash_points"],
  "all histories of requests, purges, evictions and restarts, in several threads and sessions",
  "Tests check sizes after one or two requests in one session.",
  ["utils/caching.py"],
  [("_register_cache_file/_update_entry", "utils/caching.py"), ("cache-2.db", "utils/caching.py")],
  [("cache table", "one row per cached file", "utils/caching.py")],
  ["cache.entries()", "cache.size()", "cache.summary_dump_database()"])

p("C09", "Cache limits are enforced, oldest access first, sparing files in use",
  "Once a request or configuration change has settled, the total size of the catalogued files is at most maximum-cache-size, except for what must be spared: the most recently created file and files whose creation (or a still running creation that started earlier) is in progress. Eviction removes least recently accessed files first, stops as soon as the limit is met, and nothing is evicted while the limits are not exceeded; a maximum-cache-disk-usage limit triggers the same eviction when the disk is fuller than it.",
  ["histories", "configurations", "schedules"],
  "all histories of creations and accesses of files of different sizes, limits, limit changes, disk fill levels and concurrent creations",
  "Tests set one limit once and check one number; order, in-flight sparing and later growth are not exercised.",
  ["utils/caching.py"],
  [("_check_cache_size/_decache/_latest_date", "utils/caching.py")],
  [("last_access, creation_date", "eviction order and protection", "utils/caching.py")],
  ["the cache directory", "cache.entries()", "cache.size()"])

p("C10", "Purging removes exactly what was asked and nothing else",
  "cache.purge(matcher=m) removes exactly the files and records whose entry satisfies m, and cache.purge() removes every finished entry; after it returns the removed entries are neither listed nor on disk and the others are intact. No cache operation (purge, eviction, refresh, housekeeping) ever deletes or modifies a file outside the cache directory, nor a file of a creation in progress by a live session.",
  ["histories", "schedules", "crash_points"],
  "all histories of creations, purges with matchers, evictions and housekeeping, with concurrent creations and orphan files left by killed sessions",
  "Tests purge once in a fixed state; concurrent creations and foreign files are not present.",
  ["utils/caching.py"],
  [("_purge_cache/_delete_entry", "utils/caching.py"), ("_ensure_in_cache", "utils/caching.py"), ("_housekeeping two-minute rule", "utils/caching.py")],
  [],
  ["the cache directory and its surroundings", "cache.entries()"])

p("C11", "Cache policies place files where they say and keep their lifetimes",
  "A file requested while policy P with directory D is in force is created in D: 'user' files persist and are found again by later sessions with the same directory, 'temporary' directories are private to a session and gone after it exits normally, and with 'off' every request yields its own new, uncatalogued file in one temporary directory that lives as long as the policy is in force. After a configuration change of policy or directory has returned, the directory, reports and new files follow it, also when other threads use the cache at the same time.",
  ["schedules", "histories", "configurations"],
  "all histories of policy and directory changes (permanent and temporary scopes) with concurrent cache use and session restarts",
  "Tests switch policies sequentially and never while another thread uses the cache.",
  ["utils/caching.py", "utils/temporary.py", "utils/config.py"],
  [("Cache.policy/_config_changed", "utils/caching.py"), ("NoCachePolicy/TmpCachePolicy.directory", "utils/caching.py"), ("TmpDirectory", "utils/temporary.py")],
  [("Cache._policy", "policy in force", "utils/caching.py")],
  ["cache.directory()", "cache_file() return values"])

p("C12", "Concurrent cache administration calls each get their own answer",
  "Any number of threads may call the cache's query, purge, size-check and file functions at the same time, also while the configuration changes: every call returns, with the result or the exception of its own request, never another's. A request that fails (bad matcher, database error, creator error) leaves the cache serving all later requests correctly.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of calls from several threads, including calls whose matcher or database statement raises",
  "Tests are single threaded; failing requests are not followed by others.",
  ["utils/caching.py"],
  [("CacheManager queue + Future", "utils/caching.py"), ("Cache._call_manager", "utils/caching.py")],
  [("queue", "requests to the manager thread", "utils/caching.py")],
  ["cache.entries()/size()/purge()/summary_dump_database()/check_size()"])

p("C13", "Only whole, published inventory data is ever used",
  "With a remote inventory, every lookup uses an index that is byte for byte one version the server published, and every matrix applied is exactly the published matrix, whatever the network does (lost connections, truncated or stalled transfers, error responses, missing length headers, refused or ignored range requests), however publishing of new versions interleaves with downloads, and wherever a process is killed. Corrupt or partial data is reported as an error or fetched again, never used or kept.",
  ["fault_sequences", "schedules", "crash_points"],
  "all sequences of network faults, republications, kills and concurrent sessions during index, checksum and matrix downloads",
  "Tests download from a healthy server or use local files; no network fault is ever injected.",
  ["backends/db.py", "utils/download.py", "utils/caching.py"],
  [("UrlAccessor._get_index/_create", "backends/db.py"), ("download_and_cache", "utils/download.py")],
  [("index.json cached copy", "decompressed index", "backends/db.py")],
  ["regrid results", "MatrixDb index", "cached files"])

p("C14", "Newly published matrices are found, also after failed checks",
  "A request for weights missing from the cached index checks the server's index and, if a matrix for it was published before the request, uses it in that same call; the check happens in a new session too. A check that fails because of the network raises an error and does not count: a later request in the same session checks again and finds the matrix once the server answers. A check that succeeded is not repeated for every later miss of the session.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of publications, requests, failed checks and restarts; concurrent requesters",
  "Tests update the index at most once with a healthy server.",
  ["backends/db.py"],
  [("MatrixDb.find_entry", "backends/db.py"), ("UrlAccessor._get_index/_compare_sha", "backends/db.py")],
  [("_checked_remote", "remote index was checked in this session", "backends/db.py")],
  ["regrid results", "requests seen by the server"])

p("C15", "Network trouble is retried, bounded in time, and never sticky",
  "A matrix download rides out up to four consecutive transient failures to connect or transient error responses before giving up; every request involving the network ends in bounded time with the right result or an exception, stalls being cut off by url-download-timeout. After any such failure, the next request made with a healthy network returns the right result.",
  ["fault_sequences", "histories"],
  "all sequences of connection errors, 5xx responses, resets, stalls and truncations, then healing; in bounded simulated time",
  "No test injects a network failure or measures time.",
  ["backends/db.py", "utils/download.py"],
  [("matrix_path maximum_retries/retry_after", "backends/db.py"), ("timeout from url-download-timeout", "utils/download.py")],
  [],
  ["regrid results and errors", "requests and simulated time seen by the server"])

p("C16", "What is cached is used offline and without further requests",
  "Once the index and a matrix of a remote inventory are in the user cache, every later request for it, in the same or any later session sharing the cache directory, returns the same result without any network request, even with the server down. Local inventories never cause a network request and are never modified, and nothing is downloaded twice while its cached copy is present and no check for a newer index is due.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of requests, memory-cache changes and restarts with the server up or down",
  "Tests do not count requests and never take the server down.",
  ["backends/db.py", "utils/caching.py", "utils/download.py"],
  [("UrlAccessor.index_path/matrix_path", "backends/db.py"), ("cache_file existing file", "utils/caching.py")],
  [],
  ["requests seen by the server", "regrid results"])

p("C17", "Saved configuration survives crashes and concurrent sessions",
  "At every instant the configuration file, read by a starting session, yields a complete configuration that some session saved (or the defaults if none ever did): a kill or disk error during a save, or a save by another session at the same moment, never yields a partial, empty or mixed configuration. With autosave on, a value whose setting call returned without a reported save error is what a later session reads, unless another save came after it; inside temporary scopes and while autosave is off nothing is written, and neither values of temporary scopes nor of environment variables ever are.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "all kill points and write errors during save, all interleavings of saving and starting sessions, all histories of set/reset/temporary/autosave/restart",
  "Tests save once and read back in one process; no kill, disk error or concurrent session.",
  ["utils/config.py"],
  [("save_config under FileLock", "utils/config.py"), ("_init_config_file/_init_config", "utils/config.py")],
  [("config.yaml", "persisted settings", "utils/config.py")],
  ["config.get() in a new session"])

p("C18", "Temporary configuration is always undone",
  "Inside a temporary configuration the given values are in force, on top of the surrounding ones, and leaving it, normally or by an exception raised inside it, by an observer or on entry, restores exactly the values in force before; scopes nest to any depth. Changes made inside a scope die with it, rejected values (unknown names, invalid values) change nothing, and environment variables win over every scope.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of nested scopes, set, reset and failing operations, with observers and operations that raise at any point",
  "Tests nest once or twice and never let an observer or the entry fail.",
  ["utils/config.py"],
  [("new_config/Config.temporary/forward", "utils/config.py")],
  [("_stack", "active temporary configurations", "utils/config.py")],
  ["config.get()", "caches' observable settings"])

p("C19", "Caches and observers always follow the configuration in force",
  "When a call that changes the configuration (set, reset, entering or leaving a temporary scope) has returned, every registered observer has been notified after the change, and the memory cache and the disk cache work with exactly the policy, limits and directories the configuration now yields, whatever other threads were doing with the caches or the configuration meanwhile. No configuration change deadlocks with cache use.",
  ["schedules", "histories", "configurations"],
  "all interleavings of configuration changes with memory-cache and disk-cache use from other threads",
  "Tests change the configuration with no other thread running.",
  ["utils/config.py", "utils/memcache.py", "utils/caching.py"],
  [("Config._notify/on_change", "utils/config.py"), ("MemoryCache.update", "utils/memcache.py"), ("Cache._config_changed", "utils/caching.py")],
  [],
  ["memory_cache_info()", "cache.directory()", "cache.policy", "config.get()"])

p("C20", "Chunked and lazy regridding equals regridding field by field",
  "Regridding an xarray object, eager or dask-chunked in any way along its non-geographic dimensions and computed by any number of workers in any order, gives for every field exactly the result of regridding that field alone, with the output grid's dimensions and coordinates. This holds for repeated and concurrent computations and while the memory cache is cleared or reconfigured.",
  ["schedules", "inputs", "configurations"],
  "all chunkings and all orders and interleavings of chunk computations across worker threads",
  "Tests compute one chunking with an uncontrolled scheduler and compare shapes and a few values.",
  ["data/xarray.py", "data/numpy.py", "utils/memcache.py", "backends/precomputed.py"],
  [("XarrayDataHandler.regrid", "data/xarray.py")],
  [],
  ["regrid() result after compute()"])

p("C21", "Interrupted, concurrent or corrupt additions never damage a matrix inventory",
  "Adding a matrix to a local inventory from a MIR matrix file (make_matrix) either completes, so that the index lists it and the stored weights equal those in the input, or fails leaving every entry that was there before usable with its matrix. At every moment, also after a kill or disk error at any point and while several processes add matrices, the index is readable, lists only matrices that are stored whole, and lists every entry it listed before; adding the matrix again after that succeeds. An input file that is truncated at any byte is rejected with an error, never converted into weights.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "all kill and write-error points and interleavings while matrices are added and read; all truncation points of the input",
  "No test builds an inventory or feeds a truncated file.",
  ["utils/builder.py", "utils/mir.py", "utils/stream.py"],
  [("make_matrix", "utils/builder.py"), ("mir_cached_matrix_to_file/mir_cached_matrix_to_array/Stream", "utils/mir.py")],
  [("index.json", "inventory index being extended", "utils/builder.py"), ("<name>.npz", "stored matrices", "utils/mir.py")],
  ["regrid() with the inventory", "index.json and the matrices it lists"])

p("C22", "Grid specifications match as documented",
  "Two grid specifications match exactly when they describe the same grid in the ways the documentation lists (aliases, defaults, global flags, shapes), and lookups find the first inventory entry that matches.",
  ["inputs"], "all pairs of grid specifications",
  "Pure function of its input: sampled by tests.", ["gridspec.py", "backends/db.py"],
  [("GridSpec.__eq__/from_dict", "gridspec.py")])

p("C23", "Human-readable sizes, percentages and durations parse as documented",
  "Every documented spelling of bytes, percentages and seconds in the configuration yields its documented value and every other spelling is rejected.",
  ["inputs"], "all strings", "Pure function of its input.", ["utils/humanize.py"],
  [("as_bytes/as_percent/as_seconds", "utils/humanize.py")])

p("C24", "MIR on-the-fly regridding passes all options on",
  "Regridding with the MIR backend gives what MIR gives for the same input, grids and options.",
  ["inputs", "configurations"], "all inputs and option combinations",
  "The numerical work is in the native MIR library.", ["backends/mir.py", "data/fieldlist.py", "data/grib.py"],
  [("MirBackend.regrid", "backends/mir.py")])

p("C25", "Matrices made by MIR are those of the coordinates given, output files whole",
  "mir_make_matrix gives exactly the matrix MIR makes for the grids, latitudes and longitudes and options given, whatever coordinates were used before and however similar, and however many threads and processes make matrices at the same time; a call interrupted or failed at any point does not make later calls fail or give another matrix. A .npz output file has at every moment either its previous content or a whole matrix asked for with that name; a failed job raises and leaves it alone.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "all kill and write-error points and interleavings of calls which share MIR's cache of coordinate files and output names",
  "The tests of this function need MIR and are skipped; none interrupts it or calls it at the same time.",
  ["utils/mir.py", "utils/stream.py"],
  [("mir_make_matrix", "utils/mir.py"), ("_griddef_from_latlon", "utils/mir.py")],
  [("<digest>.griddef", "coordinate files in MIR's cache directory", "utils/mir.py")],
  ["matrix returned or written"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, sch)
print(len(P), "properties")

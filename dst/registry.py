"""Which scenarios decide which property, and how many runs each tier makes."""

PROPS = {
    "C01": {"scenarios": [("mem", 1)], "runs": {"quick": 3000, "thorough": 40000},
            "rule": "at least four client calls and enough context switches to interleave them"},
    "C02": {"scenarios": [("mem", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C03": {"scenarios": [("mem", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C04": {"scenarios": [("mem", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C05": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C06": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C07": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C08": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C09": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C10": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C11": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C12": {"scenarios": [("disk", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C13": {"scenarios": [("net", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C14": {"scenarios": [("net", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C15": {"scenarios": [("net", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C16": {"scenarios": [("net", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C17": {"scenarios": [("conf", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C18": {"scenarios": [("conf", 1)], "runs": {"quick": 9000, "thorough": 40000}, "rule": ""},
    "C20": {"scenarios": [("xr", 1)], "optional": ["pandas", "xarray", "dask", "dask.array", "dask.threaded"], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C19": {"scenarios": [("conf", 1)], "runs": {"quick": 6000, "thorough": 40000}, "rule": ""},
    "C21": {"scenarios": [("build", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
    "C25": {"scenarios": [("build", 1)], "runs": {"quick": 3000, "thorough": 40000}, "rule": ""},
}

_CASE = ("A case is one simulated execution, a pure function of its plan, which is drawn from sha256(property:VERIF_SEED:index). "
         "Cases are distinct when their event logs differ (operations, results, times and context switches). Non-trivial: ")
RULES = {
    "mem": "at least four client calls, and more than three context switches per session unless the plan is a sequential one.",
    "disk": "at least four client calls and more than three context switches per session.",
    "net": "at least three HTTP requests reached the simulated server and at least three client calls were made.",
    "conf": "C17: at least two saves; C18: at least five calls; C19: at least four calls and four context switches.",
    "xr": "at least two regridding or computing calls succeeded.",
    "build": "C21: at least two additions; C25: at least two matrices made.",
}
_STUBS = "thread scheduling, locks, clocks, raw file writes (real files below), filelock.FileLock (flock model), os entropy"
STUBS = {
    "net": _STUBS + ", HTTP transport (requests adapter) and server",
    "disk": _STUBS + ", HTTP transport (requests adapter) and server, os.statvfs",
    "xr": _STUBS + ", mir.Grid, earthkit.data fields and field lists",
    "build": _STUBS + ", mir (Job, inputs, outputs, cache directory), whose matrices are a function of the inputs",
}
REAL = {
    "mem": "all earthkit.regrid modules, numpy, scipy.sparse, threading.Condition, queue, json, yaml",
    "disk": "all earthkit.regrid modules, sqlite3 on real files, tempfile, shutil, json, requests, urllib3, multiurl",
    "net": "all earthkit.regrid modules, sqlite3 on real files, requests, urllib3, multiurl, gzip, zipfile, numpy, scipy.sparse",
    "conf": "all earthkit.regrid modules, yaml, sqlite3 on real files, tempfile, shutil, numpy, scipy.sparse",
    "xr": "all earthkit.regrid modules, xarray, dask with its threaded scheduler and ThreadPoolExecutor, numpy, scipy.sparse",
    "build": "all earthkit.regrid modules, numpy, scipy.sparse, zipfile, json, yaml",
}
for _p in PROPS.values():
    _s = _p["scenarios"][0][0]
    _p["rule"] = _CASE + RULES[_s]
    _p["stubs"] = STUBS.get(_s, _STUBS)
    _p["real"] = REAL[_s] + " (modules of the package are executed from /repo/src)"

#!/usr/bin/env python3
"""Revert each "fix:" commit of /repo on a scratch copy and run the quick check of its property there.

    tools/reverts.py [-j SLOTS] [-w WORKERS] [COMMIT ...]

Prints one line per commit: the checks that report it, or that it no longer reverts by itself.
Works under /tmp/rv<pid>* and removes it. Not one of the registered checks.
"""
import argparse
import json
import os
import queue
import re
import shutil
import subprocess
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("-w", default="2")
ap.add_argument("commits", nargs="*")
a = ap.parse_args()
todo = []
for e in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e["what"])
    if m and (not a.commits or any(m.group(2).startswith(c) for c in a.commits)):
        todo.append(m.groups())
q = queue.Queue()
for t in todo:
    q.put(t)


def slot(n):
    base = f"/tmp/rv{os.getpid()}_{n}"
    while True:
        try:
            prop, commit, what = q.get_nowait()
        except queue.Empty:
            return
        shutil.rmtree(base, ignore_errors=True)
        shutil.copytree("/repo", base + "/repo", symlinks=True)
        r = subprocess.run(["git", "-C", base + "/repo", "revert", "-n", commit], capture_output=True, text=True)
        if r.returncode:
            print(f"{commit} {prop}: CONFLICT ({what})", flush=True)
        else:
            env = dict(os.environ, DST_REPO=base + "/repo", DST_REPLAYS=base + "/rp", DST_EVIDENCE=base + "/ev",
                       DST_WORKERS=a.w)
            o = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "dst", "check", prop], cwd=V, env=env,
                               capture_output=True, text=True)
            k = [x for x in o.stdout.splitlines() if x.startswith("# run")]
            print(f"{commit} {prop}: " + (f"reported ({k[0][2:110] if k else ''})" if o.returncode == 1 else
                                          f"NOT REPORTED rc={o.returncode}") + f" — {what}", flush=True)
        shutil.rmtree(base, ignore_errors=True)


ts = [threading.Thread(target=slot, args=(i,)) for i in range(a.j)]
for t in ts:
    t.start()
for t in ts:
    t.join()

"""make(...) writes seeded/<id>/: a patch from (file, old, new) edits, a demonstration and meta.json."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/w"], check=True)
        if True:
            for f, old, new in edits:
                p = os.path.join(tmp, "w", f)
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", tmp + "/w", "diff"], check=True, capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# exit 0: the property held; nonzero: broken. Works in a scratch directory of its own.\n'
        'here=$(cd "$(dirname "$0")" && pwd)\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\n'
        'mkdir -p "$work/home"\nexport HOME=$work/home PYTHONDONTWRITEBYTECODE=1 WORK=$work\n'
        'cd "$work" && timeout 200 /opt/venv/bin/python "$here/demo.py"\n')
    # check that removed lines are original ones
    orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    import re
    cur = None
    for line in diff.split("\n"):
        m = re.match(r"--- a/(.*)", line)
        if m:
            cur = m.group(1)
            base = subprocess.run(["git", "-C", "/repo", "show", f"{orig}:{cur}"], capture_output=True, text=True).stdout
        elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
            if line[1:].strip() not in [x.strip() for x in base.split("\n")]:
                print(id, "NOT ORIGINAL:", line)
    print(diff)

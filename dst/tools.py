"""Developer tools: run one plan, determinism self-test."""
import hashlib
import json
import os
import subprocess
import sys

from . import engine, seams, session, world


def _opt(a, k, d=None):
    return a[a.index(k) + 1] if k in a else d


def one(prop, i, a):
    from . import registry
    seams.install(registry.PROPS[prop].get("optional", ()))
    session.install_finder()
    base = int(os.environ.get("VERIF_SEED", "1"))
    plan = engine.make_plan(prop, base, i, _opt(a, "--tier", "quick"))
    if "--plan" in a:
        print(json.dumps(plan, indent=1))
    try:
        r = engine.run_plan(plan, keep_log=True)
    finally:
        world.drop_root()
    n = int(_opt(a, "--log", "40"))
    for line in r.log[-n:]:
        print("  ", line)
    d = r.as_dict()
    d.pop("dev")
    d.pop("sample")
    print(json.dumps(d, indent=1, default=str))
    return 0


def digests(prop, first, n, tier="quick", forked=False):
    from . import registry
    seams.install(registry.PROPS[prop].get("optional", ()))
    session.install_finder()
    out = []
    base = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if forked:          # as the workers of a campaign
            pid = os.fork()
            if pid:
                os.waitpid(pid, 0)
                os._exit(0)
        for i in range(first, first + n):
            r = engine.run_plan(engine.make_plan(prop, base, i, tier))
            out.append(f"{i}:{r.digest}:{r.outcome}:{len(r.violations)}")
    finally:
        world.drop_root()
    return out


def determinism(a):
    """The same seeds in a fresh process, in a forked one, and after different preceding runs."""
    from . import registry
    if "--emit" in a:
        k = a.index("--emit")
        for line in digests(a[k + 1], int(a[k + 2]), int(a[k + 3]), forked="--forked" in a):
            print(line, flush=True)
        return 0
    props = a or sorted(registry.PROPS)
    n = int(os.environ.get('DST_N', '12'))
    bad = 0
    for p in props:
        outs = []
        for forked, first in ((False, 0), (True, 0), (False, n // 2)):
            env = dict(os.environ, PYTHONHASHSEED="0")
            r = subprocess.run([sys.executable, "-B", "-m", "dst", "determinism", "--emit", p, str(first),
                                str(n - first)] + ["--forked"] * forked, env=env, cwd=engine.VERIF, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                print(p, "failed", r.stderr[-2000:])
                bad += 1
            outs.append(r.stdout.split())
        ok = outs[0] == outs[1] and outs[0][n // 2:] == outs[2]
        print(p, "deterministic" if ok else "NOT DETERMINISTIC", len(outs[0]))
        if not ok:
            bad += 1
            for x, y in zip(outs[0], outs[1]):
                if x != y:
                    print("   ", x, y)
            for x, y in zip(outs[0][n // 2:], outs[2]):
                if x != y:
                    print("   order", x, y)
    return 1 if bad else 0

"""Campaigns, minimisation, replay, evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
_rt = time.monotonic
_wall = time.time

from . import core, seams, session, world  # noqa: E402

SCENARIOS = {}


def props():
    from . import registry
    return registry.PROPS


def scenario(name):
    m = SCENARIOS.get(name)
    if m is None:
        m = importlib.import_module("dst.scen_" + name)
        SCENARIOS[name] = m
    return m


def seed_for(prop, base, i):
    h = hashlib.sha256(f"{prop}:{base}:{i}".encode()).digest()
    return struct.unpack(">Q", h[:8])[0] >> 16


def make_plan(prop, base, i, tier):
    from . import registry
    spec = registry.PROPS[prop]
    s = seed_for(prop, base, i)
    rng = random.Random(s)
    weights = spec["scenarios"]
    name = rng.choices([w[0] for w in weights], [w[1] for w in weights])[0]
    sc = scenario(name)
    plan = sc.gen(rng, prop, tier)
    plan["scenario"] = name
    plan["prop"] = prop
    plan["seed"] = s
    if "sched" not in plan:
        plan["sched"] = random_sched(rng)
    if "gran" not in plan:
        plan["gran"] = "line"
    return plan


def random_sched(rng, heavy=False):
    x = rng.random()
    if x < 0.2:
        return {"mode": "loc", "m": (m := rng.choice([5, 16, 50, 150])), "r": rng.randrange(m), "p": rng.choice([0.01, 0.001]),
                "seed": rng.getrandbits(32)}
    if x < 0.55:
        return {"mode": "rand", "p": rng.choice([0.3, 0.1, 0.03, 0.01, 0.003]), "seed": rng.getrandbits(32)}
    if x < 0.93:
        return {"mode": "pct", "d": rng.choice([1, 2, 3, 4, 6]), "n": rng.choice([500, 2000, 6000, 15000]),
                "seed": rng.getrandbits(32)}
    return {"mode": "serial"}


class Result:
    __slots__ = ("violations", "outcome", "detail", "steps", "switches", "simtime", "dev", "fired",
                 "digest", "ihash", "faults", "probes", "nontrivial", "sample", "log", "requests")

    def as_dict(self):
        return {k: getattr(self, k, None) for k in self.__slots__ if k not in ("log",)}


def run_plan(plan, keep_log=False):
    """Execute a plan; returns a Result. Pure function of the plan and the code under test."""
    plan = copy.deepcopy(plan)
    sc = scenario(plan["scenario"])
    gc.disable()
    w = sc.build(plan)
    sc.drive(w, plan)
    r = Result()
    r.violations = [list(v) for v in w.violations]
    if w.harness_error is not None and not w.violations:
        w.outcome, w.outcome_detail = "error", "HarnessError " + str(w.harness_error)
    r.outcome = w.outcome
    r.detail = w.outcome_detail
    if w.outcome in ("deadlock", "steps", "time"):
        hang = sc.hang_kind(w, plan) if hasattr(sc, "hang_kind") else None
        if hang is not False:
            r.violations.append([plan["prop"], "no-progress:" + w.outcome, w.norm(w.outcome_detail)[:1500]])
    r.steps, r.switches, r.simtime = w.step, w.switches, w.now()
    r.dev = w.sched.dev
    r.fired = w.faults.fired
    r.digest = w.digest()
    r.ihash = w.switch_hash
    fc = dict(w.fault_counts)
    for a in r.fired:
        if a[3].get("k") == "kill":
            k = "kill:" + a[1]
            fc[k] = fc.get(k, 0) + 1
    r.faults = fc
    r.probes = w.probes
    r.requests = len(w.server.requests) if w.server else 0
    r.nontrivial = bool(getattr(w, "nontrivial", w.switches > 5))
    r.sample = getattr(w, "sample", None)
    r.log = [w.norm(repr(x)) for x in w.log] if keep_log else None
    return r


# ------------------------------------------------------------------------------------ known

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def known_match(known, prop, v):
    import re
    for k in known:
        if k.get("status") == "fixed":
            continue
        if k["property"] == prop and re.fullmatch(k["kind"], v[1]) and re.search(k.get("detail", ""), v[2], re.S):
            return k
    return None


def unlisted(known, prop, vs):
    return [v for v in vs if v[0] == prop and known_match(known, prop, v) is None]


# ------------------------------------------------------------------------------------ workers

def _worker(wid, nworkers, prop, base, total, tier, fd, deadline, t0idx=0):
    out = os.fdopen(fd, "wb", buffering=0)

    def send(o):
        b = json.dumps(o).encode()
        out.write(struct.pack(">I", len(b)) + b)

    try:
        world.make_root()
        known = load_known()
        n = 0
        for i in range(t0idx + wid, total, nworkers):
            if _real_mono() > deadline:
                break
            send({"t": "start", "i": i})
            plan = make_plan(prop, base, i, tier)
            r = run_plan(plan)
            bad = unlisted(known, prop, r.violations)
            d = r.as_dict()
            d["fired"] = None if not bad else r.fired
            d["dev"] = None if not bad else r.dev
            d.update(t="run", i=i, scen=plan["scenario"], bad=bad, nops=_nops(plan))
            d["listed"] = len([v for v in r.violations if v[0] == prop]) - len(bad)
            if r.outcome == "error":
                send({"t": "error", "i": i, "detail": r.detail})
                return
            if bad:
                d["plan"] = plan
            send(d)
            if bad:
                break
            n += 1
            if n % 20 == 0:
                gc.collect()
        send({"t": "end"})
    except BaseException as e:  # noqa
        import traceback
        try:
            send({"t": "error", "i": -1, "detail": traceback.format_exc()[-3000:]})
        except Exception:
            pass
    finally:
        world.drop_root()
        os._exit(0)


def _real_mono():
    f = seams.real.get("time.monotonic", time.monotonic)
    return f()


def _nops(plan):
    n = 0
    for v in plan.get("threads", ()):
        n += len(v.get("ops", ()))
    return n


def campaign(prop, tier, base, total, time_cap, workers=None, stall=120):
    """Runs the campaign in forked workers. Returns (stats, first_bad or None, error or None)."""
    from . import registry
    seams.install(registry.PROPS[prop].get("optional", ()))
    session.install_finder()
    workers = workers or int(os.environ.get("DST_WORKERS", "8"))
    workers = max(1, min(workers, total))
    t0 = _real_mono()
    deadline = t0 + time_cap
    gc.collect()
    gc.freeze()
    ws = {}
    for k in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            for o in ws:
                os.close(o)
            os.close(r)
            _worker(k, workers, prop, base, total, tier, wfd, deadline)
            os._exit(0)
        os.close(wfd)
        ws[r] = {"pid": pid, "buf": b"", "last": _real_mono(), "i": None}
    st = Stats()
    bad, err = [], None
    stop = False
    while ws:
        rl, _, _ = select.select(list(ws), [], [], 1.0)
        now = _real_mono()
        for fd in rl:
            b = os.read(fd, 1 << 16)
            w = ws[fd]
            w["last"] = now
            if not b:
                os.close(fd)
                _, status = os.waitpid(w["pid"], 0)
                if not w.get("ended") and not stop:
                    err = err or f"worker died (status {status}) in run {w['i']}"
                del ws[fd]
                continue
            w["buf"] += b
            while len(w["buf"]) >= 4:
                n = struct.unpack(">I", w["buf"][:4])[0]
                if len(w["buf"]) < 4 + n:
                    break
                m = json.loads(w["buf"][4:4 + n])
                w["buf"] = w["buf"][4 + n:]
                if m["t"] == "start":
                    w["i"] = m["i"]
                elif m["t"] == "error":
                    err = err or f"harness error in run {m['i']}: {m['detail']}"
                    w["ended"] = True
                elif m["t"] == "end":
                    w["ended"] = True
                else:
                    st.add(m)
                    if m["bad"]:
                        bad.append(m)
        for fd, w in list(ws.items()):
            if now - w["last"] > stall:
                err = err or f"run {w['i']} stalled in real time"
                stop = True
        if (bad or err) and not stop:
            stop = True
        if stop:
            for fd, w in list(ws.items()):
                try:
                    os.kill(w["pid"], signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(w["pid"], 0)
                os.close(fd)
                # its scratch root
                world._real_rmtree(os.path.join(world.scratch_base(), "dst%08d" % w["pid"]))
                del ws[fd]
    st.wall = _real_mono() - t0
    bad.sort(key=lambda m: m["i"])
    return st, (bad[0] if bad else None), err


class Stats:
    def __init__(self):
        self.runs = self.steps = self.switches = 0
        self.simtime = 0.0
        self.faults = {}
        self.probes = {}
        self.inter = set()
        self.digests = set()
        self.scen = {}
        self.nontrivial = set()
        self.samples = []
        self.outcomes = {}
        self.listed = 0
        self.requests = 0
        self.ops = 0
        self.wall = 0

    def add(self, m):
        self.runs += 1
        self.steps += m["steps"]
        self.switches += m["switches"]
        self.simtime += m["simtime"]
        self.requests += m.get("requests") or 0
        self.ops += m.get("nops") or 0
        for k, v in (m["faults"] or {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in (m["probes"] or {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.inter.add(m["ihash"])
        self.digests.add(m["digest"])
        self.scen[m["scen"]] = self.scen.get(m["scen"], 0) + 1
        if m["nontrivial"]:
            self.nontrivial.add(m["digest"])
        self.outcomes[m["outcome"]] = self.outcomes.get(m["outcome"], 0) + 1
        self.listed += m.get("listed") or 0
        if m.get("sample") and len(self.samples) < 3:
            self.samples.append(m["sample"])


# ------------------------------------------------------------------------------------ minimise

def _explicit(plan, r):
    p = json.loads(json.dumps(plan))
    p["sched"] = {"mode": "trace", "dev": [list(x) for x in r.dev]}
    f = dict(p.get("faults") or {})
    p["faults"] = {"only_explicit": True, "list": [list(x) for x in r.fired],
                   **{k: v for k, v in f.items() if k not in ("rates", "list", "max", "only_explicit")}}
    return p


def _same(r, prop, kind, known):
    for v in unlisted(known, prop, r.violations):
        if v[1] == kind:
            return v
    return None


def minimise(plan, prop, kind, known, budget=45.0):
    """Shrink operations, faults and schedule deviations while the same kind of violation of the
    same property persists. Returns an explicit plan."""
    t_end = _real_mono() + budget
    r = run_plan(plan)
    if not _same(r, prop, kind, known):
        return None
    best, bestr = _explicit(plan, r), r
    r2 = run_plan(best)
    if not _same(r2, prop, kind, known):
        # keep the generating form; still an exact replay
        return plan
    bestr = r2

    def attempt(p):
        nonlocal best, bestr
        if _real_mono() > t_end:
            return False
        try:
            rr = run_plan(p)
        except core.HarnessError:
            return False
        if _same(rr, prop, kind, known):
            best = _explicit(p, rr)
            bestr = rr
            return True
        return False

    # 1. operations
    changed = True
    while changed and _real_mono() < t_end:
        changed = False
        for ti in range(len(best.get("threads", ())) - 1, -1, -1):
            ops = best["threads"][ti]["ops"]
            n = len(ops)
            size = n
            while size >= 1 and _real_mono() < t_end:
                k = 0
                while k < len(best["threads"][ti]["ops"]):
                    p = json.loads(json.dumps(best))
                    del p["threads"][ti]["ops"][k:k + size]
                    if len(p["threads"][ti]["ops"]) == len(best["threads"][ti]["ops"]):
                        break
                    ok = attempt(p)
                    if not ok:
                        # the schedule is addressed by step: try a few fresh schedules
                        for s in range(3):
                            q = json.loads(json.dumps(p))
                            q["sched"] = {"mode": "rand", "p": [0.05, 0.3, 0.01][s], "seed": s}
                            if attempt(q):
                                ok = True
                                break
                            if _real_mono() > t_end:
                                break
                    if ok:
                        changed = True
                    else:
                        k += size
                    if _real_mono() > t_end:
                        break
                size //= 2
        # 2. faults
        k = 0
        while k < len(best["faults"].get("list", ())) and _real_mono() < t_end:
            p = json.loads(json.dumps(best))
            del p["faults"]["list"][k]
            if attempt(p):
                changed = True
            else:
                k += 1
    # 3. schedule
    size = max(1, len(best["sched"].get("dev", ())) // 2)
    while size >= 1 and _real_mono() < t_end:
        k = 0
        while k < len(best["sched"]["dev"]) and _real_mono() < t_end:
            p = json.loads(json.dumps(best))
            n0 = len(p["sched"]["dev"])
            del p["sched"]["dev"][k:k + size]
            if attempt(p) and len(best["sched"]["dev"]) < n0:
                pass
            else:
                k += size
        size //= 2
    return best


# ------------------------------------------------------------------------------------ commands

def replay_dir():
    d = os.environ.get("DST_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def cmd_replay(path, verbose=True):
    with open(path) as f:
        rep = json.load(f)
    plan = rep["plan"]
    from . import registry
    seams.install(registry.PROPS[rep["property"]].get("optional", ()))
    session.install_finder()
    try:
        r = run_plan(plan, keep_log=verbose)
    finally:
        world.drop_root()
    known = load_known()
    v = [x for x in r.violations if x[0] == rep["property"]]
    same = [x for x in v if x[1] == rep["kind"]]
    if verbose and r.log:
        for line in r.log[-int(os.environ.get("DST_LOG", "60")):]:
            print("   ", line)
    if same:
        print(f"REPRODUCED property={rep['property']} kind={same[0][1]}")
        print("   ", same[0][2][:3000])
        print("    digest", r.digest)
        return 1
    print(f"NOT REPRODUCED property={rep['property']} (violations: {[(x[0], x[1]) for x in r.violations]}, "
          f"outcome {r.outcome})")
    if r.outcome == "error":
        print(r.detail)
        return 2
    return 0


def write_replay(prop, kind, detail, plan, seed, i):
    b = json.dumps(plan, sort_keys=True).encode()
    path = os.path.join(replay_dir(), f"{prop}-{hashlib.sha256(b).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": kind, "detail": detail, "verif_seed": seed, "run": i,
                   "plan_seed": plan.get("seed"), "plan": plan}, f, indent=1)
    return path


def _sub_minimise(plan, prop, kind, budget):
    """Minimise in a forked child, so that a crash there loses nothing."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            world._root = None
            p = minimise(plan, prop, kind, load_known(), budget)
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(p).encode())
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            world.drop_root()
            os._exit(code)
    os.close(w)
    data = b""
    t_end = _real_mono() + budget * 2 + 30
    while True:
        rl, _, _ = select.select([r], [], [], 1.0)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        elif _real_mono() > t_end:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except Exception:
        return None


def cmd_check(prop, tier, seed, total=None, time_cap=None):
    from . import registry
    spec = registry.PROPS[prop]
    t0 = _real_mono()
    if total is None:
        total = spec["runs"][tier]
    if time_cap is None:
        time_cap = spec.get("cap", {}).get(tier, 300 if tier == "quick" else 3000)
    known = [k for k in load_known() if k["property"] == prop and k.get("status") != "fixed"]
    st, bad, err = campaign(prop, tier, seed, total, time_cap)
    viol = 1 if bad else 0
    write_evidence(prop, tier, seed, st, _real_mono() - t0, viol, spec, bad)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad:
        v = bad["bad"][0]
        plan = bad["plan"]
        budget = 40.0 if tier == "quick" else 240.0
        small = _sub_minimise(plan, prop, v[1], budget)
        path = None
        for cand in (small, plan):
            if cand is None:
                continue
            path = write_replay(prop, v[1], v[2], cand, seed, bad["i"])
            rc = subprocess.run([sys.executable, "-m", "dst", "replay", "-q", path], cwd=VERIF,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if rc.returncode == 1:
                print(f"# run {bad['i']} seed {plan['seed']} scenario {plan['scenario']}: {v[1]}")
                print("# " + v[2][:1500].replace("\n", "\n# "))
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            path = None
        print(f"harness error: violation {v} of run {bad['i']} did not reproduce: {rc.stdout[-2000:]}")
        return 2
    if err:
        print("harness error: " + err)
        return 2
    if st.runs == 0:
        print("harness error: no run completed")
        return 2
    print(f"{prop}: held on {st.runs} simulated runs ({st.wall:.1f} s, {len(st.inter)} interleavings, "
          f"{sum(st.faults.values())} faults, {st.simtime:.0f} s simulated)")
    return 0


def write_evidence(prop, tier, seed, st, wall, viol, spec, bad):
    d = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": spec.get("rule", ""),
        "samples": st.samples or ([bad["plan"]] if bad else [{"note": "no run completed"}]),
        "simulated_runs": st.runs,
        "runs_per_hour": round(st.runs / max(st.wall, 1e-9) * 3600),
        "seeds": {"base": seed, "derived": "sha256(property:VERIF_SEED:run index)", "count": st.runs},
        "simulated_seconds": round(st.simtime, 3),
        "scheduler_steps": st.steps,
        "context_switches": st.switches,
        "operations": st.ops,
        "distinct_interleavings": len(st.inter),
        "distinct_interleavings_measure": "hash of the sequence of (thread, step) at every context switch",
        "distinct_event_logs": len(st.digests),
        "faults_injected": dict(sorted(st.faults.items())),
        "probes": dict(sorted(st.probes.items())),
        "scenarios": st.scen,
        "outcomes": st.outcomes,
        "simulated_http_requests": st.requests,
        "known_finding_hits": st.listed,
        "real_code": spec.get("real", "all earthkit.regrid modules from /repo/src, numpy, scipy, sqlite3, requests, "
                              "urllib3, multiurl, yaml, tempfile, shutil, gzip, zipfile, threading.Condition"),
        "stubs": spec.get("stubs", "thread scheduling, locks, clocks, raw file writes (real files below), "
                          "filelock.FileLock (flock model), HTTP transport (requests adapter), os entropy"),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", [
              "process kills lose buffered data but not completed writes (no power failure)",
              "preemption points are source lines / bytecode instructions of repository code and every seam",
          ]),
          "wall_s": round(wall, 2), "violations": viol}
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

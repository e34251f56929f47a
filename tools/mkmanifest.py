"""Writes MANIFEST.json from dst/registry.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import registry  # noqa

TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, {}"
TRUST = ("Seeded exploration of the real package code in a simulated process environment: every run is a pure function "
         "of its seed. It assumes kills lose no completed write (no power failure), that thread switches happen at "
         "source lines / bytecode instructions of the package and at every lock, file, database, network and clock "
         "operation, and that the stand-ins for flock, the clock and the HTTP transport are faithful. ")

NA = {
    "C22": "Pure function of its arguments (grid specification matching): no concurrency, time, I/O or multi-party "
           "behaviour for a simulator to control.",
    "C23": "Pure function of its arguments (parsing of sizes, percentages and durations): nothing a schedule or a "
           "fault can influence.",
    "C24": "The MIR backend needs the mir package, which is not installed here, and the property is about argument "
           "passing in a single synchronous call: no schedule, fault or history it could depend on.",
}

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    spec = registry.PROPS.get(p)
    if spec is None:
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
        continue
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "technique": TECH.format(spec.get("oracle", "reference model")), "level": "exploration",
                   "level_note": TRUST + spec.get("note", "")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is taken by patching the standard library inside the harness."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

"""tools/addfix.py PROP 'commit subject part' 'what failed': records a repaired defect."""
import json
import subprocess
import sys

prop, sub, what = sys.argv[1:]
F = "/verif/known_findings.json"
kf = json.load(open(F))
log = {x.split(" ", 1)[1]: x.split()[0] for x in
       subprocess.check_output(["git", "-C", "/repo", "log", "--oneline"], text=True).splitlines()}
h = [v for k, v in log.items() if sub in k]
assert len(h) == 1, h
kf["findings"].append({"property": prop, "kind": "", "detail": "", "status": "fixed",
                       "what": f"fixed: property={prop} {h[0]} {what}"})
open(F, "w").write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(f) for f in kf["findings"]) + "\n ]\n}\n")

#!/bin/bash
# seedtest.sh ID [check...]: in a scratch copy of /repo, apply seeded/ID/patch.diff, run demo before and
# after, the stable tests, and the property's quick check against the copy. Nothing in /repo changes.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/sc/$id
rm -rf "$S" "$S.py" "$S.demo" "$S.rp"; mkdir -p /tmp/sc "$S.py" "$S.demo" "$S.rp"
cp -a /repo "$S"
sed "s#/repo/#$S/#" /opt/venv/lib/python3.12/site-packages/__editable___earthkit_regrid_0_6_0_finder.py > "$S.py/__editable___earthkit_regrid_0_6_0_finder.py"
cp "$V/seeded/$id/"* "$S.demo/"; rm -f "$S.demo/patch.diff" "$S.demo/meta.json"
export PYTHONDONTWRITEBYTECODE=1
prop=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")
demo() { (cd "$S" && PYTHONPATH=$S.py HOME=$S.demo timeout 300 bash "$S.demo/demo.sh" > "$S.demo/out.$1" 2>&1); echo "$id demo $1: exit $?"; }
demo clean
(cd "$S" && git apply "$V/seeded/$id/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
find "$S" -name __pycache__ -prune -exec rm -rf {} +
demo patched
if [ -z "$NOTESTS" ]; then
sed "s#/repo#$S#g" /opt/vp/test.sh > "$S.py/test.sh"
PYTHONPATH=$S.py bash "$S.py/test.sh" "$S.py/out.json" > "$S.py/test.log" 2>&1
/opt/venv/bin/python - "$S.py/out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); st=set(b['stable'])
r=json.load(open(sys.argv[1])); p=set(r['passed'])
print(sys.argv[2],"stable tests passed", len(st&p), "of", len(st), sorted(st-p)[:5])
P
fi
for c in ${@:-$prop}; do
  (cd "$V" && DST_REPO=$S DST_REPLAYS=$S.rp DST_EVIDENCE=$S.rp /opt/venv/bin/python -B -m dst check $c 2>&1 | cut -c1-300 | grep -v '^#   ' | tail -3 | sed "s/^/$id check $c: /")
done
rm -rf "$S" "$S.py"

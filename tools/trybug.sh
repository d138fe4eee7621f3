#!/bin/bash
# tools/trybug.sh <seeded id> [notest]: apply a planted bug to /repo, run its demo, the stable tests and the check; undo it
here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "/repo is dirty"; exit 2; }
bash "$d/demo.sh" >/tmp/demo0.log 2>&1; echo "demo unchanged: $?"
git apply "$d/patch.diff" || exit 2
bash "$d/demo.sh" >/tmp/demo1.log 2>&1; echo "demo patched: $?"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
names=b.get('stable') or b.get('passed') or b.get('tests') or b
p=set(r.get('passed',[]))
miss=[x for x in names if x not in p]
print('tests: missing', len(miss), miss[:3])
P
fi
(cd "$here"; bin/check $prop >/tmp/tb.check; echo "check rc $?"; grep -m1 VIOLATION /tmp/tb.check; tail -1 /tmp/tb.check)
git checkout -q -- .
git status --short | head -3

#!/bin/bash
# tryseed.sh ID [check...]: applies a planted bug to /repo, builds, runs demo and checks (default: its property), undoes it
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
if [ -z "${NODEMO:-}" ]; then bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo unchanged: $?"; fi
git apply $d/patch.diff || exit 1
if [ -z "${NODEMO:-}" ]; then bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $? $(tail -1 /tmp/demo.out | head -c 200)"; fi
if [ -n "${TESTS:-}" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
base=b.get('passed') or b.get('stable') or b
print("tests:", {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
fi
cd /verif
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  timeout 900 ./check $c 2>&1 | grep -E "refuted|VIOLATION|^C[0-9]+:|cannot|undecided" | cut -c1-${W:-420} | tail -${LINES_MAX:-6}
done
git -C /repo checkout -q -- .

#!/bin/bash
# seedtest.sh ID...: confirm planted bugs: demo passes clean / fails patched, tests pass, which check catches it
cd /repo || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  bash $d/demo.sh >/tmp/seed_demo.log 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/seed_demo2.log 2>&1; p=$?
  t="skipped"
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed_tests.json >/dev/null 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_tests.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print('ok' if not m else 'FAIL '+str(sorted(m))[:300])
P
)
  fi
  ( cd /verif; ./check.py $prop > /tmp/seed_check.log 2>&1 ); k=$?
  git checkout -q -- .
  echo "$id prop=$prop demo_clean=$c demo_patched=$p tests=$t check_rc=$k $(grep -c VIOLATION /tmp/seed_check.log) $(grep '^\[' /tmp/seed_check.log | cut -c1-150 | head -3)"
done

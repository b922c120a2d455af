#!/bin/bash
# development tool: validate planted bugs (ids as arguments): demo passes clean, fails patched, tests pass patched, check result
# usage: seedtest.sh [-n] id...   (-n: skip the test suite)
SK=0; [ "$1" = "-n" ] && { SK=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  cd /repo
  git diff --quiet || { echo "repo dirty"; exit 2; }
  export PYTHONDONTWRITEBYTECODE=1 HOME=/root JAX_PLATFORMS=cpu
  bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
  t=skipped
  if [ $SK = 0 ]; then bash /opt/vp/test.sh /tmp/o_$id.json >/dev/null 2>&1; t=$(python3 -c "
import json;o=json.load(open('/tmp/o_$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('tests-ok' if not set(b)-set(o['passed']) else 'TESTS-FAIL '+str(sorted(set(b)-set(o['passed']))[:3]))"); fi
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash /verif/bin/check $p quick >/tmp/chk_$id.log 2>&1; c=$?; e=$(date +%s)
  git checkout -- .
  [ $c = 1 ] && grep -q "VIOLATION property=$p" /tmp/chk_$id.log && r=CAUGHT || r=MISSED
  echo "$id: demo clean=$a patched=$b $t check rc=$c $r ($((e-s))s)"
done

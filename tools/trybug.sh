#!/bin/bash
# trybug.sh ID...: for each planted bug: demo on the clean tree, then with the patch build, stable tests, demo, and its check
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 1; }
  if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh >/tmp/demo0.log 2>&1; c0=$?; fi
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
  bash /opt/vp/build.sh >/tmp/bb.log 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
  tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in (True,'pass','passed','ok')}
    return set()
print('missing:%s'%sorted(names(b)-names(t))[:3])
P
)
  bash $d/demo.sh >/tmp/demo1.log 2>&1; c1=$?
  fi
  cd /verif; python3 check.py $p > /tmp/chk_$id.log 2>&1; rc=$?
  echo "$id $p build=$rb $tests demo clean=$c0 bug=$c1 check=$rc: $(grep VIOLATION /tmp/chk_$id.log) $(grep -c 'failed' /tmp/chk_$id.log)"
  git -C /repo checkout -q -- .
done

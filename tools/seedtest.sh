#!/bin/bash
# seedtest.sh ID...: confirms planted changes: demo passes clean, fails patched,
# and the stable tests pass with the patch. Works on /repo and undoes it.
cd /verif/seeded
. /opt/vp/env.sh
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id
  git -C /repo apply --check $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash $D/demo.sh >/tmp/seed.clean.log 2>&1); c=$?
  git -C /repo apply $D/patch.diff
  bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if isinstance(x,dict) and k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in (True,'pass','passed'))
    return set(x)
m=names(b)-names(r); print(len(m), sorted(m)[:3])
P
)
  (cd /repo && bash $D/demo.sh >/tmp/seed.bad.log 2>&1); d=$?
  git -C /repo checkout -q -- .
  echo "$id: clean=$c build=$b missing-tests=$t patched-demo=$d"
  [ $c != 0 ] && tail -5 /tmp/seed.clean.log
  [ $d = 0 ] && tail -5 /tmp/seed.bad.log
done
bash /opt/vp/build.sh >/dev/null 2>&1

#!/bin/bash
# seedcatch.sh ID...: runs the check of each planted change's property against
# it and prints what was reported. Works on /repo and undoes it.
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || continue
  s=$(date +%s)
  bash /verif/tools/check.sh $P >/tmp/seedcatch.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $P exit=$rc $(($(date +%s)-s))s viol=$(grep -c '^VIOLATION' /tmp/seedcatch.log) noinput=$(grep -c 'no-failing-input' /tmp/seedcatch.log) :: $(grep '^#' /tmp/seedcatch.log | head -1 | cut -c1-170)"
done

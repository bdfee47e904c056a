#!/bin/bash
# try.sh ID...: applies /verif/seeded/<id>/patch.diff to /repo, runs the check of its property, undoes the change
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): exit $rc: $(echo "$out" | grep VIOLATION | head -3 | tr '\n' ' ')"
done

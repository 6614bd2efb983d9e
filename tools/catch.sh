#!/bin/bash
# catch.sh ID...: runs the check of a planted change's property against it.
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: no apply"; continue; }
  /verif/check $p > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ($p): exit $rc; $(grep -c '^failed obligation' /tmp/catch.out) obligations; $(grep '^VIOLATION' /tmp/catch.out)"
  grep '^failing input' /tmp/catch.out | cut -c1-200
  grep '^failed obligation' /tmp/catch.out | head -4
done

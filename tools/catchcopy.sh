#!/bin/bash
# catchcopy.sh ID...: like catch.sh, on copies of /repo and /verif under /tmp, so that neither is touched.
v=/tmp/vcopy.$$
mkdir -p $v
cp -a /verif/build /verif/check /verif/contracts /verif/govc /verif/rac /verif/harness /verif/*.txt /verif/*.json* $v/ 2>/dev/null
mkdir -p $v/evidence
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=/tmp/catchwt.$$
  git clone -q /repo $w
  git -C $w apply $d/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s)
  VERIF_REPO=$w $v/check $p > /tmp/catch.$$.out 2>&1; rc=$?
  e=$(date +%s)
  echo "$id ($p): exit $rc in $((e-s)) s; $(grep -c '^failed obligation' /tmp/catch.$$.out) obligations; $(grep '^VIOLATION' /tmp/catch.$$.out)"
  grep '^failing input' /tmp/catch.$$.out | cut -c1-200
  grep '^failed obligation' /tmp/catch.$$.out | head -4
  [ $rc != 1 ] && tail -3 /tmp/catch.$$.out
  rm -rf "/tmp/catchwt.$$"
done
rm -rf "/tmp/vcopy.$$"

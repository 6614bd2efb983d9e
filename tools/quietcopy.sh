#!/bin/bash
# quietcopy.sh ID...: runs the checks listed in refactor/ID.props against a copy of /repo with refactor/ID.diff, which
# keeps the behaviour: each has to exit 0.
v=/tmp/qcopy.$$
mkdir -p $v/evidence
cp -a /verif/build /verif/check /verif/contracts /verif/govc /verif/rac /verif/harness /verif/*.txt /verif/*.json* $v/
for id in "$@"; do
  w=/tmp/qrepo.$$
  git clone -q /repo $w
  git -C $w apply /verif/refactor/$id.diff || { echo "$id: no apply"; rm -rf "/tmp/qrepo.$$"; continue; }
  for p in ${PROPS:-$(cat /verif/refactor/$id.props)}; do
    s=$(date +%s)
    VERIF_REPO=$w $v/check $p > /tmp/quiet.$$.out 2>&1; rc=$?
    echo "$id $p: exit $rc in $(( $(date +%s)-s )) s $(grep '^VIOLATION' /tmp/quiet.$$.out)"
    grep -E '^failing input|^failed obligation' /tmp/quiet.$$.out | cut -c1-200 | head -6
  done
  rm -rf "/tmp/qrepo.$$"
done
rm -rf "/tmp/qcopy.$$" "/tmp/quiet.$$.out"

#!/bin/bash
# mkseed.sh ID: takes the uncommitted change in /repo as the planted change ID and reverts it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo.sh $d/demo.sh
wc -l $d/patch.diff

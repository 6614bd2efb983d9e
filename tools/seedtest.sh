#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy: builds, existing tests pass, the demonstration fails with it and passes without.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOCACHE=/root/.cache/go-build
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedwt.$$
  cp -a /repo $w
  cd $w
  a=$(bash $d/demo.sh >/tmp/seed.out 2>&1; echo $?)
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "/tmp/seedwt.$$"; continue; }
  go build ./... > /tmp/seed.b 2>&1; b=$?
  go vet . >/dev/null 2>&1
  go test ./... > /tmp/seed.t 2>&1; t=$?
  c=$(bash $d/demo.sh >/tmp/seed.out2 2>&1; echo $?)
  echo "$id: demo-clean=$a build=$b tests=$t demo-patched=$c"
  [ $t != 0 ] && grep -E "^\s*--- FAIL|panic" /tmp/seed.t | head -5
  cd /; rm -rf "/tmp/seedwt.$$"
done

#!/bin/bash
# Builds the verifier from the committed files, offline.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/govc/env.sh"
export GOFLAGS="-mod=mod -buildvcs=false" HOME=${HOME:-/root}
mkdir -p "$here/build"
(cd "$here/govc" && go build -o "$here/build/govc" .)
bash "$here/rac/build.sh" /repo "$here/build/rac.warm" && rm -f "$here/build/rac.warm"

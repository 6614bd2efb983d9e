#!/bin/bash
# build.sh REPO OUT [-race]: builds the runtime contract driver against REPO's current working tree, offline.
set -e
repo=${1:-/repo}; out=${2:-/tmp/rac}; RAC_RACE=$3
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/racbuild.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMCHECK=1 GONOSUMDB='*' GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
sed -e 's|^module .*|module verif/rac|' "$repo/go.mod" > "$tmp/go.mod"
printf '\nrequire github.com/greenpau/go-identity v0.0.0\nreplace github.com/greenpau/go-identity => %s\n' "$repo" >> "$tmp/go.mod"
cp "$repo/go.sum" "$tmp/go.sum"
cd "$here"
[ -z "$RAC_RACE" ] || export CGO_ENABLED=1
go build $RAC_RACE -modfile="$tmp/go.mod" -o "$out" .

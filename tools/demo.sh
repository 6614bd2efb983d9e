#!/bin/bash
# Run in the repository after its build: exit 0 when the demonstration passes.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
ov=$(mktemp) || exit 1
trap 'rm -f "$ov"' EXIT
pkg=.
[ -f "$here/pkg" ] && pkg=$(cat "$here/pkg")
printf '{"Replace":{"%s/%s/zz_demo_verif_test.go":"%s/demo_test.go"}}' "$PWD" "$pkg" "$here" > "$ov"
go test -vet=off -overlay "$ov" -run '^TestDemo$' -count=1 "./$pkg"

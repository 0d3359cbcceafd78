#!/bin/bash
# Runs the demonstration beside this script against the tree in the current
# directory. Exit 0: the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go","%s/zz_demo/lib.go":"%s/lib.go"}}' "$PWD" "$here" "$PWD" "$here" > "$w/o.json"
go build RACE-overlay "$w/o.json" -o "$w/demo" ./zz_demo || exit 3
TMPDIR=$w timeout 120 "$w/demo"

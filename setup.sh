#!/bin/bash
# Warms the build cache: the checks build everything again from /repo's tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 1
out=$(mktemp -d) || exit 1
trap 'rm -rf "$out"' EXIT
go build -o "$out/h" . && go build -race -o "$out/hr" . && go build -o "$out/s" github.com/dragmz/teal/cmd/tealsarif && go build -o "$out/l" github.com/dragmz/teal/cmd/tealsp && go build -o "$out/g" github.com/dragmz/teal/cmd/tealdbg && for t in tokenize lint interpret; do go build -o "$out/t" github.com/dragmz/teal/debug/$t || exit 1; done

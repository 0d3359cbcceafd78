#!/bin/bash
# check.sh <property>: builds the monitors together with /repo's working tree
# and runs the check of one property. Exit 0 held, 1 VIOLATION, other: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
[ -n "$id" ] || { echo "usage: check.sh <property>" >&2; exit 2; }
work=$(mktemp -d /tmp/verif-check-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
race=
case "$id" in T02) race=-race ;; esac
cd "$here/harness" || exit 2
go build $race -o "$work/harness" . || { echo "ERROR: the harness does not build against /repo"; exit 2; }
case "$id" in
R01) go build -o "$work/tealsarif" github.com/dragmz/teal/cmd/tealsarif || exit 2 ;;
C01) for t in tokenize lint interpret; do go build -o "$work/$t" github.com/dragmz/teal/debug/$t || exit 2; done ;;
J02) go build -o "$work/tealsp" github.com/dragmz/teal/cmd/tealsp || exit 2 ;;
K01) go build -o "$work/tealsp" github.com/dragmz/teal/cmd/tealsp && go build -o "$work/tealdbg" github.com/dragmz/teal/cmd/tealdbg || exit 2 ;;
esac
mkdir "$work/tmp"
export VERIF_BIN=$work TMPDIR=$work/tmp
"$work/harness" run "$id"

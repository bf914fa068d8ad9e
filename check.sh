#!/bin/bash
# check.sh ID [REPLAY.json]: builds the harness against /repo's current tree and runs one check.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [REPLAY.json]}
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset VERIF_CHILD
race=
case $id in C16) race=-race ;; esac
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/harness" && go build $race -o "$bin/harness" . >"$bin/log" 2>&1); then
	cat "$bin/log"
	echo "INCONCLUSIVE: the harness does not build against /repo"
	exit 2
fi
"$bin/harness" "$here" "$@"
exit $?

#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
# Builds the monitors against /repo's working tree and runs one property.
# Exit 0: held on everything explored. Exit 1: VIOLATION lines on stdout.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
unset GOROOT GODEBUG GOMAXPROCS GOEXPERIMENT
scratch=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR=$scratch
flags=()
case $id in C20) flags=(-race) ;; esac
mkdir -p "$here/evidence/replays"
if ! (cd "$here/harness" && go build "${flags[@]}" -o "$scratch/vmon" ./cmd/vmon) 2>"$scratch/build.log"; then
	cat "$scratch/build.log" >&2
	# The monitors no longer compile against the tree: nothing was decided.
	exit 2
fi
"$scratch/vmon" run -prop "$id" -tier "$tier" -seed "$seed" -verif "$here"
rc=$?
exit $rc

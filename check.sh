#!/bin/bash
# check.sh <property>: builds the checker and /repo's current tree, decides one property.
# VERIF_TIER=quick|thorough selects the bounds. Exit 0 held, 1 violation, 2 could not run.
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GO111MODULE=on GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export LC_ALL=C.UTF-8
base=/dev/shm
t=$(mktemp -d "$base/octmc.XXXXXX" 2>/dev/null) || t=$(mktemp -d /tmp/octmc.XXXXXX) || exit 2
export MC_SCRATCH="$t"
cleanup() { case "$t" in /dev/shm/octmc.*|/tmp/octmc.*) chmod -R u+rwx "$t" 2>/dev/null; rm -rf "$t";; esac; }
trap cleanup EXIT
( cd "$VERIF_DIR/mc" && go build -buildvcs=false -o "$t/mc" . ) || exit 2
"$t/mc" "$@"
exit $?

#!/bin/bash
# check.sh ID: decides one property on the current tree of /repo (exit 0 held, 1 violated, 2 the check could not run)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
d=$(mktemp -d) || exit 2
trap 'rm -f "$d/engine"; rmdir "$d"' EXIT
(cd engine && go build -o "$d/engine" .) || exit 2
"$d/engine" check "$1"

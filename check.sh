#!/bin/bash
# check.sh <property> <tier>: builds the analyser if needed and runs one check.
cd "$(dirname "$0")" || exit 2
dir=$PWD
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
mkdir -p bin evidence
(cd tool && go build -o "$dir/bin/va.$$" . && mv "$dir/bin/va.$$" "$dir/bin/va") || exit 2
[ "$1" = build ] && exit 0
VERIF_DIR=$dir exec "$dir/bin/va" check "$1" "$2"

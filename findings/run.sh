#!/bin/bash
# Runs the defect demonstrations against a tree (default /repo).
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
. /opt/vp/env.sh; cd "$tree" || exit 1
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$tree/sign/defects_verif_test.go\":\"$here/defects_test.go\"}}" > "$o"
go test -overlay "$o" -vet=off -count=1 -run TestDefect ./sign

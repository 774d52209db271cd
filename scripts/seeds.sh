#!/bin/bash
# seeds.sh [id...]: run the check of each seeded bug's property (or of
# PROPS="C01 ...") on a scratch copy with the bug, with the analyser in $VA.
V=$(cd "$(dirname "$0")/.." && pwd)
VA=${VA:-$V/bin/va}
one() {
  id=$1; p=${PROPS:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")}
  w=/tmp/seedrun/$id
  mkdir -p /tmp/seedrun; [ -d "$w" ] && rm -rf "/tmp/seedrun/$id"
  cp -a /repo "$w"; (cd "$w" && git checkout -q -- . && git apply "$V/seeded/$id/patch.diff") || { echo "$id: patch fails"; return; }
  for q in $p; do
    mkdir -p /tmp/seedrun/out-$id; cp "$V/known-findings.txt" /tmp/seedrun/out-$id/
    VERIF_DIR=/tmp/seedrun/out-$id VERIF_REPO=$w timeout 900 "$VA" check $q > /tmp/seedrun/$id.$q.txt 2>&1
    rc=$?
    echo "$id $q rc=$rc $(grep -h '^  ' /tmp/seedrun/$id.$q.txt | head -1 | cut -c1-150)"
  done
  rm -rf "/tmp/seedrun/$id"
}
export -f one; export V VA PROPS
if [ $# = 0 ]; then set -- $(ls "$V/seeded"); fi
printf '%s\n' "$@" | xargs -P ${J:-6} -I{} bash -c 'one {}'

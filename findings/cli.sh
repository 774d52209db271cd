#!/bin/bash
# CLI defect demonstrations: cli.sh [tree]; prints DEFECT lines for what fails.
tree=${1:-/repo}; . /opt/vp/env.sh; cd "$tree" || exit 1
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT; rc=0
go build -buildvcs=false -o "$w/sigtool" ./src || exit 2
b=$w/sigtool; export FOO=x; cd "$w" || exit 2
bad() { echo "DEFECT: $*"; rc=1; }
$b g -E FOO k
echo hello > f
$b s -E FOO k.key f -o - > /dev/full 2>/dev/null && bad "F04 sign: exit 0 although the signature wasn't written"
$b e -o f --overwrite k.pub f 2>/dev/null && bad "F03 encrypt: replaced its input file"
echo hello > f; $b e -o f.enc k.pub f || bad "encrypt"
$b d -E FOO -o f.enc --overwrite k.key f.enc 2>/dev/null && bad "F03 decrypt: replaced its input file"
$b e -o g.enc k.pub f
( sleep 6; mkdir out; cat g.enc ) | $b d -E FOO -o out k.key - 2>/dev/null && bad "F04 decrypt: exit 0 although the output wasn't written"
$b e -o h.enc k.pub f
$b d -E FOO -v k.pub -o h k.key h.enc 2>/dev/null && bad "C06 decrypt -v: accepted an unauthenticated file"
exit $rc
